package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ctx carries the state of one check run: seed, tier, verdicts and the coverage actually observed.
type Ctx struct {
	ID      string
	Tier    string
	Seed    int64
	Verif   string
	Repo    string
	Scratch string
	began   time.Time

	mu        sync.Mutex
	evals     int
	distinct  map[string]int
	samples   []any
	viol      []violation
	known     []knownFinding
	knownHit  map[string]string
	counters  map[string]int
	inconcl   []string
	rule      string
	level     string
	assume    []string
	explained map[string]any
	minEvals  int
	cleanup   []func()
}

type violation struct {
	Sig    string `json:"sig"`
	Detail any    `json:"detail"`
}

type knownFinding struct {
	Property string
	Sig      string
	What     string
}

func newCtx(id string) *Ctx {
	verif := os.Getenv("VH_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VH_REPO")
	if repo == "" {
		repo = "/repo"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		os.Exit(2)
	}
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Verif: verif, Repo: repo, Scratch: scratch, began: time.Now(),
		distinct: map[string]int{}, knownHit: map[string]string{}, counters: map[string]int{}, explained: map[string]any{},
		level: "exploration", minEvals: 10}
	c.loadKnown()
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng returns a generator determined by seed and a stream name only.
func (c *Ctx) Rng(stream string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", c.ID, stream, c.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.Verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// known: property=<id> sig=<sig> <what>
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(l, "known:"))
		if len(f) < 2 {
			continue
		}
		k := knownFinding{Property: strings.TrimPrefix(f[0], "property="), Sig: strings.TrimPrefix(f[1], "sig="), What: strings.Join(f[2:], " ")}
		c.known = append(c.known, k)
	}
}

// Case records one evaluation. key identifies the distinct behaviour class observed; empty = trivial.
func (c *Ctx) Case(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" {
		c.distinct[key]++
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Inconclusive notes a case that could not be judged (watchdog, resource trouble); never a violation.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.counters["inconclusive"]++
	if len(c.inconcl) < 20 {
		c.inconcl = append(c.inconcl, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Violate records a violation with a signature that identifies the failing input class.
func (c *Ctx) Violate(sig string, detail any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Property == c.ID && k.Sig == sig {
			c.knownHit[sig] = k.What
			return
		}
	}
	if len(c.viol) < 200 {
		c.viol = append(c.viol, violation{sig, detail})
	}
}

func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

func (c *Ctx) OnCleanup(f func()) {
	c.mu.Lock()
	c.cleanup = append(c.cleanup, f)
	c.mu.Unlock()
}

func (c *Ctx) runCleanup() {
	c.mu.Lock()
	cl := c.cleanup
	c.cleanup = nil
	c.mu.Unlock()
	for i := len(cl) - 1; i >= 0; i-- {
		cl[i]()
	}
	os.RemoveAll(c.Scratch)
}

// Fatal ends the run as an error of the check (neither held nor violated).
func (c *Ctx) Fatal(format string, a ...any) {
	if c.Violations() > 0 {
		// what was observed before stands
		c.Finish()
	}
	fmt.Printf("CHECK-ERROR property=%s %s\n", c.ID, fmt.Sprintf(format, a...))
	c.runCleanup()
	os.Exit(2)
}

// Finish writes evidence, prints verdict lines and exits.
func (c *Ctx) Finish() {
	c.mu.Lock()
	keys := make([]string, 0, len(c.distinct))
	for k := range c.distinct {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	show := keys
	if len(show) > 60 {
		show = show[:60]
	}
	cov := map[string]any{
		"evaluations":          c.evals,
		"distinct_nontrivial":  len(c.distinct),
		"rule":                 c.rule,
		"samples":              c.samples,
		"observed":             c.counters,
		"distinct_keys_sample": show,
	}
	for k, v := range c.explained {
		cov[k] = v
	}
	if len(c.inconcl) > 0 {
		cov["inconclusive_samples"] = c.inconcl
	}
	ev := map[string]any{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       c.level,
		"coverage":    cov,
		"assumptions": c.assume,
		"wall_s":      time.Since(c.began).Seconds(),
		"violations":  len(c.viol),
	}
	viol := c.viol
	evals := c.evals
	c.mu.Unlock()
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		c.Fatal("evidence: %v", err)
	}
	for sig, what := range c.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s sig=%s %s\n", c.ID, sig, what)
	}
	if len(viol) > 0 {
		rp := filepath.Join(dir, "replay-"+c.ID+".json")
		rb, _ := json.MarshalIndent(map[string]any{"property": c.ID, "seed": c.Seed, "tier": c.Tier, "violations": viol,
			"how": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s", c.Seed, c.Tier, c.ID)}, "", " ")
		os.WriteFile(rp, append(rb, '\n'), 0644)
		seen := map[string]bool{}
		for _, v := range viol {
			if seen[v.Sig] || len(seen) > 12 {
				continue
			}
			seen[v.Sig] = true
			d, _ := json.Marshal(v.Detail)
			if len(d) > 600 {
				d = append(d[:600], "..."...)
			}
			fmt.Printf("  violated: %s: %s\n", v.Sig, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		c.runCleanup()
		os.Exit(1)
	}
	if evals < c.minEvals {
		c.Fatal("only %d evaluations (< %d): nothing observed, no verdict", evals, c.minEvals)
	}
	if c.counters["inconclusive"]*3 > evals+2 {
		c.Fatal("too many inconclusive cases: %d of %d: %v", c.counters["inconclusive"], evals, c.inconcl)
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d observed=%v wall=%.1fs\n", c.ID, evals, len(keys), c.counters, time.Since(c.began).Seconds())
	c.runCleanup()
	os.Exit(0)
}
