package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
)

// C19: label draws.

// klTail is n times the relative entropy of k/n against p: a fair coin exceeds it with probability < 2*exp(-value).
func klTail(k, n int, p float64) float64 {
	if n == 0 {
		return 0
	}
	x := float64(k) / float64(n)
	t := func(a, b float64) float64 {
		if a == 0 {
			return 0
		}
		if b <= 0 {
			return math.Inf(1)
		}
		return a * math.Log(a/b)
	}
	return float64(n) * (t(x, p) + t(1-x, 1-p))
}

const klLimit = 32 // 2*exp(-32) = 2.5e-14 per test

type polCase struct {
	name   string
	labels []string // in policy order
	w      []float64
	ups    [][]string // labels per upstream, in resource order
	nodef  bool       // policy does not exist at all
	exp    map[string]float64
}

// expected distribution over upstream index or "503"
func (p *polCase) expect() {
	p.exp = map[string]float64{}
	lw := map[string]float64{}
	tot := 0.0
	for i, l := range p.labels {
		lw[l] += p.w[i]
		tot += p.w[i]
	}
	if tot < 1-1e-9 {
		lw["default"] += 1 - tot
	}
	for l, w := range lw {
		if w <= 1e-12 {
			continue
		}
		tgt := "503"
	find:
		for i, ls := range p.ups {
			for _, x := range ls {
				if x == l {
					tgt = fmt.Sprint(i)
					break find
				}
			}
		}
		p.exp[tgt] += w
	}
}

func init() {
	register("C19", func(c *Ctx) {
		c.rule = "random and hand picked policies (1-8 labels, equal, unequal, zero and tiny weights, sums below 1, repeated labels, unsorted, missing label, absent policy) x label assignments (several labels per upstream, several upstreams per label), interleaved with error responses; oracle: support of the distribution exactly, frequencies and lagged pairs against binomial tail bounds (error below 1e-12 per run), first upstream without policy, one upstream for all attempts of a request; the same weights and independence in 38 contexts (ids, sessions, methods, paths, protocols, tokens, routes that share a policy, failing, slow and dead upstreams); key = policy x outcome"
		c.assume = []string{"frequencies are judged with Chernoff bounds at 2.5e-14 per test: deviations below about sqrt(16/n) pass unnoticed"}
		bin := c.buildJ8a(false)
		rng := c.Rng("pol")
		// upstream i of case n answers with its index
		type farm struct {
			s    *Server
			ups  []*Upstream
			fail bool
		}
		var cases []*polCase
		add := func(name string, labels []string, w []float64, ups ...[]string) {
			p := &polCase{name: name, labels: labels, w: w, ups: ups}
			p.expect()
			cases = append(cases, p)
		}
		L := func(s ...string) []string { return s }
		W := func(f ...float64) []float64 { return f }
		add("half", L("a", "b"), W(0.5, 0.5), L("a"), L("b"))
		add("90-10", L("a", "b"), W(0.9, 0.1), L("a"), L("b"))
		add("10-90", L("a", "b"), W(0.1, 0.9), L("a"), L("b"))
		add("one", L("a"), W(1), L("x"), L("a"), L("a"))
		add("three", L("a", "b", "c"), W(0.2, 0.5, 0.3), L("c"), L("b"), L("a"))
		add("three-reversed", L("c", "b", "a"), W(0.6, 0.3, 0.1), L("a"), L("b"), L("c"))
		add("zero", L("a", "b", "z"), W(0.7, 0.3, 0), L("z"), L("a"), L("b"))
		add("below-one", L("a", "b"), W(0.3, 0.3), L("default"), L("a"), L("b"))
		add("below-one-no-default", L("a"), W(0.6), L("a"), L("b"))
		add("default-listed", L("default", "a"), W(0.2, 0.3), L("a"), L("default"))
		add("empty", nil, nil, L("a"), L("default"))
		add("no-label-matches", L("a"), W(1), L("b"), L("c"))
		add("repeated-label", L("a", "b", "a"), W(0.2, 0.5, 0.3), L("a"), L("b"))
		add("equal-four", L("a", "b", "c", "d"), W(0.25, 0.25, 0.25, 0.25), L("d"), L("c"), L("b"), L("a"))
		add("equal-four-one-missing", L("a", "b", "c", "d"), W(0.25, 0.25, 0.25, 0.25), L("d"), L("c"), L("b"))
		add("many-labels", L("a", "b"), W(0.5, 0.5), L("x", "y", "b", "a"), L("a"), L("b"))
		add("second-label", L("a", "b"), W(0.4, 0.6), L("q", "b"), L("r", "a", "b"))
		add("case-sensitive", L("A", "b"), W(0.4, 0.6), L("a"), L("b"), L("A"))
		add("prefix", L("a", "aa"), W(0.3, 0.7), L("aa"), L("a"))
		add("no-labels-upstream", L("a"), W(0.5), L(), L("a"), L("default"))
		add("ten", L("0", "1", "2", "3", "4", "5", "6", "7", "8", "9"), W(.1, .1, .1, .1, .1, .1, .1, .1, .1, .1), L("0"), L("1"), L("2"), L("3"), L("4"), L("5"), L("6"), L("7"), L("8"), L("9"))
		add("default-last-label", L("blue"), W(0.5), L("green", "default"), L("blue"))
		add("default-of-second-upstream", L("blue"), W(0.4), L("green"), L("blue"), L("x", "y", "default"))
		add("default-shared", L("blue"), W(0.25), L("blue", "default"))
		add("tiny", L("canary", "rest"), W(0.008, 0.992), L("canary"), L("rest"))
		add("tiny-last", L("rest", "canary"), W(0.994, 0.006), L("canary"), L("rest"))
		add("thousandths", L("a", "b", "c"), W(0.125, 0.375, 0.5), L("a"), L("b"), L("c"))
		add("remainder-tiny", L("a"), W(0.993), L("a"), L("default"))
		add("skewed", L("a", "b", "c"), W(0.01, 0.98, 0.01), L("a"), L("b"), L("c"))
		for i := 0; i < c.N(14, 60); i++ {
			n := 1 + rng.Intn(7)
			var ls []string
			var ws []float64
			left := 1.0
			for k := 0; k < n; k++ {
				ls = append(ls, pick(rng, []string{"a", "b", "c", "d", "e", "default", "green", "blue"}))
				w := math.Round(left*rng.Float64()*100) / 100
				if k == n-1 && rng.Intn(2) == 0 {
					w = math.Round(left*100) / 100
				}
				ws = append(ws, w)
				left -= w
				if left < 0 {
					left = 0
				}
			}
			rng.Shuffle(n, func(a, b int) { ls[a], ls[b] = ls[b], ls[a]; ws[a], ws[b] = ws[b], ws[a] })
			var ups [][]string
			for k := 0; k < 1+rng.Intn(6); k++ {
				var u []string
				for q := 0; q < rng.Intn(4); q++ {
					u = append(u, pick(rng, []string{"a", "b", "c", "d", "e", "default", "green", "blue"}))
				}
				ups = append(ups, u)
			}
			add(fmt.Sprintf("random%d", i), ls, ws, ups...)
		}
		abs := &polCase{name: "absent-policy", nodef: true, ups: [][]string{{"a"}, {"default"}}}
		abs.expect()
		cases = append(cases, abs)
		// shared upstreams: index k answers k, resource of a case is a list of them
		var ups []*Upstream
		for k := 0; k < 10; k++ {
			k := k
			u := c.newUpstream(fmt.Sprint(k), func(r *UpReq, w *UpConn) {
				if strings.HasPrefix(r.Target, "/") && strings.Contains(r.Target, "fail") {
					answerClose(503, hv("X-Up", fmt.Sprint(k)), nil)(r, w)
					return
				}
				w.Reply(r, 200, hv("X-Up", fmt.Sprint(k)), []byte("ok"))
			})
			u.keep = false
			ups = append(ups, u)
		}
		build := func(fail []*Upstream) J {
			pols, ress, routes := J{}, J{}, A{}
			for i, p := range cases {
				nm := fmt.Sprintf("p%d", i)
				if i < len(oddNames) {
					nm = oddNames[i]
				}
				if !p.nodef {
					pol := A{}
					for k, l := range p.labels {
						pol = append(pol, J{"label": l, "weight": p.w[k]})
					}
					pols[nm] = pol
				}
				res := A{}
				for k, ls := range p.ups {
					u := ups[k]
					if fail != nil {
						u = fail[k]
					}
					res = append(res, labelled(u, ls...))
				}
				ress[nm] = res
				routes = append(routes, J{"path": fmt.Sprintf("/p%d/", i), "resource": nm, "policy": nm}, J{"path": fmt.Sprintf("/n%d/", i), "resource": nm})
			}
			return J{"policies": pols, "routes": routes, "resources": ress, "connection": J{"upstream": J{"maxAttempts": 3}}}
		}
		s := c.start(build(nil), StartOpt{Bin: bin, Level: "WARN"})
		n := c.N(6000, 80000)
		c.Par(len(cases), len(cases), func(i int) {
			p := cases[i]
			r := c.Rng("case" + fmt.Sprint(i))
			cl, err := dial(s.Addr, nil)
			if err != nil {
				c.Inconclusive("dial")
				return
			}
			defer func() { cl.Close() }()
			seq := make([]string, 0, n)
			get := func(path string) (*Resp, bool) {
				for try := 0; ; try++ {
					cl.Send("GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n")
					rp, err := cl.Read("GET", watchdog)
					if err == nil && rp.Err == nil {
						return rp, true
					}
					if try == 2 {
						c.Inconclusive("connection: %v", err)
						return nil, false
					}
					cl.Close()
					cl, err = dial(s.Addr, nil)
					if err != nil {
						return nil, false
					}
				}
			}
			d := J{"policy": p.name, "labels": p.labels, "weights": p.w, "upstreams": p.ups, "expected": p.exp}
			for len(seq) < n {
				rp, ok := get(fmt.Sprintf("/p%d/x", i))
				if !ok {
					return
				}
				o := ""
				if rp.Code == 503 && rp.H.Get("X-Up") == "" {
					o = "503"
					if w := wrapper(rp, 503); w != "" {
						d["why"] = w
						c.Violate("503-without-wrapper", d)
						return
					}
				} else if rp.Code == 200 {
					o = rp.H.Get("X-Up")
				} else {
					d["code"] = rp.Code
					c.Violate("unexpected-status", d)
					return
				}
				if p.exp[o] == 0 {
					d["got"] = o
					c.Violate("impossible-upstream", d)
					return
				}
				seq = append(seq, o)
				if r.Intn(7) == 0 { // error responses share the random source
					get("/nowhere")
				}
				if r.Intn(9) == 0 {
					if rp, ok := get(fmt.Sprintf("/n%d/x", i)); ok && (rp.Code != 200 || rp.H.Get("X-Up") != "0") {
						d["got"] = rp.H.Get("X-Up")
						c.Violate("no-policy-not-first", d)
						return
					}
				}
			}
			cnt := map[string]int{}
			for _, o := range seq {
				cnt[o]++
			}
			d["counts"] = cnt
			var keys []string
			for o := range p.exp {
				keys = append(keys, o)
			}
			sort.Strings(keys)
			for _, o := range keys {
				pe := math.Min(1, p.exp[o])
				if klTail(cnt[o], n, pe) > klLimit {
					d["outcome"] = o
					c.Violate("frequency", d)
				}
				c.Case(fmt.Sprintf("%s->%s", p.name, o))
				// independence of consecutive and lagged draws: disjoint pairs
				for _, lag := range []int{1, 2, 3, 4, 5, 7, 10} {
					k, m := 0, 0
					for b := 0; b+2*lag <= n; b += 2 * lag {
						for q := 0; q < lag; q++ {
							m++
							if seq[b+q] == o && seq[b+q+lag] == o {
								k++
							}
						}
					}
					if klTail(k, m, pe*pe) > klLimit {
						d["outcome"], d["lag"], d["pairs"], d["of"], d["sequence"] = o, lag, k, m, strings.Join(seq[:60], "")
						c.Violate("draws-not-independent", d)
					}
				}
			}
			c.Count("draws", n)
			if i < 5 {
				c.Sample(J{"policy": p.name, "expected": p.exp, "observed": cnt})
			}
		})
		c.checkHealth(s)
		// attempts of one request all go to the same upstream; a fresh process draws another sequence
		var fails []*Upstream
		for k := 0; k < 10; k++ {
			fails = append(fails, c.newUpstream(fmt.Sprint(k), answerClose(503, nil, nil)))
		}
		s2 := c.start(build(fails), StartOpt{Bin: bin, Level: "WARN"})
		nr := c.N(30, 200)
		c.Par(len(cases)*2, 32, func(j int) {
			i := j % len(cases)
			for q := 0; q < nr; q++ {
				id := fmt.Sprintf("t%d-%d.", j, q)
				pre := "p"
				if j >= len(cases) {
					pre = "n"
				}
				r, err := s2.ex("GET", fmt.Sprintf("/%s%d/x", pre, i), hv("X-Case", id), nil)
				if !c.judge("retry", r, err, J{"policy": cases[i].name}) {
					return
				}
				var hit []string
				for k, u := range fails[:max(1, len(cases[i].ups))] {
					if m := len(u.ForCase(id)); m > 0 {
						hit = append(hit, fmt.Sprintf("%d:%d", k, m))
						u.ForgetPrefix(id)
					}
				}
				if r.Code == 502 && (len(hit) != 1 || !strings.HasSuffix(hit[0], ":3")) || pre == "n" && (len(hit) != 1 || hit[0] != "0:3") {
					c.Violate("attempts-spread-over-upstreams", J{"policy": cases[i].name, "hit": hit, "code": r.Code, "route": pre})
				}
			}
			c.Case("retry " + cases[i].name)
		})
		c19contexts(c, bin)
		seqOf := func() string {
			sv := c.start(build(nil), StartOpt{Bin: bin, Level: "WARN"})
			defer sv.Stop()
			cl, err := dial(sv.Addr, nil)
			if err != nil {
				return ""
			}
			defer cl.Close()
			var b strings.Builder
			for q := 0; q < 300; q++ {
				cl.Send("GET /p0/x HTTP/1.1\r\nHost: x\r\n\r\n")
				r, err := cl.Read("GET", 30*time.Second)
				if err != nil {
					return ""
				}
				b.WriteString(r.H.Get("X-Up"))
			}
			return b.String()
		}
		a, b := seqOf(), seqOf()
		if a == "" || b == "" {
			c.Inconclusive("fresh process")
		} else if a == b {
			c.Violate("same-sequence-after-restart", J{"sequence": a})
		}
		c.Case("fresh process")
	})
}
