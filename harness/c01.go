package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

// C01: route resolution against an independent model over random tables and URIs.

type rt struct {
	path string // as configured
	norm string // with slash
	re   *regexp.Regexp
}

var c01seg = []string{"a", "b", "ab", "abc", "api", "v1", "v2", "user", "users", "x-y", "q.z", "A"}

func c01path(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, pick(r, c01seg))
	}
	s := "/" + strings.Join(p, "/")
	switch r.Intn(15) {
	case 14:
		s += "/" + strings.Repeat(pick(r, []string{"long", "l/", "ab"}), 20+r.Intn(200)) // a long one
	case 0:
		s += "/"
	case 1:
		s = strings.TrimPrefix(s, "/")
	case 2:
		s += "$"
	case 3:
		s = "/(foo|bar)" + s
	case 4:
		s = "/v[0-9]+" + s
	case 5:
		s += ".*z"
	case 6:
		s = s + "|/alt" + pick(r, c01seg)
	case 7:
		s = "/"
	case 8:
		s = s + "?" // regex quantifier on last char
	case 9:
		s += `\?q=` + pick(r, c01seg) // into the query
	}
	return s
}

func c01uri(r *rand.Rand, tab []rt) string {
	base := "/"
	switch r.Intn(6) {
	case 0, 1, 2:
		t := pick(r, tab).norm
		t = strings.NewReplacer(`\?`, "?", "(foo|bar)", pick(r, []string{"foo", "bar", "fooo", "ba"}), "[0-9]+", pick(r, []string{"1", "42", "", "x"}), ".*", pick(r, []string{"", "/k/", "?q="}), "$", "", "?", "").Replace(t)
		if i := strings.Index(t, "|"); i >= 0 {
			if r.Intn(2) == 0 {
				t = t[:i]
			} else {
				t = t[i+1:]
			}
		}
		base = t
	case 3:
		base = "/" + pick(r, c01seg) + "/" + pick(r, c01seg)
	case 4:
		base = "/zz" + pick(r, tab).norm // not at the start
	case 5:
		// a prefix or near miss of a route
		t := pick(r, tab).norm
		if len(t) > 2 {
			t = t[:1+r.Intn(len(t)-1)]
		}
		base = regexp.MustCompile(`[^a-zA-Z0-9/.-]`).ReplaceAllString(t, "")
	}
	switch r.Intn(8) {
	case 0:
		base += "/" + pick(r, c01seg)
	case 1:
		base += "?q=" + pick(r, c01seg)
	case 2:
		base += pick(r, c01seg)
	case 3:
		base += "?u=" + pick(r, tab).norm
	case 4:
		base = strings.Replace(base, "a", "%61", 1)
	case 5:
		base = strings.ToUpper(base)
	}
	base = strings.ReplaceAll(base, " ", "")
	q := ""
	if i := strings.IndexByte(base, '?'); i >= 0 {
		base, q = base[:i], base[i:]
	}
	for strings.Contains(base, "//") {
		base = strings.ReplaceAll(base, "//", "/")
	}
	if base == "" || base[0] != '/' {
		base = "/" + base
	}
	q = regexp.MustCompile(`[^a-zA-Z0-9?=/.&-]`).ReplaceAllString(q, "")
	return base + q
}

func init() {
	register("C01", func(c *Ctx) {
		c.rule = "random route tables (2-14 routes, every sixth 40-440 over 64 upstreams; nested/overlapping/regex/slashless and long paths, shuffled order), random URIs near and away from the table; key = relation of winner to losers"
		c.assume = []string{"among several matching paths of equal length any may win", "URIs the Go mux would clean (//, dot segments) are not generated", "Go's regexp syntax is what a path means"}
		bin := c.buildJ8a(false)
		rng := c.Rng("tables")
		tables := c.N(72, 400)
		per := c.N(90, 200)
		var ups []*Upstream
		sc := newScripted(func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte(r.Up)) })
		for i := 0; i < 64; i++ {
			ups = append(ups, c.newUpstream(fmt.Sprint("u", i), sc.Handle))
		}
		type job struct {
			tab  []rt
			uris []string
			meth []string
			id   int
		}
		var jobs []job
		for t := 0; t < tables; t++ {
			seen := map[string]bool{}
			var tab []rt
			n := 2 + rng.Intn(13)
			if t%6 == 5 {
				n = 40 + rng.Intn(400) // more routes than upstreams
			}
			for len(tab) < n {
				p := c01path(rng)
				if len(tab) > 0 && rng.Intn(3) == 0 {
					// a close relative of a route we have, a little longer or shorter, with or without slash
					p = pick(rng, tab).path
					switch rng.Intn(5) {
					case 0:
						p = strings.TrimPrefix(p, "/") + pick(rng, []string{"c", "/", "1"})
					case 1:
						p = strings.TrimPrefix(p, "/") + pick(rng, c01seg)
					case 2:
						p = p[:len(p)-1]
					case 3:
						p = "/" + strings.TrimPrefix(p, "/") + pick(rng, []string{"c", "/b", "-"})
					case 4:
						p = strings.TrimPrefix(p, "/")
						p = p[:len(p)-len(p)/4]
					}
					if p == "" || strings.Contains(p, "//") {
						continue
					}
				}
				norm := p
				if !strings.HasPrefix(p, "/") {
					norm = "/" + p
				}
				if seen[norm] {
					continue
				}
				re, err := regexp.Compile("^(?:" + norm + ")")
				if err != nil {
					continue
				}
				seen[norm] = true
				tab = append(tab, rt{p, norm, re})
			}
			j := job{tab: tab, id: t}
			for i := 0; i < per; i++ {
				j.uris = append(j.uris, c01uri(rng, tab))
				j.meth = append(j.meth, pick(rng, []string{"GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "TRACE"}))
			}
			jobs = append(jobs, j)
		}
		c.Par(len(jobs), 8, func(ji int) {
			j := jobs[ji]
			routes := A{}
			res := J{}
			for i, t := range j.tab {
				routes = append(routes, J{"path": t.path, "resource": fmt.Sprint("r", i%len(ups))})
				res[fmt.Sprint("r", i%len(ups))] = resourceOf(ups[i%len(ups)])
			}
			s := c.start(J{"routes": routes, "resources": res}, StartOpt{Bin: bin, Level: "INFO"})
			defer s.Stop()
			for k, u := range j.uris {
				id := fmt.Sprintf("t%d.%d", j.id, k)
				var match []int
				for i, t := range j.tab {
					if t.re.MatchString(u) {
						match = append(match, i)
					}
				}
				sort.Slice(match, func(a, b int) bool { return len(j.tab[match[a]].norm) > len(j.tab[match[b]].norm) })
				var want []string
				for _, m := range match {
					if len(j.tab[m].norm) == len(j.tab[match[0]].norm) {
						want = append(want, fmt.Sprint("u", m%len(ups)))
					}
				}
				target := u
				if k%6 == 2 && j.meth[k] != "CONNECT" { // absolute form: routes are about what follows the host
					target = []string{"http://j8a.test", "http://j8a.test:8080", "https://other.test", "http://" + s.Addr}[k/6%4] + u
				}
				r, err := s.ex(j.meth[k], target, append(Headers{{"X-Case", id}}, c.noiseReq(id)...), nil)
				var paths []string
				for _, t := range j.tab[:min(40, len(j.tab))] {
					paths = append(paths, t.path)
				}
				det := J{"routes": paths, "uri": u, "target": target, "method": j.meth[k], "want_upstreams": want}
				if !c.judge("route", r, err, det) {
					continue
				}
				var got []string
				for _, up := range ups {
					for range up.ForCase(id) {
						got = append(got, up.Name)
					}
				}
				det["got"] = got
				det["code"] = r.Code
				switch {
				case len(match) == 0:
					if r.Code != 404 || len(got) > 0 {
						c.Violate("unmatched-uri-not-404", det)
					}
				case r.Code != 200 || len(got) != 1:
					c.Violate("matched-uri-not-served", det)
				default:
					ok := false
					for _, w := range want {
						ok = ok || w == got[0]
					}
					if !ok {
						c.Violate("wrong-route", det)
					}
				}
				key := ""
				if len(match) > 0 {
					w := j.tab[match[0]]
					pos := 0
					for i, t := range j.tab {
						if t.path == w.path {
							pos = i
						}
					}
					key = fmt.Sprintf("losers=%d first-in-config=%v slashless=%v regex=%v query=%v", len(match)-1, pos == 0, w.path != w.norm, strings.ContainsAny(w.path, "([$*?|"), strings.Contains(u, "?"))
				} else {
					key = fmt.Sprintf("nomatch query=%v", strings.Contains(u, "?"))
				}
				c.Case(key)
				if k == 0 {
					c.Sample(det)
				}
			}
			for _, up := range ups {
				up.ForgetPrefix(fmt.Sprintf("t%d.", j.id))
			}
			c.checkHealth(s)
		})
	})
}
