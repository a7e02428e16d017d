package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"
)

// C15: date claims against skew, judged with the time interval the request lived in.
func init() {
	register("C15", func(c *Ctx) {
		c.rule = "skew (default, 0, 1, 5, 60, 120, 3600, 86400, 31536000 and five beyond 292 years) x key kinds x claim (exp, nbf, iat and combinations) x offset from the boundary (2 s to years, both sides) x integer or fractional, or 24 unusual literals (exponents, strings, null, negative, beyond int64); tokens used again and again while their dates pass; verdict expected only if it is the same at both ends of the request's lifetime, with a tolerance of 1 s; key = skew x claims x offsets"
		c.assume = []string{"system clock does not jump", "within 1 s of the boundary either verdict is fine (claims have second resolution)"}
		bin := c.buildJ8a(false)
		rng := c.Rng("dates")
		skews := []string{"", "0", "1", "5", "60", "120", "3600", "86400", "31536000", "9223372036", "9223372037", "9999999999", "100000000000", "9223372036854775807"}
		f := c.jwtFarm(bin, func(f *jwtFarm, jwts J) {
			f.Routes = nil
			for k := range jwts {
				delete(jwts, k)
			}
			jwts["none"] = J{"alg": "none"}
			for i, s := range skews {
				for j, alg := range []string{"HS256", "ES256", "RS256"} {
					if j > 0 && i%3 != j {
						continue
					}
					k := newKey(alg, 0)
					n := "skew" + s + alg
					f.Routes = append(f.Routes, &jroute{name: n, alg: alg, keys: []*jkey{k}, skew: s})
					jw := J{"alg": alg, "key": k.keyText(false)}
					if s != "" {
						jw["acceptableSkewSeconds"] = s
					}
					jwts[n] = jw
				}
				// none with skew
				n := "skew" + s + "none"
				f.Routes = append(f.Routes, &jroute{name: n, alg: "none", skew: s})
				jw := J{"alg": "none"}
				if s != "" {
					jw["acceptableSkewSeconds"] = s
				}
				jwts[n] = jw
			}
		})
		skewOf := func(s string) int64 {
			if s == "" {
				return 120
			}
			var n int64
			fmt.Sscan(s, &n)
			return n
		}
		type cs struct {
			rt   *jroute
			off  map[string]float64 // distance beyond the boundary; positive = refused
			abs  map[string]float64
			raw  map[string]string // JSON literals
			id   string
			frac bool
		}
		var cases []cs
		offs := []float64{-100000000, -4000, -130, -61, -10, -3, -2, 2, 3, 10, 61, 130, 4000, 100000000, 800000000}
		// numbers in other forms, and numbers that are dates no clock will ever show
		literals := []string{"-1", "-59999999999", "-62135596800", "-62135596801", "-9e18", "-9223372036854775808", "-1e300",
			"1e9", "1.5E+9", "8e9", "0.9e10", "253402300800", "9e15", "9223372036854775", "9e18", "9223371974719179007", "9223371974719179008",
			"9223372036854775807", "1e19", "18446744073709551617", "1e300", "null", `"1000000000"`, `"8000000000"`}
		for rep := 0; rep < c.N(1, 10); rep++ {
			for _, rt := range f.Routes {
				for _, cl := range []string{"exp", "nbf", "iat"} {
					for _, o := range offs {
						cases = append(cases, cs{rt: rt, off: map[string]float64{cl: o}})
					}
				}
				for i := 0; i < 12; i++ {
					m := map[string]float64{}
					for _, cl := range []string{"exp", "nbf", "iat"} {
						if rng.Intn(4) > 0 {
							o := pick(rng, offs)
							if o > 0 && rng.Intn(2) == 0 {
								o = -o
							}
							m[cl] = o
						}
					}
					cases = append(cases, cs{rt: rt, off: m, frac: rng.Intn(2) == 0})
				}
				for _, v := range []float64{0, 1, 2, 1000} {
					cases = append(cases, cs{rt: rt, abs: map[string]float64{"exp": v}}, cs{rt: rt, abs: map[string]float64{"nbf": v}}, cs{rt: rt, abs: map[string]float64{"iat": v}})
				}
				cases = append(cases, cs{rt: rt})
				for _, cl := range []string{"exp", "nbf", "iat"} {
					for _, lit := range literals {
						cases = append(cases, cs{rt: rt, raw: map[string]string{cl: lit}})
					}
					cases = append(cases, cs{rt: rt, raw: map[string]string{"exp": pick(rng, literals), "nbf": pick(rng, literals), "iat": pick(rng, literals)}})
				}
			}
		}
		for i := range cases {
			cases[i].id = fmt.Sprintf("c%d.", i)
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		c.Par(len(cases), 12, func(i int) {
			t := cases[i]
			sk := float64(skewOf(t.rt.skew))
			for try := 0; ; try++ {
				t1 := float64(time.Now().UnixNano()) / 1e9
				base := float64(int64(t1))
				claims := J{"sub": "x"}
				vals := map[string]float64{}
				for cl, o := range t.off {
					v := base + sk + o // nbf, iat: future beyond skew by o
					if cl == "exp" {
						v = base - sk - o
					}
					if t.frac {
						v += 0.25
					}
					if v < -60000000000 || v < 0 && sk < 1e9 {
						v = 5
					}
					vals[cl] = v
				}
				for cl, v := range t.abs {
					vals[cl] = v
				}
				for cl, v := range vals {
					if v == float64(int64(v)) {
						claims[cl] = int64(v)
					} else {
						claims[cl] = v
					}
				}
				for cl, lit := range t.raw {
					claims[cl] = json.RawMessage(lit)
					if lit != "null" { // an absent claim
						vals[cl], _ = strconv.ParseFloat(strings.Trim(lit, `"`), 64)
					}
				}
				var tok string
				if t.rt.alg == "none" {
					tok = b64([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + b64(mustJSON(claims)) + "."
				} else {
					tok = t.rt.keys[0].sign(nil, claims)
				}
				id := fmt.Sprintf("%st%d.", t.id, try)
				r, _, err := f.L.ex(i, "GET", t.rt.path, hv("X-Case", id, "Authorization", "Bearer "+tok), nil)
				t2 := float64(time.Now().UnixNano()) / 1e9
				// must be refused / accepted at a given time, with tolerance
				refuse := func(at float64) bool {
					for cl, v := range vals {
						if v <= -62135596800 || v > 1<<61 { // not a date
							return true
						}
						if cl == "exp" && at >= v+sk+1 || cl != "exp" && at <= v-sk-1 {
							return true
						}
					}
					return false
				}
				accept := func(at float64) bool {
					for cl, v := range vals {
						if v <= -62135596800 || v > 1<<61 {
							return false
						}
						if cl == "exp" && at >= v+sk-1 || cl != "exp" && at <= v-sk+1 {
							return false
						}
					}
					return true
				}
				d := J{"skew": t.rt.skew, "route": t.rt.name, "beyond-boundary": t.off, "claims": claims, "sent": t1, "answered": t2}
				if !c.judge("date", r, err, d) {
					return
				}
				d["code"] = r.Code
				n := len(f.Up.ForCase(id))
				switch {
				case refuse(t1) && refuse(t2):
					if r.Code != 401 || n > 0 {
						c.Violate("untimely-token-accepted", d)
						return
					}
				case accept(t1) && accept(t2):
					if r.Code != 200 || n != 1 {
						c.Violate("timely-token-refused", d)
						return
					}
				default:
					if try < 3 {
						continue
					}
					c.Count("at_boundary", 1)
					return
				}
				c.Case(fmt.Sprintf("%s %v %v %v frac=%v -> %d", t.rt.name, t.off, t.abs, t.raw, t.frac, r.Code))
				if i < 5 {
					c.Sample(d)
				}
				f.Up.ForgetPrefix(id)
				return
			}
		})
		// tokens in repeated use while their dates pass
		var held sync.WaitGroup
		for i, rt := range f.Routes {
			sk := skewOf(rt.skew)
			if sk > 3600 && i%3 > 0 {
				continue
			}
			for q := 0; q < 4; q++ {
				held.Add(1)
				go func() {
					defer held.Done()
					cl := []string{"exp", "nbf", "iat", "exp"}[q]
					at := time.Now().Unix() + int64(3+(i+q)%4) // when the verdict changes
					v := at - sk
					if cl != "exp" {
						v = at + sk
					}
					if v < 1 || sk > 1<<40 {
						return
					}
					claims := J{"sub": fmt.Sprint(i, q), cl: v}
					var tok string
					if rt.alg == "none" {
						tok = b64([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + b64(mustJSON(claims)) + "."
					} else {
						tok = rt.keys[0].sign(nil, claims)
					}
					seen := ""
					for n := 0; ; n++ {
						id := fmt.Sprintf("held%d-%d-%d.", i, q, n)
						t1 := float64(time.Now().UnixNano()) / 1e9
						r, err := f.S.ex("GET", rt.path, hv("X-Case", id, "Authorization", "Bearer "+tok), nil)
						t2 := float64(time.Now().UnixNano()) / 1e9
						d := J{"route": rt.name, "skew": rt.skew, "claims": claims, "sent": t1, "answered": t2, "changes-at": at, "uses-before": n, "earlier": seen}
						if !c.judge("held-token", r, err, d) {
							return
						}
						d["code"] = r.Code
						want := 0
						if t2 <= float64(at)-1 {
							want = 200
						} else if t1 >= float64(at)+1 {
							want = 401
						}
						if want > 0 && cl != "exp" {
							want = 601 - want
						}
						if want > 0 && (r.Code != want || (len(f.Up.ForCase(id)) == 1) != (want == 200)) {
							c.Violate(map[int]string{200: "timely-token-refused-later", 401: "untimely-token-accepted-later"}[want], d)
							return
						}
						f.Up.ForgetPrefix(id)
						seen = fmt.Sprint(r.Code)
						c.Count("held_token_uses", 1)
						if t1 > float64(at)+2.5 {
							c.Case(fmt.Sprintf("held %s %s", rt.name, cl))
							return
						}
						time.Sleep(150 * time.Millisecond)
					}
				}()
			}
		}
		held.Wait()
		c.checkHealth(f.S)
		f.L.check()
	})
}
