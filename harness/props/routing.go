package props

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"regexp"
	"strings"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	register("C01", false, runC01)
	register("C02", false, runC02)
	register("C03", false, runC03)
	register("C04", false, runC04)
	register("C07", false, runC07)
}

func optFor(rng *rand.Rand, i int) genOpt {
	o := genOpt{small: rng.Intn(2) == 0, deep: i%5 == 0, n: 1 + rng.Intn(12)}
	if i%7 == 0 {
		o.n = 20 + rng.Intn(40)
	}
	return o
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q… (%d bytes)", s[:300], len(s))
	}
	return s
}

type reqDetail struct {
	Routes []string `json:"routes"`
	CI     bool     `json:"case_insensitive"`
	Method string   `json:"method"`
	Path   string   `json:"path"`
	Got    string   `json:"got"`
	Want   string   `json:"want"`
}

func (s *routeSet) describe(v verdict) string {
	if len(v.match) == 0 {
		return "404"
	}
	var o []string
	for _, m := range v.match {
		o = append(o, s.routes[m].String())
	}
	return "one of: " + strings.Join(o, " | ")
}

func (s *routeSet) got(h *hit, code int) string {
	if h.runs == 0 {
		return fmt.Sprintf("status %d, no handler", code)
	}
	return fmt.Sprintf("%s (%d runs), vars %v", s.routes[h.route], h.runs, h.vars)
}

// judgeMatch is the oracle of C01: it reports whether the request was served
// as the reference says.
func judgeMatch(r *core.Run, s *routeSet, method, p string, h *hit, code int, pan any, stack string) (verdict, bool) {
	v := s.expect(method, p)
	d := func() reqDetail {
		return reqDetail{s.strings(), s.ci, method, clip(p), s.got(h, code), s.describe(v)}
	}
	switch {
	case pan != nil:
		r.Violate("panic", fmt.Sprintf("routing panicked: %v", pan), map[string]any{"case": d(), "stack": stack})
	case v.tooDeep:
		if len(v.segs) > 19 && (h.runs != 0 || code != 404) {
			r.Violate("too-deep", "a path of 20 or more segments is not answered 404", d())
		} else {
			return v, false
		}
	case h.runs > 1:
		r.Violate("many-runs", "more than one handler ran", d())
	case len(v.match) == 0 && h.runs != 0:
		r.Violate("false-match:"+lastKind(s, h), "a handler ran although no pattern of the method matches", d())
	case len(v.match) == 0 && code != 404:
		r.Violate("not-404", "a request nobody matches is not answered 404", d())
	case len(v.match) > 0 && h.runs == 0:
		r.Violate("missed:"+missKinds(s, v), "no handler ran although a pattern matches", d())
	case len(v.match) > 0 && !v.has(h.route):
		r.Violate("wrong-handler", "the handler that ran has a pattern that does not match", d())
	case len(v.match) > 0 && code != 200:
		r.Violate("bad-status", "the matched handler ran but the answer is not its own", d())
	default:
		return v, true
	}
	return v, false
}

func lastKind(s *routeSet, h *hit) string {
	p := s.routes[h.route].p
	if len(p.Segs) == 0 {
		return "root"
	}
	return kindName(p.Segs[len(p.Segs)-1].Kind)
}

func missKinds(s *routeSet, v verdict) string {
	p := s.routes[v.match[0]].p
	if len(p.Segs) == 0 {
		return "root"
	}
	return kindName(p.Segs[len(p.Segs)-1].Kind)
}

// methodFor chooses a method for a request of a set.
func methodFor(rng *rand.Rand, s *routeSet) string {
	m := "GET"
	if len(s.routes) > 0 && rng.Intn(10) != 0 {
		m = s.routes[rng.Intn(len(s.routes))].Method
	} else {
		m = stdMethods[rng.Intn(len(stdMethods))]
	}
	if rng.Intn(6) == 0 {
		m = recase(rng, m)
	}
	return m
}

func runC01(r *core.Run) {
	r.Rule("random route sets (1-60 routes over literals, {var}, {var:regex}, wildcards, *, **; 1-19 segments; several methods; both case modes; mux and bare router), " +
		"requests derived from the patterns with mutations; plus every single pattern of up to 3 segments over an 8 segment vocabulary against every path of up to 4 segments. " +
		"A case is a (route set, method, path) triple; it is non-trivial when a pattern matches or when the method has patterns of the same depth")
	r.Require("matched", 20000)
	r.Require("unmatched", 5000)
	r.Require("other_method_only", 50)
	n := r.N(45000, 400000)
	parallel(r, "route set", n, func(i int) {
		rng := r.Rand("c01", i)
		o := optFor(rng, i)
		o.methods = i%2 == 0
		s := genRoutes(rng, rng.Intn(3) == 0, o)
		srv, failed, why := s.build(rng.Perm(len(s.routes)), rng.Intn(2) == 0)
		if failed >= 0 {
			r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", why), s.strings())
			return
		}
		var matched, unmatched, other int64
		for k := 0; k < 40; k++ {
			p := genPath(rng, s, o)
			m := methodFor(rng, s)
			h, code, pan, st := ask(srv, m, p)
			v, _ := judgeMatch(r, s, m, p, h, code, pan, st)
			if len(v.match) > 0 {
				matched++
			} else {
				unmatched++
				for _, rt := range s.routes {
					if !strings.EqualFold(rt.Method, m) && rt.p.Accepts(v.segs, s.ci) {
						other++
						break
					}
				}
			}
			r.Case(s.key()+"|"+m+"|"+p, len(v.match) > 0 || sameDepth(s, m, v))
			if i < 4 && k == 0 {
				r.Sample(reqDetail{s.strings(), s.ci, m, clip(p), s.got(h, code), s.describe(v)})
			}
		}
		r.Count("matched", matched)
		r.Count("unmatched", unmatched)
		r.Count("other_method_only", other)
		r.Count("route_sets", 1)
	})
	exhaustiveSmall(r)
	wideFan(r)
}

func sameDepth(s *routeSet, m string, v verdict) bool {
	for _, rt := range s.routes {
		if strings.EqualFold(rt.Method, m) && (len(rt.p.Segs) == len(v.segs) || strings.Contains(rt.Pat, "**")) {
			return true
		}
	}
	return false
}

// exhaustiveSmall checks every single pattern, and pairs of patterns, of a
// small universe against every path of a small universe.
func exhaustiveSmall(r *core.Run) {
	vocab := []string{"a", "ab", "{x}", "{x:^a}", "a*", "?", "*", "**"}
	var pats [][]string
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			pats = append(pats, append([]string(nil), cur...))
		}
		if len(cur) == 3 {
			return
		}
		for _, v := range vocab {
			if v == "**" && len(cur) > 0 && cur[len(cur)-1] == "**" {
				continue
			}
			w := v
			if w[0] == '{' {
				w = strings.Replace(w, "x", fmt.Sprintf("x%d", len(cur)), 1)
			}
			rec(append(cur, w))
		}
	}
	rec(nil)
	words := []string{"a", "b", "ab"}
	var paths []string
	var rec2 func(cur string, n int)
	rec2 = func(cur string, n int) {
		if n > 0 {
			paths = append(paths, cur)
		}
		if n == 4 {
			return
		}
		for _, w := range words {
			rec2(cur+"/"+w, n+1)
		}
	}
	rec2("", 0)
	paths = append(paths, "/")
	check := func(ps ...[]string) {
		s := &routeSet{}
		for _, p := range ps {
			s.tryAdd("GET", "/"+strings.Join(p, "/"))
		}
		srv, failed, why := s.build(identity(len(s.routes)), true)
		if failed >= 0 {
			r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", why), s.strings())
			return
		}
		for _, p := range paths {
			h, code, pan, st := ask(srv, "GET", p)
			v, _ := judgeMatch(r, s, "GET", p, h, code, pan, st)
			r.Case(s.key()+p, len(v.match) > 0)
		}
	}
	parallel(r, "single pattern", len(pats), func(i int) { check(pats[i]) })
	r.Count("single_patterns_exhaustive", int64(len(pats)))
	np := r.N(12000, 100000)
	parallel(r, "pattern pair", np, func(i int) {
		rng := r.Rand("pair", i)
		a, b := pats[rng.Intn(len(pats))], pats[rng.Intn(len(pats))]
		if i%2 == 0 {
			check(a, b)
		} else {
			check(a, b, pats[rng.Intn(len(pats))])
		}
	})
	r.Count("pattern_pairs", int64(np))
}

// wideFan: many siblings at one level, of one kind and mixed.
func wideSet(rng *rand.Rand, ci bool, n int) *routeSet {
	s := &routeSet{ci: ci}
	for k := 0; k < n; k++ {
		switch rng.Intn(8) {
		case 0, 4:
			s.tryAdd("GET", fmt.Sprintf("/w/k%d/%s", k, pick(rng, smallLit)))
		case 1:
			s.tryAdd("GET", fmt.Sprintf("/w/{v:^k%d$}/{id%d}", k, k))
		case 2:
			s.tryAdd("GET", fmt.Sprintf("/w/k%d*/%s", k, pick(rng, smallLit)))
		case 3:
			s.tryAdd("GET", fmt.Sprintf("/w/{v}/k%d", k))
		case 5: // one way is longer than the others
			s.tryAdd("GET", "/w/"+fmt.Sprintf("k%d", k)+strings.Repeat("/"+pick(rng, smallLit), 1+rng.Intn(5)))
		case 6:
			s.tryAdd("GET", fmt.Sprintf("/w/k%d", k))
		case 7:
			if rng.Intn(12) == 0 {
				s.tryAdd("GET", pick(rng, []string{"/w/**", "/**", "/w/*/**", "/w/k1*/**", "/w/{v}/**/" + pick(rng, smallLit)}))
			}
		}
	}
	return s
}

// widePath is a path for a wide set.
func widePath(rng *rand.Rand, s *routeSet) string {
	switch rng.Intn(5) {
	case 0:
		return fmt.Sprintf("/w/k%d/k%d", rng.Intn(330), rng.Intn(330))
	case 1:
		return fmt.Sprintf("/w/k%d", rng.Intn(330))
	case 2, 3:
		return genPath(rng, s, genOpt{})
	}
	return fmt.Sprintf("/w/k%d/%s", rng.Intn(330), pick(rng, smallLit))
}

func wideFan(r *core.Run) {
	parallel(r, "wide", r.N(12, 80), func(i int) {
		rng := r.Rand("wide", i)
		s := wideSet(rng, i%3 == 2, 120+rng.Intn(200))
		srv, failed, why := s.build(rng.Perm(len(s.routes)), false)
		if failed >= 0 {
			r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", why), s.strings())
			return
		}
		for k := 0; k < 150; k++ {
			p := widePath(rng, s)
			h, code, pan, st := ask(srv, "GET", p)
			v, _ := judgeMatch(r, s, "GET", p, h, code, pan, st)
			r.Case(s.key()+p, len(v.match) > 0)
		}
	})
}

func runC02(r *core.Run) {
	r.Rule("route sets built to overlap (small vocabulary, and families of one skeleton with segments of every kind), requests matching several patterns. " +
		"A case is a (route set, path) pair; non-trivial when at least two patterns of the method match, so that precedence decides")
	r.Require("decided_pairs", 20000)
	r.Require("kind_pairs", 15)
	r.Require("greedy_end_pairs", 100)
	r.Require("wide_sets", 20)
	parallel(r, "overlap set", r.N(80000, 600000), func(i int) {
		rng := r.Rand("c02", i)
		o := optFor(rng, i)
		o.small = true
		var s *routeSet
		switch i % 4 {
		case 0:
			s = genRoutes(rng, rng.Intn(4) == 0, o)
		default:
			s = family(rng, rng.Intn(4) == 0, i%4)
		}
		if i%900 == 7 {
			s = wideSet(rng, rng.Intn(4) == 0, 40+rng.Intn(160))
			r.Count("wide_sets", 1)
		}
		srv, failed, why := s.build(rng.Perm(len(s.routes)), rng.Intn(2) == 0)
		if failed >= 0 {
			r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", why), s.strings())
			return
		}
		for k := 0; k < 30; k++ {
			p := genPath(rng, s, o)
			if len(s.routes) > 30 && k%2 == 0 {
				p = widePath(rng, s)
			}
			judgePrecedence(r, s, srv, p)
		}
	})
	// README examples
	s := &routeSet{}
	for _, p := range []string{"/users/john/{lastName}", "/users/john/doe", "/users/*/doe", "/users/**", "/a/{b}", "/a/*"} {
		s.tryAdd("GET", p)
	}
	srv, _, _ := s.build(identity(len(s.routes)), false)
	for _, p := range []string{"/users/john/doe", "/users/john/wick", "/users/jane/doe", "/users/john/jane/doe", "/a/x"} {
		judgePrecedence(r, s, srv, p)
	}
}

func judgePrecedence(r *core.Run, s *routeSet, srv server, p string) {
	h, code, pan, st := ask(srv, "GET", p)
	v, ok := judgeMatch(r, s, "GET", p, h, code, pan, st)
	r.Case(s.key()+p, len(v.match) > 1)
	if !ok || len(v.match) == 0 {
		return
	}
	sel := s.routes[h.route].p
	for _, m := range v.match {
		if m == h.route {
			continue
		}
		c := ref.Compare(s.routes[m].p, sel, s.ci)
		if c == 0 {
			continue
		}
		at, ka, kb := ref.CompareAt(s.routes[m].p, sel, s.ci)
		r.Count("decided_pairs", 1)
		if at >= 0 {
			if ka > kb {
				ka, kb = kb, ka
			}
			r.Seen("kind_pairs", kindName(ka)+">"+kindName(kb))
			r.Seen("kind_pairs_at_depth", fmt.Sprintf("%s>%s@%d", kindName(ka), kindName(kb), at))
		} else {
			r.Count("greedy_end_pairs", 1)
		}
		if c < 0 {
			r.Violate(fmt.Sprintf("precedence:%s>%s", kindName(ka), kindName(kb)), "a more specific matching pattern was passed over",
				reqDetail{s.strings(), s.ci, "GET", p, s.got(h, code), s.routes[m].String()})
		}
	}
}

// family makes routes that share one skeleton and differ in the kinds of a few
// segments.
func family(rng *rand.Rand, ci bool, mode int) *routeSet {
	s := &routeSet{ci: ci}
	depth := 1 + rng.Intn(4)
	if rng.Intn(6) == 0 {
		depth = 5 + rng.Intn(14)
	}
	base := make([]string, depth)
	for i := range base {
		base[i] = pick(rng, []string{"a", "ab", "abc", "1", "12"})
	}
	alts := func(i int) []string {
		b := base[i]
		return []string{b, b, fmt.Sprintf("{v%d:^%s$}", i, b), fmt.Sprintf("{v%d:^[a-z0-9]+$}", i), fmt.Sprintf("{v%d}", i),
			b[:1] + "*", "?" + b[1:], "*" + b[len(b)-1:], "*", "**"}
	}
	n := 2 + rng.Intn(10)
	for k := 0; k < n; k++ {
		segs := append([]string(nil), base...)
		changes := 1 + rng.Intn(3)
		if mode == 1 {
			changes = depth
		}
		for c := 0; c < changes; c++ {
			at := rng.Intn(depth)
			a := alts(at)
			segs[at] = a[rng.Intn(len(a))]
		}
		if mode == 3 && rng.Intn(3) == 0 {
			// end early with **, or go on after it
			cut := rng.Intn(depth + 1)
			segs = append(segs[:cut:cut], "**")
			if rng.Intn(2) == 0 {
				segs = append(segs, base[depth-1])
			}
		}
		ok := true
		for i := 1; i < len(segs); i++ {
			if segs[i] == "**" && segs[i-1] == "**" {
				ok = false
			}
		}
		if ok && len(segs) <= 19 {
			s.tryAdd("GET", "/"+strings.Join(segs, "/"))
		}
	}
	return s
}

func perms(rng *rand.Rand, n int) [][]int {
	if n <= 4 {
		var out [][]int
		var rec func(cur []int, used int)
		rec = func(cur []int, used int) {
			if len(cur) == n {
				out = append(out, append([]int(nil), cur...))
				return
			}
			for i := 0; i < n; i++ {
				if used&(1<<i) == 0 {
					rec(append(cur, i), used|1<<i)
				}
			}
		}
		rec(nil, 0)
		return out
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	out := [][]int{identity(n), rev}
	for k := 0; k < 6; k++ {
		out = append(out, rng.Perm(n))
	}
	return out
}

func runC03(r *core.Run) {
	r.Rule("route sets registered in several orders (all permutations up to 4 routes, else identity, reverse and 6 random ones), the same requests sent to each. " +
		"A case is a (route set, path) pair; non-trivial when at least two routes match or share a prefix with the request, i.e. when the trie has to choose")
	r.Require("permutations", 10000)
	r.Require("contested", 5000)
	r.Require("wide_sets", 10)
	r.Require("between_registrations", 50000)
	parallel(r, "permuted set", r.N(30000, 250000), func(i int) {
		rng := r.Rand("c03", i)
		o := optFor(rng, i)
		o.small = rng.Intn(4) != 0
		var s *routeSet
		ci := rng.Intn(4) == 0
		switch i % 3 {
		case 0:
			o.n = 2 + rng.Intn(3)
			s = genRoutes(rng, ci, o)
		case 1:
			s = genRoutes(rng, ci, o)
			if i%601 == 1 {
				s = wideSet(rng, ci, 40+rng.Intn(160))
				r.Count("wide_sets", 1)
			}
		default:
			s = family(rng, ci, 1+rng.Intn(3))
		}
		if len(s.routes) < 2 {
			return
		}
		var paths []string
		for k := 0; k < 16; k++ {
			paths = append(paths, genPath(rng, s, o))
		}
		if len(s.routes) > 30 {
			for k := 0; k < 60; k++ {
				paths = append(paths, widePath(rng, s))
			}
		}
		type res struct {
			route, runs, code int
			vars              string
		}
		var first []res
		var firstOrder []int
		bare := rng.Intn(2) == 0
		// requests arrive while the routes are being registered, and what they
		// find is what the routes registered by then say
		early := func(srv registrar, done []int) {
			if len(done) == len(s.routes) {
				return
			}
			in := map[int]bool{}
			for _, d := range done {
				in[d] = true
			}
			for n := 0; n < 4; n++ {
				p := paths[rng.Intn(len(paths))]
				h, code, pan, st := ask(srv, "GET", p)
				v := s.expect("GET", p)
				some := false
				for _, m := range v.match {
					some = some || in[m]
				}
				if v.tooDeep {
					continue
				}
				r.Count("between_registrations", 1)
				if pan != nil || (h.runs == 1) != some || h.runs > 1 || some && !in[h.route] || !some && code != 404 {
					r.Violate("between", "a request between two registrations is not routed by the routes registered so far", map[string]any{
						"routes": s.strings(), "registered": append([]int(nil), done...), "path": fmt.Sprintf("%q", clip(p)), "ci": ci, "quoted": fmt.Sprintf("%q", s.strings()), "route": h.route, "runs": h.runs, "status": code, "panic": fmt.Sprint(pan), "stack": st})
				}
			}
		}
		for k, ord := range perms(rng, len(s.routes)) {
			var between func(registrar, []int)
			if k%2 == 1 {
				between = early
			}
			srv, failed, why := s.buildWith(ord, bare, between)
			if failed >= 0 {
				r.Violate("refused", fmt.Sprintf("registration order decides acceptance: %s refused: %v", s.routes[failed], why),
					map[string]any{"routes": s.strings(), "order": ord})
				return
			}
			r.Count("permutations", 1)
			var got []res
			for _, p := range paths {
				h, code, pan, st := ask(srv, "GET", p)
				if pan != nil {
					r.Violate("panic", fmt.Sprintf("routing panicked: %v", pan), map[string]any{"routes": s.strings(), "order": ord, "path": clip(p), "stack": st})
					return
				}
				got = append(got, res{h.route, h.runs, code, fmt.Sprint(h.vars)})
			}
			if first == nil {
				first, firstOrder = got, ord
				continue
			}
			for k := range got {
				if got[k] != first[k] {
					r.Violate("order-dependent", "the same routes registered in another order route a request differently", map[string]any{
						"routes": s.strings(), "ci": s.ci, "order1": firstOrder, "order2": ord, "path": clip(paths[k]),
						"result1": fmt.Sprintf("%+v", first[k]), "result2": fmt.Sprintf("%+v", got[k])})
					return
				}
			}
		}
		for _, p := range paths {
			v := s.expect("GET", p)
			if len(v.match) > 1 {
				r.Count("contested", 1)
			}
			r.Case(s.key()+p, len(v.match) > 1 || len(v.match) == 1 && len(s.routes) > 3)
		}
		if i < 4 {
			r.Sample(map[string]any{"routes": s.strings(), "paths": paths[:4]})
		}
	})
}

// reading is what one observer saw of the variables of a request.
type reading struct {
	where string
	vars  map[string]string
}

type varsKey struct{}

type varsLog struct {
	rewrite  int    // a middleware changes the address of the request
	to       string // to this one
	route    int
	runs     int
	readings []reading
}

func runC04(r *core.Run) {
	r.Rule("route sets with variables mixed with **, wildcards and competing siblings; variables read by name (declared, of other routes, undeclared) in the handler and in middlewares before and after it. " +
		"A case is a (route set, path) pair; non-trivial when the selected pattern declares at least one variable")
	r.Require("variables_checked", 30000)
	r.Require("behind_greedy", 500)
	r.Require("after_backtracking", 300)
	r.Require("rewritten", 5000)
	parallel(r, "variable set", r.N(45000, 400000), func(i int) {
		rng := r.Rand("c04", i)
		o := optFor(rng, i)
		o.methods = i%4 == 1
		ci := rng.Intn(4) == 0
		s := genRoutes(rng, ci, o)
		if i%3 == 0 {
			s = family(rng, ci, 1+rng.Intn(3))
		}
		names := s.allNames()
		srv := newRegistrar(s.ci, false).(muxReg)
		obs := func(where string, mc path.MatchingContext) {
			if l, ok := mc.R.Context().Value(varsKey{}).(*varsLog); ok {
				m := map[string]string{}
				for _, n := range names {
					m[n] = mc.PathVar(n)
				}
				l.readings = append(l.readings, reading{where, m})
			}
		}
		srv.CommonMiddlewares(func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				obs("middleware before", mc)
				outer := mc
				if l, ok := mc.R.Context().Value(varsKey{}).(*varsLog); ok {
					rewriteURL(&mc, l.rewrite, l.to)
				}
				resp, err := next(ctx, mc)
				obs("middleware after", outer)
				return resp, err
			}
		})
		for k := range s.routes {
			k := k
			p, _ := core.Guard(func() {
				srv.HandleRequest(s.routes[k].Method, s.routes[k].Pat, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					if l, ok := mc.R.Context().Value(varsKey{}).(*varsLog); ok {
						l.route = k
						l.runs++
					}
					obs("handler", mc)
					if l, ok := mc.R.Context().Value(varsKey{}).(*varsLog); ok && l.rewrite == 5 {
						mc.R.URL.Path = l.to
					}
					return response.PlainTextHttpResponseOK("ok"), nil
				})
			})
			if p != nil {
				r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", p), s.strings())
				return
			}
		}
		for k := 0; k < 30; k++ {
			p := genPath(rng, s, o)
			m := methodFor(rng, s)
			l := &varsLog{route: -1}
			if rng.Intn(5) == 0 {
				l.rewrite = 1 + rng.Intn(5)
				l.to = pick(rng, []string{"", "/", "/x", p + "/more", "/" + strings.Repeat("y", rng.Intn(100)), "*"})
				if len(p) > 1 && rng.Intn(2) == 0 {
					l.to = p[rng.Intn(len(p)):]
				}
				r.Count("rewritten", 1)
			}
			req := (&http.Request{Method: m, URL: requestURL(p), Header: http.Header{}, ProtoMajor: 1, ProtoMinor: 1}).
				WithContext(context.WithValue(context.Background(), varsKey{}, l))
			noise(req.Header, m, p)
			w := &nullWriter{h: http.Header{}}
			pan, st := core.Guard(func() { srv.ServeHTTP(w, req) })
			if pan != nil {
				r.Violate("panic", fmt.Sprintf("routing panicked: %v", pan), map[string]any{"routes": s.strings(), "path": clip(p), "stack": st})
				continue
			}
			if l.runs == 0 {
				r.Case(s.key()+p, false)
				continue
			}
			checkVars(r, s, m, p, l)
		}
	})
}

// rewriteURL does what middlewares do that strip prefixes or rewrite addresses.
func rewriteURL(mc *path.MatchingContext, how int, to string) {
	switch how {
	case 1: // in place
		mc.R.URL.Path = to
	case 2: // another address
		mc.R.URL = &url.URL{Path: to}
	case 3: // a copy of the request
		mc.R = mc.R.Clone(mc.R.Context())
		mc.R.URL.Path = to
	case 4: // another request
		mc.R = (&http.Request{Method: mc.R.Method, URL: &url.URL{Path: to}, Header: http.Header{}}).WithContext(mc.R.Context())
	}
}

func checkVars(r *core.Run, s *routeSet, m, p string, l *varsLog) {
	sel := s.routes[l.route]
	segs, depth := ref.Normalize(p)
	if depth > 19 {
		return
	}
	declared := varNames(sel.p)
	r.Case(s.key()+p, len(declared) > 0)
	ok, binds := sel.p.Matches(segs, s.ci)
	if !ok || len(binds) > 60 {
		return // C01 decides whether the handler should have run
	}
	if len(declared) > 0 && strings.Contains(sel.Pat, "**") {
		r.Count("behind_greedy", 1)
	}
	if len(declared) > 0 && len(s.expect(m, p).match) > 1 {
		r.Count("after_backtracking", 1)
	}
	dup := map[string]bool{}
	seen := map[string]bool{}
	for _, n := range declared {
		if seen[n] {
			dup[n] = true
		}
		seen[n] = true
	}
	if len(l.readings) != 3 {
		r.Violate("readings", "the handler or a middleware ran a wrong number of times", map[string]any{"routes": s.strings(), "path": clip(p), "readings": len(l.readings)})
		return
	}
	for _, rd := range l.readings {
		good := false
		for _, b := range binds {
			all := true
			for n, v := range rd.vars {
				if dup[n] {
					continue
				}
				if b[n] != v {
					all = false
					break
				}
			}
			if all {
				good = true
				break
			}
		}
		if !good {
			r.Violate("wrong-value:"+rd.where, "a path variable does not hold the segment it matched", map[string]any{"routes": s.strings(), "ci": s.ci,
				"selected": sel.String(), "path": clip(p), "read in": rd.where, "values": rd.vars, "possible": binds})
		}
		// a constrained variable satisfies its own expression
		for _, g := range sel.p.Segs {
			if g.Kind == ref.KCon && !dup[g.Name] && !g.Re.MatchString(rd.vars[g.Name]) {
				r.Violate("constraint", "a constrained variable holds a value its expression refuses", map[string]any{"routes": s.strings(),
					"selected": sel.String(), "path": clip(p), "name": g.Name, "value": rd.vars[g.Name]})
			}
		}
	}
	r.Count("variables_checked", int64(len(declared)))
}

var asciiLetters = regexp.MustCompile(`[A-Za-z]`)

// bitFlip changes the 0x20 bit of some of the ASCII characters that are not letters, never making a slash.
func bitFlip(rng *rand.Rand, p string) string {
	b := []byte(p)
	for i, c := range b {
		if i == 0 || c == '/' || c == 0x0f || c >= 0x80 || c < 0x20 || rng.Intn(3) == 0 {
			continue
		}
		f := c ^ 0x20
		if f < 0x20 || f == 0x7f || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			continue
		}
		b[i] = f
	}
	return string(b)
}

func runC07(r *core.Run) {
	r.Rule("route sets in both case modes; every request is sent as derived and with the case of its ASCII letters changed. " +
		"A case is a (route set, path, re-cased path) triple; non-trivial when the re-casing changed at least one letter")
	r.Require("recased_matched", 5000)
	r.Require("sensitive_distinguished", 2000)
	r.Require("non_letters_distinguished", 500)
	parallel(r, "case set", r.N(45000, 400000), func(i int) {
		rng := r.Rand("c07", i)
		o := optFor(rng, i)
		o.methods = i%4 == 0
		ci := i%2 == 0
		s := genRoutes(rng, ci, o)
		// patterns written in other cases
		for k := 0; k < 3; k++ {
			if len(s.routes) > 0 {
				rt := s.routes[rng.Intn(len(s.routes))]
				if !strings.Contains(rt.Pat, ":") {
					s.tryAdd(rt.Method, recase(rng, rt.Pat))
				}
			}
		}
		srv, failed, why := s.build(rng.Perm(len(s.routes)), rng.Intn(2) == 0)
		if failed >= 0 {
			r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", why), s.strings())
			return
		}
		for k := 0; k < 20; k++ {
			p := genPath(rng, s, o)
			m := methodFor(rng, s)
			h1, c1, pan, st := ask(srv, m, p)
			v1, ok1 := judgeMatch(r, s, m, p, h1, c1, pan, st)
			// characters that are not letters have no case, however close their codes are: '{' is not '['
			if f := bitFlip(rng, p); f != p {
				hf, cf, panf, stf := ask(srv, m, f)
				r.Case(s.key()+m+f, true)
				if vf, okf := judgeMatch(r, s, m, f, hf, cf, panf, stf); okf && len(vf.match) != len(v1.match) {
					r.Count("non_letters_distinguished", 1)
				}
			}
			q := recase(rng, p)
			if rng.Intn(4) == 0 {
				q = strings.ToUpper(p)
				if !sameLetters(p, q) {
					q = p
				}
			}
			h2, c2, pan2, st2 := ask(srv, m, q)
			v2, ok2 := judgeMatch(r, s, m, q, h2, c2, pan2, st2)
			r.Case(s.key()+m+p+"|"+q, p != q)
			if !ok1 || !ok2 || p == q {
				continue
			}
			if !ci {
				if fmt.Sprint(v1.match) != fmt.Sprint(v2.match) {
					r.Count("sensitive_distinguished", 1)
				}
				continue
			}
			if h1.runs > 0 {
				r.Count("recased_matched", 1)
			}
			det := func() any {
				return map[string]any{"routes": s.strings(), "path": clip(p), "recased": clip(q), "result": s.got(h1, c1), "recased result": s.got(h2, c2)}
			}
			if h1.route != h2.route || h1.runs != h2.runs || c1 != c2 {
				r.Violate("case-changes-route", "with case-insensitive matching, the case of the path changes the routing", det())
				continue
			}
			for n, a := range h1.vars {
				b := h2.vars[n]
				if !strings.EqualFold(a, b) {
					r.Violate("case-changes-value", "the case of the path changes which segment a variable holds", det())
				} else if a != "" && (!hasSeg(v1.segs, a) || !hasSeg(v2.segs, b)) {
					r.Violate("case-lost", "a path variable does not keep the case the client sent", det())
				}
			}
		}
	})
}

func hasSeg(segs []string, v string) bool {
	for _, s := range segs {
		if s == v {
			return true
		}
	}
	return false
}

func sameLetters(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x == y {
			continue
		}
		if !asciiLetters.MatchString(string(rune(x))) || x|32 != y|32 {
			return false
		}
	}
	return true
}
