package props

import (
	"bufio"
	"context"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	register("C05", false, runC05)
	register("C06", false, runC06)
}

// hostileRoutes is a set that reaches every corner of the matcher.
func hostileRoutes(rng *rand.Rand, ci bool) *routeSet {
	s := &routeSet{ci: ci}
	seg := func(k int, f func(i int) string) string {
		var sb strings.Builder
		for i := 0; i < k; i++ {
			sb.WriteString("/" + f(i))
		}
		return sb.String()
	}
	fixed := []string{"/", "/a", "/a/b", "/{x}", "/{x}/{y}", "/{x}/b/{z}", "/a/*/c", "/?", "/*a*a*a*a*a*b", "/a*/b*", "/**/z", "/a/**", "/secret/{id:^[0-9]+$}",
		"/**/a/**/a/**/a/**/q", "/x/{v:^(a+)+$}/y", "/public/**/data.{x}", "/{k:^.{70000}$}/t",
		seg(19, func(i int) string { return "a" }), seg(19, func(i int) string { return fmt.Sprintf("{v%d}", i) }),
		seg(19, func(i int) string { return "*" }), seg(18, func(i int) string { return "b" }) + "/**", seg(18, func(i int) string { return fmt.Sprintf("{v%d}", i) }),
		seg(18, func(i int) string {
			if i%2 == 0 {
				return "**"
			}
			return fmt.Sprintf("{g%d}", i)
		}) + "/end", "/d" + seg(18, func(i int) string { return "?" })}
	for _, p := range fixed {
		if rng.Intn(3) != 0 && !strings.Contains(p, "70000") && !strings.Contains(p, "data.{") {
			s.tryAdd("GET", p)
		}
	}
	o := genOpt{small: rng.Intn(2) == 0, deep: rng.Intn(2) == 0, n: rng.Intn(12)}
	g := genRoutes(rng, ci, o)
	for _, rt := range g.routes {
		s.tryAdd("GET", rt.Pat)
	}
	return s
}

func hostilePath(rng *rand.Rand, s *routeSet, big bool) (string, string) {
	atoms := []string{"/", "/", "/", "..", ".", "a", "b", "*", "?", "**", "{", "}", "{x}", "\x00", "\xff", "%", "%2e%2e", "é", " ", "\\", ":", "z", "secret", "12", "\n", "\xc3", "日", "-", "..."}
	k := rng.Intn(9)
	if !big && k >= 7 {
		k = rng.Intn(7)
	}
	switch k {
	case 0, 1: // soup
		var sb strings.Builder
		sb.WriteByte('/')
		for n := rng.Intn(40); n > 0; n-- {
			sb.WriteString(pick(rng, atoms))
		}
		return sb.String(), "soup"
	case 2: // depth around the limit
		n := 16 + rng.Intn(8)
		return slashes(rng, n), fmt.Sprintf("depth %d", n)
	case 3: // climbing
		var sb strings.Builder
		for n := rng.Intn(30); n >= 0; n-- {
			switch rng.Intn(3) {
			case 0:
				sb.WriteString("/" + pick(rng, []string{"a", "b", "secret", "1"}))
			default:
				sb.WriteString("/..")
			}
		}
		sb.WriteString("/" + pick(rng, []string{"a", "secret/12", "", "..", "a/b"}))
		return sb.String(), "climbing"
	case 4: // a matching path with noise
		p := genPath(rng, s, genOpt{})
		p = strings.ReplaceAll(p, "/", pick(rng, []string{"/", "//", "///", "/zz/../"}))
		return p + pick(rng, []string{"", "/", "//", "/.", "/..", "/../", "/x/.."}), "noise"
	case 5: // a segment that defeats naive wildcard matching
		n := 50 + rng.Intn(400)
		return "/" + strings.Repeat("a", n) + pick(rng, []string{"", "b", "/y", "/c", "/b/" + strings.Repeat("ab", n)}), "repetitive"
	case 6: // one wildcard or pattern character per segment
		var sb strings.Builder
		for n := 1 + rng.Intn(19); n > 0; n-- {
			sb.WriteString("/" + pick(rng, []string{"*", "**", "?", "{x}", "{", "}", ":", "{x:^a}", "a*", "%", "\x00", "\xff\xfe\xfd", "\xed\xa0\x80"}))
		}
		return sb.String(), "pattern characters"
	case 7: // long segments
		l := []int{65533, 65534, 65535, 65536, 65537, 65540, 70000, 131071, 131072, 200000}[rng.Intn(10)]
		long := strings.Repeat(pick(rng, []string{"a", "L", "é"}), l)
		if strings.HasPrefix(long, "é") {
			long = long[:l/2*2]
		}
		parts := []string{"a", "b", "c", "z", "12", "secret"}
		var segs []string
		for n := 1 + rng.Intn(5); n > 0; n-- {
			segs = append(segs, pick(rng, parts))
		}
		segs[rng.Intn(len(segs))] = long
		return "/" + strings.Join(segs, "/"), "long segment"
	default: // very many segments
		n := []int{100, 254, 255, 256, 257, 275, 512, 1000, 5000, 65536 + 3}[rng.Intn(10)]
		switch rng.Intn(4) {
		case 0:
			return strings.Repeat("/", n) + "a", "many slashes"
		case 1:
			return strings.Repeat("/..", n) + "/a", "many climbs"
		case 2:
			return strings.Repeat("/a/..", n) + "/a/b", "many detours"
		}
		return strings.Repeat("/"+pick(rng, []string{"a", "b", "x"}), n), "many segments"
	}
}

func slashes(rng *rand.Rand, n int) string {
	var sb strings.Builder
	w := pick(rng, []string{"a", "b", "x", "1"})
	for i := 0; i < n; i++ {
		sb.WriteByte('/')
		if rng.Intn(12) == 0 {
			sb.WriteByte('/')
		}
		if rng.Intn(4) == 0 {
			sb.WriteString(pick(rng, smallLit))
		} else {
			sb.WriteString(w)
		}
	}
	if rng.Intn(3) == 0 {
		sb.WriteByte('/')
	}
	return sb.String()
}

func runC05(r *core.Run) {
	r.Rule("hostile paths (byte soup, 16-70000 segments, segments of up to 200000 bytes, climbing .., repeated slashes, pattern characters, inputs defeating naive wildcard matching) against rich route sets, " +
		"given to the router directly and as raw request lines over TCP; judged by a reference normaliser and matcher. A case is a (route set, path) pair; " +
		"non-trivial when the path needs normalising, is deeper than 15 segments, or longer than 1000 bytes")
	r.Require("depth19_matched", 200)
	r.Require("depth20_refused", 200)
	r.Require("long_segment", 200)
	r.Require("dotdot", 2000)
	r.Require("raw_requests", 500)
	r.Assume("a path that exceeds 19 segments before a later .. brings it back to 19 or fewer may be routed or answered 404",
		"unbounded work is told by the watchdog: a request that consumes CPU in the library for more than 45 s")
	parallel(r, "hostile set", r.N(14000, 100000), func(i int) {
		rng := r.Rand("c05", i)
		s := hostileRoutes(rng, rng.Intn(4) == 0)
		srv, failed, why := s.build(rng.Perm(len(s.routes)), rng.Intn(2) == 0)
		if failed >= 0 {
			r.Violate("refused", fmt.Sprintf("a valid route is refused: %v", why), s.strings())
			return
		}
		for k := 0; k < 30; k++ {
			p, kind := hostilePath(rng, s, i%4 == 0)
			r.Begin("hostile set #%d: %s %s", i, kind, clip(p))
			h, code, pan, st := ask(srv, "GET", p)
			v, ok := judgeMatch(r, s, "GET", p, h, code, pan, st)
			r.Seen("kinds", kind)
			if strings.Contains(p, "..") {
				r.Count("dotdot", 1)
			}
			if len(v.segs) == 19 && len(v.match) > 0 && !v.tooDeep {
				r.Count("depth19_matched", 1)
			}
			if len(v.segs) > 19 && code == 404 {
				r.Count("depth20_refused", 1)
			}
			if len(p) > 65000 {
				r.Count("long_segment", 1)
			}
			r.Case(s.key()+p, strings.Contains(p, "..") || strings.Contains(p, "//") || len(v.segs) > 15 || len(p) > 1000)
			if ok && h.runs == 1 {
				// the values come from the resolved path
				for n, val := range h.vars {
					if val != "" && !hasSeg(v.segs, val) {
						r.Violate("value-outside", "a path variable holds something that is not a segment of the resolved path",
							map[string]any{"routes": s.strings(), "path": clip(p), "name": n, "value": clip(val)})
					}
				}
			}
			// redundant slashes do not matter
			if ok && k%5 == 0 && len(p) < 2000 {
				q := strings.ReplaceAll(p, "/", "//")
				h2, code2, pan2, _ := ask(srv, "GET", q)
				if pan2 != nil || h2.route != h.route || code2 != code || fmt.Sprint(h2.vars) != fmt.Sprint(h.vars) {
					r.Violate("slashes", "repeating the slashes of a path changes its routing", map[string]any{"routes": s.strings(), "path": clip(p),
						"result": s.got(h, code), "with repeated slashes": s.got(h2, code2)})
				}
			}
			if i < 8 && k == 0 {
				r.Sample(map[string]any{"path": clip(p), "kind": kind, "result": s.got(h, code)})
			}
		}
	})
	rawRequests(r)
}

// rawRequests sends request lines over TCP to a real server.
func rawRequests(r *core.Run) {
	mux, _ := newMux(false)
	s := &routeSet{}
	for _, p := range []string{"/", "/a", "/a/{x}", "/secret/{id}", "/public/**", "/f/*.txt", "/{x}/{y}/{z}", "/v/{x:^[0-9]+$}"} {
		s.tryAdd("GET", p)
	}
	names := s.allNames()
	type seen struct {
		route int
		vars  map[string]string
		path  string
	}
	last := make(chan seen, 16)
	for k := range s.routes {
		k := k
		mux.HandleGet(s.routes[k].Pat, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			m := map[string]string{}
			for _, n := range names {
				m[n] = mc.PathVar(n)
			}
			last <- seen{k, m, mc.R.URL.Path}
			return response.PlainTextHttpResponseOK("ok"), nil
		})
	}
	ts := startServer(mux, "h1")
	defer ts.stop()
	addr := strings.TrimPrefix(ts.URL, "http://")
	rng := r.Rand("raw", 0)
	pieces := []string{"/", "/", "/", "a", "secret", "public", "%2e%2e", "..", ".", "%2F", "%00", "%ff", "%c3%a9", "12", "f", "x.txt", "%20", "%25", "+", ";x", "%2e", "é", "~", "%7e", "v", "%31", "%5c", "%3f", "*"}
	fixed := []string{"/", "/a", "/a/", "//a", "/a/%2e%2e/secret/1", "/public/../secret/1", "/public/%2e%2e/secret/1", "/public/..%2fsecret/1", "/%61", "/secret%2f1",
		"/a?x=/secret/1", "/a#b", "/secret/1?..", "/public/%2e%2e%2f%2e%2e%2fsecret/1", "/..", "/../..", "/%2e%2e/%2e%2e", "http://other.test/secret/7", "http://other.test",
		"/" + strings.Repeat("a/", 18) + "a", "/" + strings.Repeat("a/", 19) + "a", "/public/" + strings.Repeat("p/", 17) + "z", "/public/" + strings.Repeat("p/", 18) + "z",
		"/a/" + strings.Repeat("L", 70000), "/public/" + strings.Repeat("L", 66000) + "/x/y", "*"}
	n := r.N(1500, 12000)
	for i := 0; i < n; i++ {
		var target string
		if i < len(fixed) {
			target = fixed[i]
		} else {
			var sb strings.Builder
			sb.WriteByte('/')
			for k := rng.Intn(14); k > 0; k-- {
				sb.WriteString(pick(rng, pieces))
			}
			target = sb.String()
		}
		r.Begin("raw %s", clip(target))
		method := "GET"
		if target == "*" {
			method = "OPTIONS"
		}
		conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
		if err != nil {
			r.Count("dial_failed", 1)
			continue
		}
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: raw.test\r\nConnection: close\r\n\r\n", method, target)
		resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
		conn.Close()
		var got *seen
		select {
		case x := <-last:
			got = &x
		default:
		}
		if isPanicLog(ts.Log.String()) {
			r.Violate("panic-raw", "serving a raw request panicked", map[string]any{"target": clip(target), "log": clip(ts.Log.String())})
			ts.Log.reset()
			continue
		}
		if err != nil {
			r.Violate("no-answer", "a raw request got no HTTP answer", map[string]any{"target": clip(target), "err": err.Error()})
			continue
		}
		resp.Body.Close()
		r.Count("raw_requests", 1)
		r.Case("raw"+target, true)
		u, perr := url.ParseRequestURI(target)
		if perr != nil || resp.StatusCode == 400 || target == "*" {
			if got != nil {
				r.Violate("bad-request-routed", "a malformed request target reached a handler", map[string]any{"target": clip(target)})
			}
			continue
		}
		v := s.expect("GET", u.Path)
		if v.tooDeep && len(v.segs) <= 19 {
			continue
		}
		want := len(v.match) > 0 && !v.tooDeep
		switch {
		case want && (got == nil || resp.StatusCode != 200 || !v.has(got.route)):
			r.Violate("raw-missed", "a raw request did not reach a matching handler", map[string]any{"target": clip(target), "path": clip(u.Path), "status": resp.StatusCode, "want": s.describe(v)})
		case !want && (got != nil || resp.StatusCode != 404):
			r.Violate("raw-escaped", "a raw request reached a handler it should not reach", map[string]any{"target": clip(target), "path": clip(u.Path), "status": resp.StatusCode, "got": fmt.Sprintf("%+v", got)})
		case want:
			for nm, val := range got.vars {
				if val != "" && !hasSeg(v.segs, val) {
					r.Violate("raw-value", "a path variable holds something that is not a decoded segment", map[string]any{"target": clip(target), "name": nm, "value": clip(val)})
				}
			}
		}
	}
}

// ---- registration ----

var badSegs = []string{"{", "}", "{a", "a}", "{}", "{:x}", "{a:}", "{a:[}", "{a:(}", "{a:+}", "a**", "**a", "a**b", "***", "{a:a)}", "{a}b", "a{b}", "****", "?**", "{a:^(?P<}",
	"{:}", "{a:[z-a]}", "x}", "{x", "{id:^[0-9+$}", "*a**"}

var badStarts = []string{"", "a", "a/b", " /a", "{x}", "*", "**", "\\a", "a/", ".", "%2f", "\t/a"}

// randBadSeg makes a malformed segment from a well formed one.
func randBadSeg(rng *rand.Rand) string {
	for {
		switch rng.Intn(6) {
		case 0: // adjacent asterisks among others
			w := randWild(rng, false)
			if i := strings.IndexByte(w, '*'); i >= 0 && w != "*" {
				return w[:i] + strings.Repeat("*", 1+rng.Intn(2)) + w[i:]
			}
		case 1:
			return "{" + randLit(rng, true)
		case 2:
			return randLit(rng, true) + "}"
		case 3:
			return "{" + pick(rng, namePool) + ":" + randCon(rng) + pick(rng, []string{"(", "[", "**", "(?P<", "\\", "[z-a]", "x{2,1}", ")", "(?<!a)"}) + "}"
		case 4:
			return "{:" + randCon(rng) + "}"
		case 5:
			return "{" + pick(rng, namePool) + ":}"
		}
	}
}

// badPattern makes a pattern the documentation refuses.
func badPattern(rng *rand.Rand) (string, string) {
	var good []string
	used := map[string]bool{}
	for n := rng.Intn(5); n > 0; n-- {
		sg := genSeg(rng, genOpt{small: true}, used, true)
		good = append(good, sg)
	}
	at := 0
	if len(good) > 0 {
		at = rng.Intn(len(good) + 1)
	}
	ins := func(s ...string) string {
		all := append(append(append([]string(nil), good[:at]...), s...), good[at:]...)
		return "/" + strings.Join(all, "/")
	}
	switch rng.Intn(6) {
	case 0, 1:
		b := pick(rng, badSegs)
		if rng.Intn(3) == 0 {
			b = randBadSeg(rng)
		}
		p := ins(b)
		if rng.Intn(6) == 0 {
			p += "/"
		}
		return p, "segment " + b
	case 2:
		b := pick(rng, badStarts)
		if b != "" {
			b += strings.Repeat("/a", rng.Intn(2))
		}
		return b, "start"
	case 3:
		return ins("**", "**"), "consecutive **"
	case 4:
		good = append(good, pick(rng, smallLit))
		at = rng.Intn(len(good))
		return ins(""), "empty segment"
	default:
		n := 20 + rng.Intn(6)
		if rng.Intn(4) == 0 {
			n = []int{100, 255, 256, 257, 275, 276, 300, 1000}[rng.Intn(8)]
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch rng.Intn(5) {
			case 0:
				fmt.Fprintf(&sb, "/{v%d}", i)
			case 1:
				sb.WriteString("/*")
			default:
				sb.WriteString("/" + pick(rng, smallLit))
			}
		}
		if rng.Intn(3) == 0 {
			sb.WriteString("/**")
		}
		return sb.String(), "too long"
	}
}

// renameVars writes the same pattern with other variable names.
func renameVars(rng *rand.Rand, pat string) string {
	segs := strings.Split(pat, "/")
	for i, s := range segs {
		if strings.HasPrefix(s, "{") && rng.Intn(4) != 0 {
			body := s[1 : len(s)-1]
			if _, re, ok := strings.Cut(body, ":"); ok {
				segs[i] = fmt.Sprintf("{r%d:%s}", i, re)
			} else {
				segs[i] = fmt.Sprintf("{r%d}", i)
			}
		}
	}
	out := strings.Join(segs, "/")
	if rng.Intn(4) == 0 {
		if strings.HasSuffix(out, "/") && out != "/" {
			out = strings.TrimSuffix(out, "/")
		} else if out != "/" {
			out += "/"
		}
	}
	return out
}

func recaseLits(rng *rand.Rand, pat string) string {
	segs := strings.Split(pat, "/")
	for i, s := range segs {
		if !strings.HasPrefix(s, "{") {
			segs[i] = recase(rng, s)
		}
	}
	return strings.Join(segs, "/")
}

func runC06(r *core.Run) {
	r.Rule("sequences of registration attempts (valid, near-duplicate, duplicate up to variable names, trailing slash and letter case, malformed in every documented way) on one mux, with requests in between. " +
		"A case is one registration attempt in its history; non-trivial when other routes are registered already or the pattern is malformed")
	r.Require("duplicates_refused", 5000)
	r.Require("malformed_refused", 5000)
	r.Require("accepted", 20000)
	r.Require("malformed_kinds", 25)
	parallel(r, "registration history", r.N(30000, 200000), func(i int) {
		rng := r.Rand("c06", i)
		ci := rng.Intn(3) == 0
		s := &routeSet{ci: ci}
		srv := newRegistrar(ci, rng.Intn(2) == 0)
		names := []string{"x", "y", "z", "id", "r1", "r2", "b"}
		o := optFor(rng, i)
		o.small = rng.Intn(3) != 0
		o.deep = rng.Intn(3) == 0
		steps := 8 + rng.Intn(30)
		var hist []string
		for k := 0; k < steps; k++ {
			m := "GET"
			if rng.Intn(4) == 0 {
				m = stdMethods[rng.Intn(4)]
			}
			if rng.Intn(6) == 0 {
				m = recase(rng, m)
			}
			var pat, why string
			valid := true
			switch x := rng.Intn(10); {
			case x < 2:
				pat, why = badPattern(rng)
				valid = false
			case x < 5 && len(s.routes) > 0:
				rt := s.routes[rng.Intn(len(s.routes))]
				pat = renameVars(rng, rt.Pat)
				if rng.Intn(3) == 0 {
					pat = recaseLits(rng, pat)
				}
				if rng.Intn(4) != 0 {
					m = rt.Method
				}
			case x < 8 && len(s.routes) > 0:
				pat = mutatePattern(rng, o, s.routes[rng.Intn(len(s.routes))].Pat)
			default:
				pat = genPattern(rng, o)
			}
			hist = append(hist, m+" "+clip(pat))
			dup := ""
			var pp *ref.Pattern
			if valid {
				pp = ref.Parse(pat, ci)
				for _, rt := range s.routes {
					if strings.EqualFold(rt.Method, m) && ref.Duplicate(rt.p, pp, ci) {
						dup = rt.String()
					}
				}
			}
			idx := len(s.routes)
			pan, _ := core.Guard(func() { srv.add(m, pat, routeHandler(idx, names)) })
			r.Case(strings.Join(hist, "\n"), len(s.routes) > 0 || !valid)
			det := map[string]any{"history": hist, "ci": ci, "pattern": clip(pat), "duplicate of": dup, "refusal": fmt.Sprint(pan)}
			switch {
			case !valid && pan == nil:
				r.Violate("malformed-accepted:"+why, "a malformed pattern was accepted ("+why+")", det)
				return
			case !valid:
				r.Count("malformed_refused", 1)
				r.Seen("malformed_kinds", why)
			case dup != "" && pan == nil:
				r.Violate("duplicate-accepted", "a pattern that duplicates a registered one was accepted", det)
				return
			case dup != "":
				r.Count("duplicates_refused", 1)
			case pan != nil:
				r.Violate("valid-refused", fmt.Sprintf("a valid, new pattern was refused: %v", pan), det)
				return
			default:
				r.Count("accepted", 1)
				s.routes = append(s.routes, route{m, pat, pp})
			}
			// the routing of what was accepted
			if k%3 == 2 || pan != nil || k == steps-1 {
				for q := 0; q < 4; q++ {
					p := genPath(rng, s, o)
					mm := methodFor(rng, s)
					h, code, pan, st := ask(srv, mm, p)
					if h.route >= len(s.routes) {
						r.Violate("refused-route-runs", "the handler of a refused registration runs", map[string]any{"history": hist, "path": clip(p)})
						return
					}
					judgeMatch(r, s, mm, p, h, code, pan, st)
				}
			}
		}
		if i < 3 {
			r.Sample(hist)
		}
	})
}

var _ handler.Handler
