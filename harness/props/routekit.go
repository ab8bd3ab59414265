package props

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
	"verif/harness/ref"
)

// ---- what a request did ----

type hitKey struct{}

// hit records what happened to one request, at the boundary of the framework.
type hit struct {
	runs  int
	route int
	vars  map[string]string
}

// route is one registered route of a generated set.
type route struct {
	Method string
	Pat    string
	p      *ref.Pattern
}

func (r route) String() string { return r.Method + " " + r.Pat }

type routeSet struct {
	ci     bool
	routes []route
}

func (s *routeSet) strings() []string {
	var out []string
	for _, r := range s.routes {
		out = append(out, r.String())
	}
	return out
}

func (s *routeSet) key() string {
	return fmt.Sprint(s.ci, s.strings())
}

// varNames lists the variables a pattern declares.
func varNames(p *ref.Pattern) []string {
	var out []string
	for _, g := range p.Segs {
		if g.Kind == ref.KVar || g.Kind == ref.KCon {
			out = append(out, g.Name)
		}
	}
	return out
}

// reader is what the monitors need from a handler's input.
func routeHandler(i int, names []string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if h, ok := mc.R.Context().Value(hitKey{}).(*hit); ok {
			h.runs++
			h.route = i
			h.vars = map[string]string{}
			for _, n := range names {
				h.vars[n] = mc.PathVar(n)
			}
		}
		return response.PlainTextHttpResponseOK("ok"), nil
	}
}

// server is the thing under test: a mux or a bare router.
type server interface {
	ServeHTTP(w http.ResponseWriter, r *http.Request)
}

type registrar interface {
	server
	add(method, pat string, h handler.Handler)
}

type muxReg struct{ *gofre.MuxHandler }

func (m muxReg) add(method, pat string, h handler.Handler) { m.HandleRequest(method, pat, h) }

type routerReg struct{ *router.Router }

func (m routerReg) add(method, pat string, h handler.Handler) { m.Handle(method, pat, h) }

func newRegistrar(ci bool, bare bool) registrar {
	if bare {
		return routerReg{router.NewRouter(ci, func(error) {})}
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: ci, ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	return muxReg{m}
}

// allNames lists all the variable names of a set, and one nobody declares.
func (s *routeSet) allNames() []string {
	m := map[string]bool{"undeclared": true, "": true}
	for _, r := range s.routes {
		for _, n := range varNames(r.p) {
			m[n] = true
		}
	}
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// build registers the set in the given order; it reports the panic, if any.
func (s *routeSet) build(order []int, bare bool) (srv registrar, failed int, why any) {
	return s.buildWith(order, bare, nil)
}

// buildWith registers the routes and calls between after each.
func (s *routeSet) buildWith(order []int, bare bool, between func(srv registrar, done []int)) (srv registrar, failed int, why any) {
	srv = newRegistrar(s.ci, bare)
	names := s.allNames()
	failed = -1
	for k, i := range order {
		r := s.routes[i]
		p, _ := core.Guard(func() { srv.add(r.Method, r.Pat, routeHandler(i, names)) })
		if p != nil {
			return srv, i, p
		}
		if between != nil {
			between(srv, order[:k+1])
		}
	}
	return srv, -1, nil
}

func identity(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// nullWriter is a minimal response writer.
type nullWriter struct {
	h    http.Header
	code int
	n    int
}

func (w *nullWriter) Header() http.Header { return w.h }
func (w *nullWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *nullWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.n += len(b)
	return len(b), nil
}

// requestURL makes the URL the server would have parsed: a part of the paths
// comes percent-encoded in an unusual way, so that the raw form differs from
// the default encoding of the decoded one.
func requestURL(p string) *url.URL {
	u := &url.URL{Path: p}
	if len(p) > 2000 || len(p) == 0 {
		return u
	}
	h := uint32(2166136261)
	for i := 0; i < len(p); i++ {
		h = (h ^ uint32(p[i])) * 16777619
	}
	if h%3 != 0 {
		return u
	}
	var sb strings.Builder
	for i := 0; i < len(p); i++ {
		h = h*1664525 + 1013904223
		c := p[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("/.-_~$&+,:;=@!'()*", c) >= 0
		if !plain || c != '/' && h>>28 == 0 {
			if h>>27&1 == 0 {
				fmt.Fprintf(&sb, "%%%02x", c)
			} else {
				fmt.Fprintf(&sb, "%%%02X", c)
			}
		} else {
			sb.WriteByte(c)
		}
	}
	if raw := sb.String(); raw != u.EscapedPath() {
		u.RawPath = raw
	}
	return u
}

// ask sends one request, given as a decoded path, and reports what happened.
func ask(srv server, method, p string) (h *hit, code int, pan any, stack string) {
	h = &hit{route: -1}
	req := (&http.Request{Method: method, URL: requestURL(p), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "x.test"}).WithContext(context.WithValue(context.Background(), hitKey{}, h))
	noise(req.Header, method, p)
	noiseProto(req, uint64(len(p))*0x9e3779b97f4a7c15>>40)
	w := &nullWriter{h: http.Header{}}
	pan, stack = core.Guard(func() { srv.ServeHTTP(w, req) })
	code = w.code
	if code == 0 && pan == nil {
		code = 200
	}
	return
}

// ---- generation ----

var litPool = []string{"a", "b", "c", "ab", "abc", "abcd", "A", "B", "Ab", "users", "john", "doe", "x.html", "index.html", "v1", "1", "12",
	"123", "é", "日本", "a b", "x-y", "~", ".", "...", "a.b.c", "a+b", "a=b", "$", "a{b}c", "%41", "a;b", "a:b", "ß", "a\tb",
	strings.Repeat("long", 70), "\xff\xfe", "0", "_", "aa", "ba", "bab", "a-c", "@me", "!x", "(x)", "a,b", "[z]", "\\", "'", "\"", "a|b", "^", "&", "#h"}

var smallLit = []string{"a", "b", "c", "ab", "abc", "aa", "ba", "1", "12", "123"}

var wildPool = []string{"a*", "*b", "?", "??", "a?c", "*a*", "a*b*c", "?*", "*?", "*.html", "a*c", "a?", "?b", "*1", "1*", "a*b", "???", "*a", "x*y?z", "a*?",
	"é*", "?本", "日?", "*é", "ab*", "*bc", "a?*", "a*b?", "?*?", "*-*", "a.*", "*.*", "*b*", "u*s", "j??n",
	"~*", "*^", "[?", "a|*", "@*", "?`", "*\\", "*]", "*_b",
	"\ufffd*", "*\ufffd", "a\ufffd?"}

var conPool = []string{"^[0-9]+$", "^[0-9]{3}$", "[a-c]", "^a", "b$", "^(a|b|ab)$", "^[^a]+$", ".", "^.{2,}$", `^\p{L}+$`, "^(users|john)$", `^\d{1,2}$`,
	"^[a-z]+$", `^\p{L}{2}\p{Nd}{2}$`, `^\p{L}{1,3}$`, "^[{]?[a-z]+[}]?$", "^[[:alpha:]]{2}$", "^[A-Z]+$", "^a.*c$", "1", "^(1|12|123)$", "^.$", "^[ab]*$", `^\w+$`, `^\W+$`, "^é", "^x", `\.html$`, "^.*$", "a|b",
	"^[a-fA-F0-9]{8}-[a-fA-F0-9]{4}-4[a-fA-F0-9]{3}-[8|9|aA|bB][a-fA-F0-9]{3}-[a-fA-F0-9]{12}$"}

var namePool = []string{"x", "y", "z", "id", "name", "firstName", "X", "a b", "é", "long_variable_name", "b", "c", "1", "v-1"}

type genOpt struct {
	small   bool // small vocabulary: many overlaps
	deep    bool // up to 19 segments
	methods bool
	n       int
}

func pick(rng *rand.Rand, s []string) string { return s[rng.Intn(len(s))] }

func genSeg(rng *rand.Rand, o genOpt, used map[string]bool, prevGreedy bool) string {
	name := func() string {
		for {
			n := pick(rng, namePool)
			if rng.Intn(4) == 0 {
				n = fmt.Sprintf("%s%d", n, rng.Intn(30))
			}
			if !used[n] {
				used[n] = true
				return n
			}
			n = fmt.Sprintf("%s%d", n, rng.Intn(1000))
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	lits, wilds, cons := litPool, wildPool, conPool
	if o.small {
		lits, wilds, cons = smallLit[:4], wildPool[:5], conPool[:6]
	}
	for {
		switch x := rng.Intn(100); {
		case x < 36:
			if rng.Intn(8) == 0 {
				return randLit(rng, o.small)
			}
			return pick(rng, lits)
		case x < 52:
			if rng.Intn(6) == 0 {
				return "{" + name() + ":" + randCon(rng) + "}"
			}
			return "{" + name() + ":" + pick(rng, cons) + "}"
		case x < 68:
			return "{" + name() + "}"
		case x < 80:
			if rng.Intn(3) == 0 {
				return randWild(rng, o.small)
			}
			return pick(rng, wilds)
		case x < 89:
			return "*"
		default:
			if prevGreedy {
				continue
			}
			return "**"
		}
	}
}

// randWild makes a segment with wildcards: any mix without adjacent asterisks.
func randWild(rng *rand.Rand, small bool) string {
	al := []string{"a", "b", "c", "é", "日", ".", "-", "{", "}", ":", "1", "~", "^", "[", "]", "|", "@", "`", "_"}
	if small {
		al = al[:2]
	}
	for {
		var sb strings.Builder
		last, special := "", false
		for n := 2 + rng.Intn(6); n > 0; n-- {
			c := pick(rng, al)
			switch rng.Intn(5) {
			case 0, 1:
				c = "*"
			case 2:
				c = "?"
			}
			if c == "*" && last == "*" {
				c = "?"
			}
			special = special || c == "*" || c == "?"
			sb.WriteString(c)
			last = c
		}
		w := sb.String()
		if special && edgesPlain(w) {
			return w
		}
	}
}

// edgesPlain tells that no brace stands at an edge, where it has a meaning.
func edgesPlain(s string) bool {
	return s != "" && s[0] != '{' && s[0] != '}' && s[len(s)-1] != '{' && s[len(s)-1] != '}'
}

// randLit makes a literal of any characters that have no meaning in a pattern.
func randLit(rng *rand.Rand, small bool) string {
	if rng.Intn(60) == 0 {
		n := pickInt(rng, 127, 128, 255, 256, 257, 1000, 3000)
		return strings.Repeat(pick(rng, []string{"a", "ab", "longer-"}), n)[:n] + pick(rng, []string{"", "x"})
	}
	al := []string{"a", "b", "c", "A", "Z", "é", "日", ".", "-", "{", "}", ":", "1", "~", "%", "+", " ", "\\", "\xff", "\x00", "^", "$", "(", "[", "|", "=", ";"}
	if small {
		al = al[:3]
	}
	for {
		var sb strings.Builder
		for n := 1 + rng.Intn(6); n > 0; n-- {
			sb.WriteString(pick(rng, al))
		}
		w := sb.String()
		if w != ".." && edgesPlain(w) {
			return w
		}
	}
}

// randCon makes a regular expression by grammar.
func randCon(rng *rand.Rand) string {
	var gen func(d int) string
	gen = func(d int) string {
		atom := pick(rng, []string{"a", "b", "c", "1", ".", "[a-c]", "[^a]", `\d`, `\w`, "é", `\.`, "[A-C1-3]", `\pL`, "(?:ab)", "-",
			`\p{L}`, `\p{Nd}`, `\x{61}`, "[[:alpha:]]", "[{}]", `\{`, `\}`, "[^}{]", "(?P<n>a)", `\b`, `\Qa?b\E`, "[*?:]", `\x41`, "[é日]"})
		if d > 0 && rng.Intn(3) == 0 {
			atom = "(" + gen(d-1) + ")"
		}
		atom += pick(rng, []string{"", "", "", "*", "+", "?", "{2}", "{1,3}", "*?"})
		switch rng.Intn(4) {
		case 0:
			if d > 0 {
				return atom + "|" + gen(d-1)
			}
		case 1:
			if d > 0 {
				return atom + gen(d-1)
			}
		}
		return atom
	}
	for {
		e := pick(rng, []string{"", "^", "^"}) + gen(3) + pick(rng, []string{"", "$", "$"})
		if _, err := regexp.Compile(e); err == nil {
			return e
		}
	}
}

func genPattern(rng *rand.Rand, o genOpt) string {
	if rng.Intn(60) == 0 {
		return "/"
	}
	n := 1 + rng.Intn(4)
	if o.deep {
		switch rng.Intn(4) {
		case 0:
			n = 1 + rng.Intn(19)
		case 1:
			n = 15 + rng.Intn(5)
		}
	} else if rng.Intn(6) == 0 {
		n = 1 + rng.Intn(8)
	}
	var sb strings.Builder
	used := map[string]bool{}
	pg := false
	for i := 0; i < n; i++ {
		s := genSeg(rng, o, used, pg)
		pg = s == "**"
		sb.WriteString("/" + s)
	}
	if rng.Intn(20) == 0 {
		sb.WriteString("/")
	}
	return sb.String()
}

// mutatePattern makes a pattern close to an existing one: shared prefixes and
// near duplicates are where the matcher has to choose.
func mutatePattern(rng *rand.Rand, o genOpt, pat string) string {
	segs := []string{}
	used := map[string]bool{}
	for _, s := range strings.Split(pat, "/") {
		if s != "" {
			segs = append(segs, s)
			if s[0] == '{' {
				n, _, _ := strings.Cut(s[1:len(s)-1], ":")
				used[n] = true
			}
		}
	}
	if len(segs) == 0 {
		return genPattern(rng, o)
	}
	at := rng.Intn(len(segs))
	switch rng.Intn(6) {
	case 0, 1, 2: // replace one segment
		segs[at] = genSeg(rng, o, used, false)
	case 3: // cut
		if at > 0 {
			segs = segs[:at]
		}
	case 4: // extend
		if len(segs) < 19 {
			segs = append(segs, genSeg(rng, o, used, segs[len(segs)-1] == "**"))
		}
	case 5: // two changes
		segs[at] = genSeg(rng, o, used, false)
		at = rng.Intn(len(segs))
		segs[at] = genSeg(rng, o, used, false)
	}
	for i := 1; i < len(segs); i++ {
		if segs[i] == "**" && segs[i-1] == "**" {
			segs[i] = pick(rng, smallLit)
		}
	}
	return "/" + strings.Join(segs, "/")
}

var stdMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PURGE"}

func recase(rng *rand.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if rng.Intn(2) == 0 {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

// genRoutes makes a set without duplicates.
func genRoutes(rng *rand.Rand, ci bool, o genOpt) *routeSet {
	s := &routeSet{ci: ci}
	for tries := 0; len(s.routes) < o.n && tries < o.n*12; tries++ {
		var pat string
		if len(s.routes) > 0 && rng.Intn(2) == 0 {
			pat = mutatePattern(rng, o, s.routes[rng.Intn(len(s.routes))].Pat)
		} else {
			pat = genPattern(rng, o)
		}
		m := "GET"
		if o.methods {
			m = stdMethods[rng.Intn(len(stdMethods))]
			if rng.Intn(2) == 0 {
				m = stdMethods[rng.Intn(3)]
			}
			if rng.Intn(5) == 0 {
				m = recase(rng, m)
			}
		}
		s.tryAdd(m, pat)
	}
	return s
}

// tryAdd appends the route unless it duplicates one of the set.
func (s *routeSet) tryAdd(m, pat string) bool {
	p := ref.Parse(pat, s.ci)
	if len(p.Segs) > 19 {
		return false
	}
	for i := range p.Segs {
		if i > 0 && p.Segs[i].Kind == ref.KGreedy && p.Segs[i-1].Kind == ref.KGreedy {
			return false
		}
	}
	for _, r := range s.routes {
		if strings.EqualFold(r.Method, m) && ref.Duplicate(r.p, p, s.ci) {
			return false
		}
	}
	s.routes = append(s.routes, route{m, pat, p})
	return true
}

// genValue makes a segment accepted by g, most of the time.
func genValue(rng *rand.Rand, g *ref.Seg, ci bool, o genOpt) string {
	lits := litPool
	if o.small || rng.Intn(2) == 0 {
		lits = smallLit
	}
	for try := 0; try < 30; try++ {
		var v string
		switch g.Kind {
		case ref.KLit:
			v = g.Text
			if ci && rng.Intn(3) == 0 {
				v = recase(rng, v)
			}
		case ref.KWild:
			var sb strings.Builder
			for _, c := range g.Text {
				switch c {
				case '*':
					for k := rng.Intn(3); k > 0; k-- {
						sb.WriteString(pick(rng, []string{"a", "b", "c", "é", ".", "1", "-", "日", "*", "?", "\xff"}))
					}
				case '?':
					sb.WriteString(pick(rng, []string{"a", "b", "c", "é", "x", "1", "日", "?", "*", "\xff", "\ufffd"}))
				case '\ufffd': // the character itself, or a byte that is none
					if ci {
						sb.WriteRune(c)
					} else {
						sb.WriteString(pick(rng, []string{"\ufffd", "\ufffd", "\xff", "\xfe", "\xc3"}))
					}
				default:
					sb.WriteRune(c)
				}
			}
			v = sb.String()
			if v == "" || v == ".." {
				continue
			}
			if ci && rng.Intn(3) == 0 {
				v = recase(rng, v)
			}
		default:
			v = pick(rng, lits)
			if g.Kind == ref.KCon && try > 3 {
				v = randLit(rng, rng.Intn(2) == 0)
			}
			if rng.Intn(6) == 0 {
				v = pick(rng, []string{"555", "77", "zzz", "fbd3040f-0f1c-4e98-b71c-d3cd61213f90", "xy", "XYZ", "{a}", "*", "**", "?", "Q9", "é日", "  "})
			}
		}
		if g.Kind == ref.KLit || g.MatchSeg(v, ci) || g.Kind == ref.KWild && rng.Intn(20) == 0 {
			if g.Kind != ref.KLit && rng.Intn(150) == 0 {
				return longer(rng, g, v, ci)
			}
			return v
		}
	}
	return pick(rng, lits)
}

// longer makes a long value of a short one, one that is still accepted if
// that is easy.
func longer(rng *rand.Rand, g *ref.Seg, v string, ci bool) string {
	n := pickInt(rng, 200, 255, 256, 257, 300, 512, 1000, 1024, 1025, 2048, 4097, 5000, 5000)
	if rng.Intn(20) == 0 {
		n = pickInt(rng, 16384, 65535, 65536, 65537, 70000)
	}
	if v == "" || v == ".." || strings.Trim(v, ".") == "" {
		return v
	}
	rep := strings.Repeat(v, n/len(v)+1)
	first, last := v[:1], v[len(v)-1:]
	for _, c := range []string{rep, rep[:n], strings.Repeat(first, n), v + strings.Repeat(last, n), strings.Repeat(first, n) + v, v + strings.Repeat("0", n), v + strings.Repeat("a", n) + v} {
		if g.MatchSeg(c, ci) {
			return c
		}
	}
	return rep
}

// genPath derives a request path from a pattern of the set, with mutations.
func genPath(rng *rand.Rand, s *routeSet, o genOpt) string {
	p := derivePath(rng, s, o)
	if s.ci && strings.Contains(p, "\ufffd") {
		// whether U+FFFD is another case of a byte that is no character is nobody's promise
		for _, r := range s.strings() {
			if !utf8.ValidString(r) {
				return strings.ReplaceAll(p, "\ufffd", "x")
			}
		}
	}
	return p
}

func derivePath(rng *rand.Rand, s *routeSet, o genOpt) string {
	var segs []string
	if len(s.routes) > 0 && rng.Intn(12) != 0 {
		p := s.routes[rng.Intn(len(s.routes))].p
		for i := range p.Segs {
			g := &p.Segs[i]
			if g.Kind == ref.KGreedy {
				for k := rng.Intn(4); k > 0; k-- {
					segs = append(segs, pick(rng, smallLit))
				}
				if i == len(p.Segs)-1 && rng.Intn(4) != 0 {
					segs = append(segs, pick(rng, smallLit))
				}
				continue
			}
			segs = append(segs, genValue(rng, g, s.ci, o))
		}
		// mutations
		if rng.Intn(3) == 0 && len(segs) > 0 {
			at := rng.Intn(len(segs))
			switch rng.Intn(6) {
			case 0:
				segs[at] = pick(rng, litPool)
			case 1:
				segs[at] = pick(rng, smallLit)
			case 2:
				segs = append(segs[:at], segs[at+1:]...)
			case 3:
				segs = append(segs[:at], append([]string{pick(rng, smallLit)}, segs[at:]...)...)
			case 4:
				segs[at] = recase(rng, segs[at])
			case 5:
				segs[at] += pick(rng, []string{"x", "a", " ", ".", "\n", "é"})
			}
		}
	} else {
		for k := rng.Intn(6); k >= 0; k-- {
			segs = append(segs, pick(rng, smallLit))
		}
	}
	if len(segs) > 19 {
		segs = segs[:19]
	}
	return joinPath(rng, segs)
}

// joinPath writes the segments as a path, sometimes with redundant slashes and
// detours through "..".
func joinPath(rng *rand.Rand, segs []string) string {
	var sb strings.Builder
	messy := rng.Intn(5) == 0
	depth := 0
	for _, s := range segs {
		sb.WriteByte('/')
		if messy {
			for rng.Intn(4) == 0 {
				sb.WriteByte('/')
			}
			if rng.Intn(8) == 0 && depth == 0 {
				sb.WriteString("../")
			}
			if rng.Intn(6) == 0 && depth < 18 {
				sb.WriteString(pick(rng, smallLit) + "/../")
			}
		}
		sb.WriteString(s)
		depth++
	}
	if sb.Len() == 0 {
		return "/"
	}
	if rng.Intn(10) == 0 {
		sb.WriteByte('/')
	}
	return sb.String()
}

// expect computes what the documentation says about a request.
type verdict struct {
	segs    []string
	tooDeep bool
	match   []int
}

func (s *routeSet) expect(method, p string) verdict {
	v := verdict{}
	var depth int
	v.segs, depth = ref.Normalize(p)
	v.tooDeep = depth > 19
	for i, r := range s.routes {
		if !strings.EqualFold(r.Method, method) {
			continue
		}
		if r.p.Accepts(v.segs, s.ci) {
			v.match = append(v.match, i)
		}
	}
	return v
}

func (v verdict) has(i int) bool {
	for _, m := range v.match {
		if m == i {
			return true
		}
	}
	return false
}

func kindName(k ref.Kind) string {
	return [...]string{"", "literal", "constrained", "variable", "wildcard", "*", "**"}[k]
}
