package props

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C10", false, runC10)
	register("C11", false, runC11)
}

// what a traced middleware does with one request
const (
	bPass      = iota
	bCtx       // passes a context with a value of its own
	bShortResp // answers without calling the next one
	bShortErr  // fails without calling the next one
	bReplace   // replaces the response on the way back
	bRecover   // turns an error into a response
	bFail      // turns a response into an error
	bReq       // passes another request object on
	bBoth      // returns the response along with an error
	bKinds     // number of behaviours
)

var bName = []string{"pass", "ctx", "short", "short-error", "replace", "recover", "fail", "request", "both"}

type tctxKey int
type treqKey struct{}

// trace is the event log of one request.
type trace struct {
	mu   sync.Mutex
	ev   []string
	plan map[int]int
	ids  []int
	resp map[response.HttpResponse]string
	errs map[error]string
	cnt  map[int]int       // occurrences inside of one request
	vars map[string]string // path variables the handler must see
}

func newTrace(ids []int, plan map[int]int) *trace {
	return &trace{plan: plan, ids: ids, resp: map[response.HttpResponse]string{}, errs: map[error]string{}, cnt: map[int]int{}}
}

func (t *trace) add(format string, a ...any) {
	t.mu.Lock()
	t.ev = append(t.ev, fmt.Sprintf(format, a...))
	t.mu.Unlock()
}

func (t *trace) newResp(tag string) response.HttpResponse {
	r := response.PlainTextHttpResponseOK(tag)
	t.resp[r] = tag
	return r
}

func (t *trace) newErr(tag string) error {
	e := errors.New(tag)
	t.errs[e] = tag
	return e
}

func (t *trace) result(resp response.HttpResponse, err error) string {
	s := ""
	if resp != nil {
		tag, ok := t.resp[resp]
		if !ok {
			tag = fmt.Sprintf("unknown response %T", resp)
		}
		s = "resp " + tag
	}
	if err != nil {
		tag, ok := t.errs[err]
		if !ok {
			tag = "unknown error " + err.Error()
		}
		s += "err " + tag
	}
	return s
}

// visible lists the context values that can be seen.
func (t *trace) visible(ctx context.Context, mc path.MatchingContext) string {
	var sb strings.Builder
	for _, id := range t.ids {
		if v := ctx.Value(tctxKey(id)); v != nil {
			fmt.Fprintf(&sb, "%d=%v ", id, v)
		}
	}
	if mc.R != nil {
		if v := mc.R.Context().Value(treqKey{}); v != nil {
			fmt.Fprintf(&sb, "req=%v", v)
		}
	}
	return sb.String()
}

func traceOf(mc path.MatchingContext) *trace {
	t, _ := mc.R.Context().Value(hitKey{}).(*trace)
	return t
}

// tracedMw is a middleware with an identity, it can be used anywhere.
func tracedMw(id int) middleware.Middleware {
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			t := traceOf(mc)
			if t == nil {
				return next(ctx, mc)
			}
			n := t.cnt[id]
			t.cnt[id]++
			tag := fmt.Sprintf("m%d.%d", id, n)
			t.add("enter %s sees %s", tag, t.visible(ctx, mc))
			b := t.plan[id]
			nctx, nmc := ctx, mc
			switch b {
			case bShortResp:
				r := t.newResp(tag)
				t.add("leave %s %s", tag, t.result(r, nil))
				return r, nil
			case bShortErr:
				e := t.newErr(tag)
				t.add("leave %s %s", tag, t.result(nil, e))
				return nil, e
			case bCtx:
				nctx = context.WithValue(ctx, tctxKey(id), tag)
			case bReq:
				nmc.R = mc.R.WithContext(context.WithValue(mc.R.Context(), treqKey{}, tag))
			}
			resp, err := next(nctx, nmc)
			t.add("back %s %s sees %s", tag, t.result(resp, err), t.visible(ctx, mc))
			switch b {
			case bReplace:
				if err == nil {
					resp = t.newResp(tag)
				}
			case bRecover:
				if err != nil {
					resp, err = t.newResp(tag), nil
				}
			case bFail:
				if err == nil {
					resp, err = nil, t.newErr(tag)
				}
			case bBoth:
				if err == nil {
					err = t.newErr(tag)
				}
			}
			t.add("leave %s %s", tag, t.result(resp, err))
			return resp, err
		}
	}
}

func tracedHandler(name string, fails bool) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t := traceOf(mc)
		if t == nil {
			return response.PlainTextHttpResponseOK(name), nil
		}
		t.add("handler %s sees %s", name, t.visible(ctx, mc))
		for n, v := range t.vars {
			if g := mc.PathVar(n); g != v {
				t.add("path variable %s is %q instead of %q", n, g, v)
			}
		}
		if fails {
			return nil, t.newErr(name)
		}
		return t.newResp(name), nil
	}
}

// modelChain is the specification: what the events of a request are.
func modelChain(chain []int, plan map[int]int, ids []int, name string, fails bool) (ev []string, resp, err string) {
	add := func(format string, a ...any) { ev = append(ev, fmt.Sprintf(format, a...)) }
	vis := func(c map[int]string, req string) string {
		var sb strings.Builder
		for _, id := range ids {
			if v, ok := c[id]; ok {
				fmt.Fprintf(&sb, "%d=%v ", id, v)
			}
		}
		if req != "" {
			sb.WriteString("req=" + req)
		}
		return sb.String()
	}
	res := func(resp, err string) string {
		s := ""
		if resp != "" {
			s = "resp " + resp
		}
		if err != "" {
			s += "err " + err
		}
		return s
	}
	cnt := map[int]int{}
	var run func(k int, c map[int]string, req string) (string, string)
	run = func(k int, c map[int]string, req string) (resp, err string) {
		if k == len(chain) {
			add("handler %s sees %s", name, vis(c, req))
			if fails {
				return "", name
			}
			return name, ""
		}
		id := chain[k]
		tag := fmt.Sprintf("m%d.%d", id, cnt[id])
		cnt[id]++
		add("enter %s sees %s", tag, vis(c, req))
		nc, nreq := c, req
		switch plan[id] {
		case bShortResp:
			add("leave %s %s", tag, res(tag, ""))
			return tag, ""
		case bShortErr:
			add("leave %s %s", tag, res("", tag))
			return "", tag
		case bCtx:
			nc = map[int]string{}
			for a, b := range c {
				nc[a] = b
			}
			nc[id] = tag
		case bReq:
			nreq = tag
		}
		resp, err = run(k+1, nc, nreq)
		add("back %s %s sees %s", tag, res(resp, err), vis(c, req))
		switch plan[id] {
		case bReplace:
			if err == "" {
				resp = tag
			}
		case bRecover:
			if err != "" {
				resp, err = tag, ""
			}
		case bFail:
			if err == "" {
				resp, err = "", tag
			}
		case bBoth:
			if err == "" {
				err = tag
			}
		}
		add("leave %s %s", tag, res(resp, err))
		return resp, err
	}
	resp, err = run(0, map[int]string{}, "")
	return ev, resp, err
}

// endpoint is a registered handler with the chain it must run under.
type endpoint struct {
	name   string
	method string
	url    string
	chain  []int
	own    []int
	fails  bool
	vars   map[string]string
	// the handler is one of the library: it leaves no event, and redirects
	quiet bool
}

// quietName is how the response of such a handler shows up in a trace.
const quietName = "unknown response *response.HttpRedirectResponse"

// chainProvider is a provider that knows everybody.
type chainProvider struct{}

func (chainProvider) Name() string { return "p" }
func (chainProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
	return "https://p.test/?state=" + state
}
func (chainProvider) FetchAccessToken(ctx context.Context, redirectUri string, authCode string) (oauth.AccessToken, error) {
	return oauth.AccessToken{AccessToken: "t"}, nil
}
func (chainProvider) FetchAuthenticatedUser(ctx context.Context, accessToken oauth.AccessToken) (auth.User, error) {
	return auth.User{Id: "u"}, nil
}

// registerBy registers through one of the methods of the mux.
func registerBy(rng *rand.Rand, m *gofre.MuxHandler, method, pat string, h handler.Handler, mws []middleware.Middleware) string {
	if rng.Intn(3) > 0 {
		switch method {
		case "GET":
			m.HandleGet(pat, h, mws...)
			return "HandleGet"
		case "POST":
			m.HandlePost(pat, h, mws...)
			return "HandlePost"
		case "PUT":
			m.HandlePut(pat, h, mws...)
			return "HandlePut"
		case "PATCH":
			m.HandlePatch(pat, h, mws...)
			return "HandlePatch"
		case "DELETE":
			m.HandleDelete(pat, h, mws...)
			return "HandleDelete"
		}
	}
	m.HandleRequest(recaseMaybe(rng, method), pat, h, mws...)
	return "HandleRequest"
}

func recaseMaybe(rng *rand.Rand, s string) string {
	if rng.Intn(4) == 0 {
		return recase(rng, s)
	}
	return s
}

var chainMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CUSTOM"}

// mwList makes a list of middlewares with some nils; ids are those that count.
func mwList(rng *rand.Rand, mws []middleware.Middleware, max int) (list []middleware.Middleware, ids []int, nils int) {
	n := rng.Intn(max + 1)
	for k := 0; k < n; k++ {
		if rng.Intn(6) == 0 {
			list = append(list, nil)
			nils++
			continue
		}
		id := rng.Intn(len(mws))
		list = append(list, mws[id])
		ids = append(ids, id)
	}
	return
}

// runEndpoint sends one request and judges its trace.
func runEndpoint(r *core.Run, srv server, l *errLog, e *endpoint, plan map[int]int, ids []int, history []string) bool {
	t := newTrace(ids, plan)
	t.vars = e.vars
	req := (&http.Request{Method: e.method, URL: &url.URL{Path: e.url}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "x.test"})
	noise(req.Header, req.Method, e.url)
	req = req.WithContext(context.WithValue(context.Background(), hitKey{}, t))
	w := httptest.NewRecorder()
	pan, st := core.Guard(func() { srv.ServeHTTP(w, req) })
	wantEv, wantResp, wantErr := modelChain(e.chain, plan, ids, e.name, e.fails)
	if e.quiet {
		k := 0
		for _, ev := range wantEv {
			if !strings.HasPrefix(ev, "handler ") {
				wantEv[k] = ev
				k++
			}
		}
		wantEv = wantEv[:k]
	}
	det := func() any {
		return map[string]any{"history": history, "request": e.method + " " + e.url, "plan": planText(plan), "chain": e.chain, "events": t.ev, "expected": wantEv, "panic": fmt.Sprint(pan), "stack": st,
			"status": w.Code, "body": clip(w.Body.String())}
	}
	if pan != nil {
		r.Violate("panic", fmt.Sprintf("serving a request panicked: %v", pan), det())
		return false
	}
	if strings.Join(t.ev, "\n") != strings.Join(wantEv, "\n") {
		r.Violate("trace", "the middlewares of a request did not run as specified: "+firstDiff(t.ev, wantEv), det())
		return false
	}
	if wantErr != "" {
		if w.Code != 500 || w.Body.Len() != 0 {
			r.Violate("outcome", "the error of the chain is not what the client got", det())
			return false
		}
		if l != nil {
			ok := false
			for _, le := range l.take() {
				for e, tag := range t.errs {
					if tag == wantErr && errors.Is(le, e) {
						ok = true
					}
				}
			}
			if !ok {
				r.Violate("outcome", "the error of the chain did not reach the router", det())
				return false
			}
		}
	} else if e.quiet && wantResp == e.name {
		if w.Code != 302 || !strings.HasPrefix(w.Header().Get("Location"), "https://p.test/?state=") {
			r.Violate("outcome", "the redirect of the login is not what the client got", det())
			return false
		}
	} else if w.Code != 200 || w.Body.String() != wantResp {
		r.Violate("outcome", "the response of the chain is not what the client got", det())
		return false
	}
	return true
}

func firstDiff(a, b []string) string {
	for k := 0; k < len(a) || k < len(b); k++ {
		x, y := "nothing", "nothing"
		if k < len(a) {
			x = a[k]
		}
		if k < len(b) {
			y = b[k]
		}
		if x != y {
			return fmt.Sprintf("event %d is %q, expected %q", k, x, y)
		}
	}
	return ""
}

func planText(plan map[int]int) string {
	var sb strings.Builder
	for id := 0; id < 64; id++ {
		if b, ok := plan[id]; ok && b != bPass {
			fmt.Fprintf(&sb, "m%d:%s ", id, bName[b])
		}
	}
	return sb.String()
}

func genPlan(rng *rand.Rand, n int) map[int]int {
	plan := map[int]int{}
	for id := 0; id < n; id++ {
		switch rng.Intn(3) {
		case 0:
		case 1:
			plan[id] = bCtx
		default:
			plan[id] = rng.Intn(bKinds)
		}
	}
	return plan
}

func runC10(r *core.Run) {
	r.Rule("random histories of CommonMiddlewares calls (with nils, empty calls, repeated middlewares and reused argument slices) and handler registrations by every registration method; " +
		"each request has a plan of what every middleware does (pass, context value, other request object, short circuit, error, replace, recover, both) and its recorded events, context views, " +
		"results by identity and final answer are compared with the specified ones. A case is one request; non-trivial when its chain has at least two middlewares")
	r.Require("requests", 5000)
	r.Require("logins", 500)
	r.Require("chain_shapes", 300)
	for _, b := range bName {
		r.Require("plan_"+b, 100)
	}
	n := r.N(15000, 200000)
	var overlapped atomic.Int64
	parallel(r, "mux", n, func(i int) {
		rng := r.Rand("c10", i)
		m, l := newMux(rng.Intn(2) == 0)
		nm := 1 + rng.Intn(8)
		mws := make([]middleware.Middleware, nm)
		ids := make([]int, nm)
		for k := range mws {
			mws[k] = tracedMw(k)
			ids[k] = k
		}
		var eps []*endpoint
		var common []int
		var history []string
		buf := make([]middleware.Middleware, 0, 16)
		steps := 2 + rng.Intn(10)
		logins := 0
		for s := 0; s < steps; s++ {
			if rng.Intn(12) == 0 {
				// the routes of a login have a list of middlewares each
				a, ai, _ := mwList(rng, mws, 4)
				b, bi, _ := mwList(rng, mws, 4)
				cfg := oauth.Config{WebsiteUrl: "https://s.test", Providers: []oauth.Provider{chainProvider{}}, FetchUserDetails: rng.Intn(2) == 0}
				h := &endpoint{name: fmt.Sprintf("login%d", logins), method: "GET", own: bi, chain: append(append([]int(nil), common...), bi...), fails: rng.Intn(5) == 0}
				start := &endpoint{name: quietName, method: "GET", own: ai, chain: append(append([]int(nil), common...), ai...), quiet: true}
				if logins == 0 {
					start.url, h.url = "/oauth/initiate", "/oauth/authorize/p"
					m.HandleOAUTH2(cfg, tracedHandler(h.name, h.fails), a, b)
				} else {
					start.url, h.url = fmt.Sprintf("/in%d", logins), fmt.Sprintf("/back%d/p", logins)
					m.HandleOAUTH2WithCustomPaths(start.url, strings.TrimSuffix(h.url, "/p"), cfg, tracedHandler(h.name, h.fails), a, b)
				}
				logins++
				r.Count("logins", 1)
				history = append(history, fmt.Sprintf("login %s own %v, %s own %v fails=%v", start.url, ai, h.url, bi, h.fails))
				eps = append(eps, start, h)
				continue
			}
			if rng.Intn(2) == 0 {
				list, li, nils := mwList(rng, mws, 5)
				buf = append(buf[:0], list...)
				m.CommonMiddlewares(buf...)
				common = append(common, li...)
				history = append(history, fmt.Sprintf("common %v nils=%d", li, nils))
				// the caller may reuse its slice
				for k := range buf {
					buf[k] = mws[rng.Intn(nm)]
				}
			} else {
				list, li, nils := mwList(rng, mws, 5)
				buf = append(buf[:0], list...)
				e := &endpoint{name: fmt.Sprintf("h%d", len(eps)), method: pick(rng, chainMethods), fails: rng.Intn(5) == 0}
				e.url = "/" + e.name
				e.own = li
				e.chain = append(append([]int(nil), common...), li...)
				by := registerBy(rng, m, e.method, e.url, tracedHandler(e.name, e.fails), buf)
				history = append(history, fmt.Sprintf("%s %s %s own %v nils=%d fails=%v", by, e.method, e.url, li, nils, e.fails))
				for k := range buf {
					buf[k] = mws[rng.Intn(nm)]
				}
				eps = append(eps, e)
			}
			// requests are served while the mux is still being built
			if len(eps) > 0 && rng.Intn(3) == 0 {
				e := eps[rng.Intn(len(eps))]
				runEndpoint(r, m, l, e, genPlan(rng, nm), ids, history)
			}
		}
		if len(eps) == 0 {
			return
		}
		reqs := 12
		for q := 0; q < reqs; q++ {
			e := eps[rng.Intn(len(eps))]
			plan := genPlan(rng, nm)
			if q == 0 {
				plan = map[int]int{}
			}
			l.take()
			ok := runEndpoint(r, m, l, e, plan, ids, history)
			used := map[int]bool{}
			for _, id := range e.chain {
				if !used[id] {
					used[id] = true
					r.Count("plan_"+bName[plan[id]], 1)
				}
			}
			r.Count("requests", 1)
			r.Seen("chain_shapes", fmt.Sprint(len(e.chain)-len(e.own), len(e.own), planText(plan)))
			r.Case(fmt.Sprint(history, e.name, planText(plan)), len(e.chain) >= 2)
			if !ok {
				return
			}
			if i < 2 && q < 2 {
				r.Sample(map[string]any{"history": history, "request": e.method + " " + e.url, "plan": planText(plan)})
			}
		}
		if i%20 == 0 { // the same chains, concurrently: traces must not mix
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				seed := rng.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rng := rand.New(rand.NewSource(seed))
					for q := 0; q < 30; q++ {
						e := eps[rng.Intn(len(eps))]
						runEndpoint(r, m, nil, e, genPlan(rng, nm), ids, history)
						overlapped.Add(1)
					}
				}()
			}
			wg.Wait()
		}
	})
	r.Count("concurrent_requests", overlapped.Load())
}

// ---- C11 ----

type muxNode struct {
	m      *gofre.MuxHandler
	prefix string
	common []int
	depth  int
}

// joinOnce joins a prefix and a pattern with exactly one slash.
func joinOnce(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/")
}

// concrete replaces the variables and wildcards of a pattern.
func concrete(rng *rand.Rand, pat string) (string, map[string]string) {
	vars := map[string]string{}
	segs := strings.Split(pat, "/")
	for k, s := range segs {
		switch {
		case strings.HasPrefix(s, "{"):
			n := strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
			n, re, has := strings.Cut(n, ":")
			v := fmt.Sprintf("v%d", rng.Intn(1000))
			if has {
				_ = re
				v = fmt.Sprintf("%d", rng.Intn(1000))
			}
			segs[k], vars[n] = v, v
		case s == "*":
			segs[k] = fmt.Sprintf("s%d", rng.Intn(100))
		case s == "**":
			segs[k] = strings.Repeat("d/", rng.Intn(3)) + "d"
		}
	}
	return strings.Join(segs, "/"), vars
}

func runC11(r *core.Run) {
	r.Rule("random histories of Clone, RouteUsingPathPrefix, CommonMiddlewares and registrations over a growing tree of muxes (prefixes with and without slashes and with variables, nested to depth 8, equal prefixes nested in each other, " +
		"many additions so that the capacity of the lists varies), requests in between; each route is then requested through every mux and its middleware trace, handler and variables compared with a model where every mux owns its prefix and list. " +
		"A case is one request; non-trivial when the tree has at least three muxes and the route was registered through a derived one")
	r.Require("requests", 5000)
	r.Require("derived_registrations", 500)
	r.Require("prefix_joins", 50)
	n := r.N(15000, 200000)
	parallel(r, "tree", n, func(i int) {
		rng := r.Rand("c11", i)
		l := &errLog{}
		cfg := &gofre.Config{ErrLogFunc: l.log, CaseInsensitivePathMatch: rng.Intn(2) == 0, ContextPath: pick(rng, []string{"", "/", "/ctx"})}
		root, err := gofre.NewMuxHandler(cfg)
		if err != nil {
			panic(err)
		}
		nm := 4 + rng.Intn(12)
		mws := make([]middleware.Middleware, nm)
		ids := make([]int, nm)
		for k := range mws {
			mws[k] = tracedMw(k)
			ids[k] = k
		}
		nodes := []*muxNode{{m: root}}
		var eps []*endpoint
		var pats []string
		derived := map[int]bool{}
		var history []string
		steps := 6 + rng.Intn(24)
		nvar := 0
		for s := 0; s < steps; s++ {
			ni := rng.Intn(len(nodes))
			nd := nodes[ni]
			switch rng.Intn(7) {
			case 0: // clone
				if nd.depth > 8 {
					continue
				}
				nodes = append(nodes, &muxNode{m: nd.m.Clone(), prefix: nd.prefix, common: append([]int(nil), nd.common...), depth: nd.depth + 1})
				history = append(history, fmt.Sprintf("m%d = m%d.Clone()", len(nodes)-1, ni))
			case 1, 2: // prefix
				if strings.Count(nd.prefix, "/") > 9 {
					continue
				}
				p := pick(rng, []string{"/api", "/api/", "api", "/v1", "v1/", "/a/b", "/", "/x{", "/**", "/*"})
				if nd.prefix == "" && !strings.HasPrefix(p, "/") {
					p = "/" + p
				}
				if p == "/x{" {
					nvar++
					p = fmt.Sprintf(pick(rng, []string{"/{p%d}", "/{p%d}/", "/{p%d:^[0-9]+$}", "/t/{p%d}/z"}), nvar)
				}
				full := joinOnce(nd.prefix, p)
				if strings.Contains(full, "**/**") || strings.Count(full, "**") > 2 {
					continue
				}
				nodes = append(nodes, &muxNode{m: nd.m.RouteUsingPathPrefix(p), prefix: full, common: append([]int(nil), nd.common...), depth: nd.depth + 1})
				history = append(history, fmt.Sprintf("m%d = m%d.RouteUsingPathPrefix(%q)", len(nodes)-1, ni, p))
			case 3, 4: // common middlewares
				list, li, nils := mwList(rng, mws, 3)
				if len(nd.common)+len(li) > 14 {
					continue
				}
				nd.m.CommonMiddlewares(list...)
				nd.common = append(nd.common, li...)
				history = append(history, fmt.Sprintf("m%d.CommonMiddlewares(%v nils=%d)", ni, li, nils))
			default: // register
				list, li, _ := mwList(rng, mws, 2)
				e := &endpoint{name: fmt.Sprintf("h%d", len(eps)), method: pick(rng, chainMethods[:5])}
				tail := pick(rng, []string{"%s", "/%s", "/%s/", "/sub/%s", "sub/%s", "/{own}/%s"})
				if nd.prefix == "" && tail[0] != '/' {
					tail = "/" + tail
				}
				pat := fmt.Sprintf(tail, e.name)
				if strings.HasSuffix(nd.prefix, "**") && strings.HasPrefix(tail, "/{own}") {
					pat = "/" + e.name
				}
				e.own = li
				e.chain = append(append([]int(nil), nd.common...), li...)
				full := joinOnce(nd.prefix, pat)
				by := ""
				pan, st := core.Guard(func() { by = registerBy(rng, nd.m, e.method, pat, tracedHandler(e.name, false), list) })
				history = append(history, fmt.Sprintf("m%d.%s(%s %q own %v)", ni, by, e.method, pat, li))
				if pan != nil {
					r.Violate("refused", fmt.Sprintf("a valid route of a derived mux was refused: %v", pan), map[string]any{"history": history, "full": full, "stack": st})
					return
				}
				e.url, e.vars = concrete(rng, full)
				r.Seen("prefix_joins", fmt.Sprintf("%q+%q", lastPart(nd.prefix), tail))
				if nd.depth > 0 {
					r.Count("derived_registrations", 1)
					derived[len(eps)] = true
				}
				eps = append(eps, e)
				pats = append(pats, full)
			}
			if len(eps) > 0 && rng.Intn(5) == 0 {
				k := rng.Intn(len(eps))
				checkTreeRequest(r, nodes, eps, pats, k, rng, ids, nm, history, l)
			}
		}
		// the configuration is inherited
		for k, nd := range nodes {
			c := nd.m.Config()
			if c.CaseInsensitivePathMatch != cfg.CaseInsensitivePathMatch || c.ContextPath != root.Config().ContextPath {
				r.Violate("config", "a derived mux reports another configuration", map[string]any{"history": history, "mux": k})
			}
		}
		for q := 0; q < 10 && len(eps) > 0; q++ {
			k := rng.Intn(len(eps))
			ok := checkTreeRequest(r, nodes, eps, pats, k, rng, ids, nm, history, l)
			r.Count("requests", 1)
			r.Case(fmt.Sprint(history, eps[k].name, q), len(nodes) >= 3 && derived[k])
			if !ok {
				return
			}
		}
		if i < 3 {
			r.Sample(map[string]any{"history": history})
		}
		if i%50 == 0 {
			debugEndpoints(r, rng)
		}
	})
}

func lastPart(p string) string {
	if p == "" {
		return ""
	}
	q := strings.TrimSuffix(p, "/")
	return p[strings.LastIndex(q, "/")+1:]
}

func checkTreeRequest(r *core.Run, nodes []*muxNode, eps []*endpoint, pats []string, k int, rng *rand.Rand, ids []int, nm int, history []string, l *errLog) bool {
	e := eps[k]
	url, vars := concrete(rng, pats[k])
	c := *e
	c.url, c.vars = url, vars
	if strings.Count(pats[k], "**") > 1 {
		c.vars = nil // several bindings are possible
	}
	ni := rng.Intn(len(nodes))
	l.take()
	h := append(append([]string(nil), history...), fmt.Sprintf("m%d serves %s %s (pattern %s)", ni, c.method, c.url, pats[k]))
	plan := map[int]int{}
	if rng.Intn(2) == 0 {
		plan = genPlan(rng, nm)
	}
	return runEndpoint(r, nodes[ni].m, l, &c, plan, ids, h)
}

// debugEndpoints: registered through a prefixed mux they live under its prefix.
func debugEndpoints(r *core.Run, rng *rand.Rand) {
	m, _ := newMux(false)
	p := pick(rng, []string{"/ops", "/ops/", "/a/b"})
	m.RouteUsingPathPrefix(p).EnableDebugEndpoints()
	get := func(u string) *httptest.ResponseRecorder {
		return recorded(m, newRequest("GET", u, nil))
	}
	base := strings.TrimSuffix(p, "/")
	for _, u := range []string{"/debug/vars", "/debug/pprof/cmdline"} {
		if w := get(base + u); w.Code != 200 || w.Body.Len() == 0 {
			r.Violate("debug", "a debug endpoint is not served under the prefix of its mux", map[string]any{"prefix": p, "url": base + u, "status": w.Code})
		}
		if w := get(u); w.Code != 404 {
			r.Violate("debug", "a debug endpoint is served outside the prefix of its mux", map[string]any{"prefix": p, "url": u, "status": w.Code})
		}
	}
	r.Count("debug_endpoint_checks", 1)
}
