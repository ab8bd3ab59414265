package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C35", false, runC35)
	register("C36", true, runC36)
}

// noCache is a cache that accepts everything and keeps nothing.
type noCache struct{}

func (noCache) Add(string, time.Duration) error { return nil }
func (noCache) Remove(string)                   {}
func (noCache) Contains(string) bool            { return true }

var _ cache.Cache = noCache{}

// lifeUser is what a security principal supplier hands out.
func lifeUser() auth.SecurityPrincipal {
	return &auth.User{Id: "u", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{auth.AllPermissions()}}}}}}
}

// lifeMw is one middleware; note is called with the context where it has one.
type lifeMw struct {
	name string
	make func(note func(where string, ctx context.Context)) middleware.Middleware
}

var lifeMws = []lifeMw{
	{"recover", func(func(string, context.Context)) middleware.Middleware { return middleware.PanicRecover() }},
	{"dump", func(func(string, context.Context)) middleware.Middleware {
		return middleware.RequestDumper(func(string) {})
	}},
	{"json errors", func(func(string, context.Context)) middleware.Middleware { return middleware.ErrJsonResponse() }},
	{"text errors", func(func(string, context.Context)) middleware.Middleware {
		return middleware.ErrResponse(func(code int, err error) response.HttpResponse { return response.PlainTextHttpResponse(code, "E") })
	}},
	{"csrf", func(func(string, context.Context)) middleware.Middleware { return middleware.CSRFPrevention(noCache{}) }},
	{"cors", func(func(string, context.Context)) middleware.Middleware {
		return middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET", "POST"}})
	}},
	{"secure", func(func(string, context.Context)) middleware.Middleware {
		return middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true, BlockContentSniffingEnabled: true})
	}},
	{"compress", func(func(string, context.Context)) middleware.Middleware { return middleware.CompressResponse(1) }},
	{"principal", func(note func(string, context.Context)) middleware.Middleware {
		return middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			note("principal supplier", ctx)
			return lifeUser(), nil
		})
	}},
	{"nobody", func(note func(string, context.Context)) middleware.Middleware {
		return middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			note("principal supplier", ctx)
			return nil, nil
		})
	}},
	{"authorize", func(note func(string, context.Context)) middleware.Middleware {
		who := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			note("principal supplier", ctx)
			return lifeUser(), nil
		})
		may := middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
			note("permissions supplier", ctx)
			return []auth.Permission{{Scope: "a", Access: auth.AccessRead}}, nil
		}, true)
		return func(h handler.Handler) handler.Handler { return who(may(h)) }
	}},
}

type lifeKey struct{}

// lifeMark is put into the context by the application's own middlewares.
type lifeMark struct{ n int }

func lifeMarking(h handler.Handler) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if l := watchOf(ctx); l != nil {
			l.mu.Lock()
			l.marks++
			ctx = context.WithValue(ctx, lifeMark{l.marks}, l.n)
			l.mu.Unlock()
		}
		return h(ctx, mc)
	}
}

var errLifeCause = errors.New("life cause")

// lifeProvider is a login provider that notes the contexts it is called with.
type lifeProvider struct {
	note func(string, context.Context)
}

func (p *lifeProvider) Name() string                           { return "life" }
func (p *lifeProvider) InitiateUrl(a, b string, c bool) string { return "/go" }
func (p *lifeProvider) FetchAccessToken(ctx context.Context, r string, c string) (oauth.AccessToken, error) {
	p.note("token", ctx)
	return oauth.AccessToken{AccessToken: "t", TokenType: "Bearer"}, nil
}
func (p *lifeProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	p.note("user", ctx)
	return auth.User{Id: "u"}, nil
}

// lifeWatch is what happens to the contexts of one request.
type lifeWatch struct {
	n        int
	deadline time.Time // zero: none
	cut      string    // when the request's context ends: "", "handler", "writing"
	end      func()    // ends the request's context
	over     atomic.Bool
	marks    int
	mu       sync.Mutex
	seen     []string
	bad      []string
	all      []context.Context
}

// note judges one context the library handed out while its request is served.
func (l *lifeWatch) note(where string, ctx context.Context) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.seen = append(l.seen, where)
	l.all = append(l.all, ctx)
	bad := func(f string, a ...any) { l.bad = append(l.bad, where+": "+fmt.Sprintf(f, a...)) }
	if ctx == nil {
		bad("no context at all")
		return
	}
	if v := ctx.Value(lifeKey{}); v != l.n {
		bad("the value of its request is %v, not %v", v, l.n)
	}
	if where != "request in the handler" && where != "adapted handler" && where != "event generator" {
		for k := 1; k <= l.marks; k++ {
			if v := ctx.Value(lifeMark{k}); v != l.n {
				bad("what an earlier middleware put in the context is %v, not %v", v, l.n)
			}
		}
	}
	d, ok := ctx.Deadline()
	if ok != !l.deadline.IsZero() || !d.Equal(l.deadline) {
		bad("the deadline is %v %v, not %v", ok, d, l.deadline)
	}
	if err := ctx.Err(); err != nil {
		bad("over although its request is not: %v", err)
	}
}

// ended waits until all the contexts are over.
func (l *lifeWatch) ended(why error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for k, ctx := range l.all {
		if ctx == nil {
			continue
		}
		select {
		case <-ctx.Done():
		case <-time.After(15 * time.Second):
			l.bad = append(l.bad, l.seen[k]+": not over although its request is")
			return
		}
		if ctx.Err() != context.Canceled && ctx.Err() != context.DeadlineExceeded {
			l.bad = append(l.bad, fmt.Sprintf("%s: ends with %v", l.seen[k], ctx.Err()))
		}
		if why != nil && context.Cause(ctx) != why {
			l.bad = append(l.bad, fmt.Sprintf("%s: the cause is %v, not %v", l.seen[k], context.Cause(ctx), why))
		}
	}
}

// alive says which of the contexts seen so far are over.
func (l *lifeWatch) alive(when string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for k, ctx := range l.all {
		if ctx != nil && ctx.Err() != nil {
			l.bad = append(l.bad, fmt.Sprintf("%s: over %s: %v", l.seen[k], when, ctx.Err()))
		}
	}
}

type lifeWatchKey struct{}

func watchOf(ctx context.Context) *lifeWatch {
	if ctx == nil {
		return nil
	}
	l, _ := ctx.Value(lifeWatchKey{}).(*lifeWatch)
	return l
}

var lifeKinds = []string{"text", "json", "writer", "stream", "template", "adaptor", "sse", "error", "panic", "redirect", "login"}

// lifeMux has one route for each kind of answer behind the same middlewares.
func lifeMux(rng *rand.Rand) (*gofre.MuxHandler, []string) {
	m, _ := newMux(false)
	note := func(where string, ctx context.Context) {
		if l := watchOf(ctx); l != nil {
			l.note(where, ctx)
		} else {
			lifeLost.Add(1)
		}
	}
	var mws []middleware.Middleware
	names := []string{}
	for k := rng.Intn(5); k > 0; k-- {
		w := lifeMws[rng.Intn(len(lifeMws))]
		names = append(names, w.name)
		mws = append(mws, w.make(note))
		if rng.Intn(3) == 0 {
			names = append(names, "mark")
			mws = append(mws, lifeMarking)
		}
	}
	common := rng.Intn(len(mws) + 1)
	m.CommonMiddlewares(mws[:common]...)
	mws = mws[common:]
	// what an answer does while it is written
	writing := func(l *lifeWatch) {
		if l.over.Load() {
			return
		}
		l.alive("while the answer is written")
		if l.cut == "writing" {
			l.over.Store(true)
			l.end()
			l.ended(errLifeCause)
		}
	}
	for _, kind := range lifeKinds {
		kind := kind
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			l := watchOf(ctx)
			if l == nil {
				lifeLost.Add(1)
				return nil, errors.New("lost")
			}
			l.note("handler", ctx)
			if mc.R == nil {
				l.mu.Lock()
				l.bad = append(l.bad, "no request")
				l.mu.Unlock()
			} else {
				l.note("request in the handler", mc.R.Context())
			}
			for k := 0; k < 3; k++ {
				runtime.Gosched()
			}
			l.alive("while the handler runs")
			if l.cut == "handler" {
				l.over.Store(true)
				l.end()
				l.ended(errLifeCause)
			}
			switch kind {
			case "text":
				return response.PlainTextHttpResponseOK("ok"), nil
			case "json":
				return response.JsonHttpResponseOK(lifeJson{func() { writing(l) }}), nil
			case "writer":
				return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
					writing(l)
					_, err := io.WriteString(w, "ok")
					return err
				}), nil
			case "stream":
				return response.StreamHttpResponse("text/plain", &lifeReader{f: func() { writing(l) }}), nil
			case "template":
				return response.TemplateHttpResponseOK(lifeTemplate{func() { writing(l) }}, "n", nil), nil
			case "adaptor":
				return response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) {
					if l.cut != "handler" {
						l.note("adapted handler", q.Context())
					}
					writing(l)
					io.WriteString(w, "ok")
				}), nil
			case "sse":
				return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
					if l.cut != "handler" {
						l.note("event generator", ctx)
					}
					c := make(chan response.ServerSentEvent)
					go func() {
						defer close(c)
						writing(l)
						select {
						case c <- response.ServerSentEvent{Data: []string{"ok"}}:
						case <-ctx.Done():
						}
					}()
					return c
				}), nil
			case "error":
				return nil, errors.New("own")
			case "panic":
				panic("own")
			case "redirect":
				return response.RedirectHttpResponse("/x"), nil
			}
			return response.PlainTextHttpResponseOK("ok"), nil
		}
		if kind == "login" {
			m.HandleOAUTH2(oauth.Config{WebsiteUrl: "http://x.test", FetchUserDetails: true, Providers: []oauth.Provider{&lifeProvider{note}},
				CacheConfig: oauth.CacheConfig{Cache: noCache{}, KeyExpirationTime: time.Minute}}, h, mws, mws)
			continue
		}
		m.HandleGet("/"+kind+"/{id}", h, mws...)
		m.HandlePost("/"+kind+"/{id}", h, mws...)
	}
	return m, append([]string{fmt.Sprint(common)}, names...)
}

var lifeLost atomic.Int64

type lifeJson struct{ f func() }

func (j lifeJson) MarshalJSON() ([]byte, error) { j.f(); return []byte(`"ok"`), nil }

type lifeReader struct {
	f    func()
	done bool
}

func (s *lifeReader) Read(p []byte) (int, error) {
	if s.done {
		return 0, io.EOF
	}
	s.done = true
	s.f()
	return copy(p, "ok"), nil
}

type lifeTemplate struct{ f func() }

func (t lifeTemplate) Execute(w io.Writer, data any) error {
	t.f()
	_, err := io.WriteString(w, "ok")
	return err
}
func (t lifeTemplate) ExecuteTemplate(w io.Writer, name string, data any) error {
	return t.Execute(w, data)
}

func runC36(r *core.Run) {
	r.Rule("handlers, suppliers, login providers, event generators and adapted handlers behind random chains of all the middlewares note the contexts they get; the request's context carries a value, often a deadline, and is ended by the harness at random moments (in the handler, while the answer is written, never); every context must carry the value and the deadline, be alive while the request is (writing included), and be over with its cause once the request's context is; other requests are served at the same time; over real HTTP/1.1 and HTTP/2 connections the client leaves, or the request ends, and the contexts must follow")
	r.Assume("a context that is not over 15 s after its request counts as never ending")
	r.Require("contexts", 2000)
	r.Require("ended by the harness", 200)
	r.Require("real requests", 40)
	r.Require("clients that left", 10)
	lost := lifeLost.Load()
	n := r.N(260, 6000)
	parallel(r, "contexts", n, func(i int) {
		rng := r.Rand("life", i)
		m, names := lifeMux(rng)
		per := 24
		var wg sync.WaitGroup
		// requests that run at the same time have their own contexts
		for g := 0; g < 3; g++ {
			grng := r.Rand(fmt.Sprint("life request ", g), i)
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per/3; k++ {
					l := &lifeWatch{n: i*100 + g*30 + k, cut: pick(grng, []string{"", "", "handler", "writing"})}
					ctx := context.WithValue(context.WithValue(context.Background(), lifeWatchKey{}, l), lifeKey{}, l.n)
					stop := func() {}
					if grng.Intn(2) == 0 {
						l.deadline = time.Now().Add(time.Hour + time.Duration(grng.Intn(1000))*time.Second)
						ctx, stop = context.WithDeadline(ctx, l.deadline)
					}
					ctx, cancel := context.WithCancelCause(ctx)
					l.end = func() { cancel(errLifeCause) }
					kind := pick(grng, lifeKinds)
					me := pick(grng, []string{"GET", "POST"})
					target := "/" + kind + "/1"
					if kind == "login" {
						me, target = "GET", fmt.Sprintf("/oauth/authorize/life?code=c&state=s%d", l.n)
					}
					q := httptest.NewRequest(me, target, nil).WithContext(ctx)
					q.Header.Set(middleware.CSRFRestNonceHeaderName, fmt.Sprint("n", l.n))
					if grng.Intn(2) == 0 {
						q.Header.Set("Accept-Encoding", "gzip")
					}
					if kind == "sse" {
						q.ProtoMajor, q.ProtoMinor, q.Proto = 2, 0, "HTTP/2.0"
					}
					detail := map[string]any{"middlewares": names, "request": me + " " + target, "ended": l.cut}
					core.Guard(func() { m.ServeHTTP(httptest.NewRecorder(), q) })
					over := ctx.Err() != nil
					if !over {
						// the library ends nothing on its own
						l.alive("when the request was answered")
					}
					l.end()
					l.ended(errLifeCause)
					stop()
					l.mu.Lock()
					if len(l.seen) == 0 {
						l.bad = append(l.bad, "the handler was not reached")
					}
					r.Count("contexts", int64(len(l.seen)))
					for _, s := range l.seen {
						r.Seen("places", s)
					}
					if l.cut != "" && over {
						r.Count("ended by the harness", 1)
					}
					if len(l.bad) > 0 {
						r.Violate("context:"+kind+":"+strings.SplitN(l.bad[0], ":", 2)[0], "a context is not its request's: "+clip(l.bad[0]), map[string]any{"case": detail, "all": l.bad})
					}
					l.mu.Unlock()
					r.Case(fmt.Sprint(names, me, kind, l.cut, l.deadline.IsZero()), len(names) > 1)
					r.Sample(detail)
				}
			}()
		}
		wg.Wait()
	})
	if d := lifeLost.Load() - lost; d > 0 {
		r.Violate("context-lost", fmt.Sprintf("%d contexts do not carry the values of any request", d), nil)
	}
	c36Real(r)
}

// c36Real: over real connections the contexts end when the client leaves or
// the request does, and not before.
func c36Real(r *core.Run) {
	type lane struct {
		ts    *testServer
		names []string
		m     *gofre.MuxHandler
	}
	var reqs sync.Map // id -> *lifeReal
	note := func(id string, where string, ctx context.Context) {
		if v, ok := reqs.Load(id); ok {
			v.(*lifeReal).note(where, ctx)
		}
	}
	n := r.N(10, 120)
	for i := 0; i < n && !r.TooMany(); i++ {
		rng := r.Rand("life real", i)
		m, _ := newMux(false)
		var mws []middleware.Middleware
		names := []string{}
		for k := rng.Intn(5); k > 0; k-- {
			w := lifeMws[rng.Intn(len(lifeMws))]
			names = append(names, w.name)
			mws = append(mws, w.make(func(string, context.Context) {}))
		}
		m.CommonMiddlewares(mws...)
		m.HandleGet("/{what}/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			id, what := mc.PathVar("id"), mc.PathVar("what")
			note(id, "handler", ctx)
			note(id, "request", mc.R.Context())
			v, ok := reqs.Load(id)
			if !ok {
				return nil, errors.New("lost")
			}
			l := v.(*lifeReal)
			if what == "leave" { // the client leaves while the handler waits
				close(l.inside)
				l.over = l.wait(ctx)
				return response.PlainTextHttpResponseOK("left"), nil
			}
			return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
				l.alive("while the answer is written")
				if what == "write" {
					close(l.inside)
					l.over = l.wait(ctx)
				}
				_, err := io.WriteString(w, "ok "+id)
				return err
			}), nil
		})
		proto := pick(rng, []string{"h1", "h2", "h1tls"})
		ts := startServer(m, proto)
		var wg sync.WaitGroup
		for k := 0; k < 12; k++ {
			what := pick(rng, []string{"stay", "stay", "leave", "write"})
			id := fmt.Sprintf("%d-%d", i, k)
			l := &lifeReal{inside: make(chan bool), done: make(chan bool)}
			reqs.Store(id, l)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer reqs.Delete(id)
				detail := map[string]any{"middlewares": names, "proto": proto, "client": what}
				q := ts.req("GET", "/"+what+"/"+id, nil)
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				got := make(chan answer, 1)
				go func() { got <- ts.do(q.WithContext(ctx)) }()
				if what == "stay" {
					a := <-got
					if a.Err != nil {
						r.Count("dropped", 1)
						return
					}
					if a.Code != 200 || string(a.Body) != "ok "+id {
						l.add("answered " + fmt.Sprint(a.Code, " ", clip(string(a.Body))))
					}
				} else {
					select {
					case <-l.inside:
					case a := <-got:
						if a.Err != nil {
							r.Count("dropped", 1)
							return
						}
						l.add("answered before the handler waited: " + fmt.Sprint(a.Code))
						close(l.done)
					}
					l.alive("while the client waits")
					cancel()
					r.Count("clients that left", 1)
				}
				// whatever happened, the request ends and its contexts with it
				l.finish()
				l.mu.Lock()
				defer l.mu.Unlock()
				r.Count("real requests", 1)
				r.Case(fmt.Sprint("real", names, proto, what), true)
				if len(l.bad) > 0 {
					r.Violate("context-real:"+what, "a context does not end with its request: "+clip(l.bad[0]), map[string]any{"case": detail, "all": l.bad})
				}
			}()
		}
		wg.Wait()
		r.Begin("real %d", i)
		ts.stop()
	}
}

// lifeReal is what happens to the contexts of one real request.
type lifeReal struct {
	inside, done chan bool
	over         bool
	mu           sync.Mutex
	all          []context.Context
	seen         []string
	bad          []string
}

func (l *lifeReal) add(s string) {
	l.mu.Lock()
	l.bad = append(l.bad, s)
	l.mu.Unlock()
}

func (l *lifeReal) note(where string, ctx context.Context) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.all = append(l.all, ctx)
	l.seen = append(l.seen, where)
	if ctx.Value(http.ServerContextKey) == nil || ctx.Value(http.LocalAddrContextKey) == nil {
		l.bad = append(l.bad, where+": the server's values are missing")
	}
}

func (l *lifeReal) wait(ctx context.Context) bool {
	select {
	case <-ctx.Done():
		return true
	case <-time.After(30 * time.Second):
		l.add("handler: goes on although the client left long ago")
	}
	return false
}

func (l *lifeReal) alive(when string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for k, ctx := range l.all {
		if ctx.Err() != nil {
			l.bad = append(l.bad, l.seen[k]+": over "+when)
		}
	}
}

func (l *lifeReal) finish() {
	l.mu.Lock()
	all := append([]context.Context(nil), l.all...)
	l.mu.Unlock()
	if len(all) == 0 {
		l.add("the handler was not reached")
	}
	for _, ctx := range all {
		select {
		case <-ctx.Done():
		case <-time.After(40 * time.Second):
			l.add("a context goes on although the request is over")
			return
		}
	}
}

// ---- C35

// lifeToken is an object that only one request knows.
type lifeToken struct {
	fill [64]byte
	n    int
}

func (t *lifeToken) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint(t.n)), nil }
func (t *lifeToken) Read(p []byte) (int, error) {
	if t.n < 0 {
		return 0, io.EOF
	}
	t.n = -1
	return copy(p, "stream"), nil
}
func (t *lifeToken) Close() error  { return nil }
func (t *lifeToken) Error() string { return "token error" }

// lifeCensus counts the tokens of each sort that still exist.
type lifeCensus struct {
	mu   sync.Mutex
	made map[string]int
	gone map[string]int
}

func (c *lifeCensus) token(sort string) *lifeToken {
	t := &lifeToken{}
	c.mu.Lock()
	c.made[sort]++
	c.mu.Unlock()
	runtime.SetFinalizer(t, func(*lifeToken) {
		c.mu.Lock()
		c.gone[sort]++
		c.mu.Unlock()
	})
	return t
}

// watched counts an object of any type.
func watched[T any](c *lifeCensus, sort string, t *T) *T {
	c.mu.Lock()
	c.made[sort]++
	c.mu.Unlock()
	runtime.SetFinalizer(t, func(*T) {
		c.mu.Lock()
		c.gone[sort]++
		c.mu.Unlock()
	})
	return t
}

func (c *lifeCensus) left() map[string]int {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string]int{}
	for k, v := range c.made {
		out[k] = v - c.gone[k]
	}
	return out
}

var keepKinds = []string{"text", "json", "writer", "stream", "template", "adaptor", "sse", "error", "panic", "redirect", "notfound", "cookies", "vars", "nonce", "login", "brokenlogin"}

// runC35: objects that belong to one request can be collected after it, and
// the memory in use does not grow with the requests served.
func runC35(r *core.Run) {
	r.Rule("requests, each with its own path, query, headers, body and context value, are answered by every kind of response behind random chains of all the middlewares, some failing, panicking, refused, or with a writer that fails; finalizers on objects that only the request knows (context value, request body, payload, stream, template data, error, callback) show what is still kept after several garbage collections, and the live heap is compared before and after sending volumes far larger than it")
	r.Assume("up to a tenth of the objects of a sort may be kept (pools, last values); nonce caches that keep their keys are not part of it: the caches used here keep nothing")
	r.Require("objects collected", 20000)
	r.Require("sorts", 16)
	n := r.N(10, 150)
	for i := 0; i < n && !r.TooMany(); i++ {
		c35One(r, i)
	}
}

func c35One(r *core.Run, i int) {
	rng := r.Rand("keep", i)
	r.Begin("keep %d", i)
	ci := rng.Intn(2) == 0
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: ci, ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	var mws []middleware.Middleware
	names := []string{}
	none := func(string, context.Context) {}
	for k := rng.Intn(5); k > 0; k-- {
		w := lifeMws[rng.Intn(len(lifeMws))]
		names = append(names, w.name)
		mws = append(mws, w.make(none))
	}
	if i == 0 { // all of them at once
		mws, names = nil, nil
		for _, w := range lifeMws {
			mws, names = append(mws, w.make(none)), append(names, w.name)
		}
	}
	c := &lifeCensus{made: map[string]int{}, gone: map[string]int{}}
	// principals and permissions that only one request knows
	if i%2 == 0 {
		names = append(names, "own principal")
		mws = append(mws, middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			u := lifeUser().(*auth.User)
			watched(c, "principal", u)
			return u, nil
		}), middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
			ps := &[3]auth.Permission{{Scope: "a", Access: auth.AccessRead}, {Scope: "b", Access: auth.AccessRead}, {Scope: mc.R.URL.Path, Access: auth.AccessRead}}
			watched(c, "permissions", ps)
			return ps[:], nil
		}, rng.Intn(2) == 0))
	}
	m.CommonMiddlewares(mws...)
	route := func(kind string, h handler.Handler) {
		for _, p := range []string{"/" + kind + "/{id}", "/" + kind + "/{id:^[a-z0-9]+x$}/r", "/" + kind + "/a*/{id}/**/s"} {
			m.HandleGet(p, h)
			m.HandlePost(p, h)
		}
	}
	route("text", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
	})
	route("json", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.JsonHttpResponseOK(c.token("payload")), nil
	})
	route("writer", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t := c.token("callback")
		return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
			_, err := w.Write(t.fill[:])
			return err
		}), nil
	})
	route("stream", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.StreamHttpResponse("text/plain", c.token("stream")), nil
	})
	route("template", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.TemplateHttpResponseOK(&cfgTemplate{mark: "t"}, "n", c.token("template data")), nil
	})
	route("adaptor", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t := c.token("adapted")
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) { w.Write(t.fill[:]) }), nil
	})
	route("sse", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		t := c.token("generator")
		return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			ch := make(chan response.ServerSentEvent, 1)
			ch <- response.ServerSentEvent{Data: []string{fmt.Sprint(t.n)}}
			close(ch)
			return ch
		}), nil
	})
	route("error", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, c.token("error")
	})
	route("panic", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		panic(c.token("panic"))
	})
	route("redirect", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.RedirectHttpResponse(mc.R.URL.Path), nil
	})
	route("cookies", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		h := response.NewHttpHeaders()
		h["X-Path"] = mc.R.URL.Path
		return response.HtmlResponseWithHeadersAndCookies(200, "ok", h, response.NewHttpCookie(watched(c, "cookie", &http.Cookie{Name: "a", Value: mc.PathVar("id")}))), nil
	})
	route("vars", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		cl := mc.Clone()
		return response.PlainTextHttpResponseOK(cl.PathVar("id")), nil
	})
	route("nonce", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(middleware.GetCSRFNonceFromContext(ctx)), nil
	})
	login := func(base string, p *keepProvider) {
		m.HandleOAUTH2WithCustomPaths("/"+base+"/initiate", "/"+base+"/authorize", oauth.Config{WebsiteUrl: "http://x.test", FetchUserDetails: true,
			Providers: []oauth.Provider{p}, CacheConfig: oauth.CacheConfig{Cache: noCache{}, KeyExpirationTime: time.Minute}},
			func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return response.PlainTextHttpResponseOK(oauth.GetAccessTokenFromContext(ctx).AccessToken), nil
			}, nil, nil)
	}
	login("login", &keepProvider{})
	login("brokenlogin", &keepProvider{fail: true})
	type tk struct{}
	big := strings.Repeat("abcdefgh", 512) // 4 KiB
	serve := func(k int, long int) {
		kind := keepKinds[k%len(keepKinds)]
		// another text for each request
		word := fmt.Sprintf("k%dz%s", k, big[:long])
		target := "/" + kind + "/" + word
		switch rng.Intn(3) {
		case 0:
			target = "/" + kind + "/" + word + "x/r"
		case 1:
			target = "/" + kind + "/a" + word + "/" + word + "/" + word + "/s"
		}
		me := pick(rng, []string{"GET", "POST", "OPTIONS", "PUT"}[:2+rng.Intn(3)])
		if strings.HasSuffix(kind, "login") {
			me = "GET"
			target = pick(rng, []string{"/" + kind + "/initiate?x=" + word, "/" + kind + "/authorize/keep?state=" + word + "&code=" + word, "/" + kind + "/authorize/keep?error=" + word})
		} else {
			target += "?q=" + word
		}
		var body io.Reader
		if me == "POST" {
			body = c.token("body of " + kind)
		}
		q := httptest.NewRequest(me, target, body)
		q = q.WithContext(context.WithValue(q.Context(), tk{}, c.token("context value of "+kind)))
		q.Header.Set(middleware.CSRFRestNonceHeaderName, word)
		q.Header.Set("X-Own", word)
		q.Header.Set("Cookie", "c="+word)
		q.Header.Set("User-Agent", word)
		q.Header.Set("Last-Event-ID", word)
		if rng.Intn(2) == 0 {
			q.Header.Set("Accept-Encoding", pick(rng, []string{"gzip", "deflate", word}))
		}
		if rng.Intn(3) == 0 {
			q.Header.Set("Origin", "https://"+word[:20]+fmt.Sprint(k)+".test")
		}
		q.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:99", k>>16&255, k>>8&255, k&255)
		q.Host = fmt.Sprintf("h%d.test", k)
		if kind == "sse" && rng.Intn(3) > 0 {
			q.ProtoMajor, q.ProtoMinor, q.Proto = 2, 0, "HTTP/2.0"
		}
		var w http.ResponseWriter = httptest.NewRecorder()
		if rng.Intn(8) == 0 {
			w = &endWriter{httptest.NewRecorder(), rng.Intn(2)}
		}
		core.Guard(func() { m.ServeHTTP(w, q) })
		r.Seen("sorts", kind)
	}
	live := func() uint64 {
		var ms runtime.MemStats
		for k := 0; k < 3; k++ {
			runtime.GC()
			time.Sleep(2 * time.Millisecond)
		}
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc + uint64(runtime.NumGoroutine())<<13 // and what a goroutine takes
	}
	for k := 0; k < 300; k++ {
		serve(k, 100)
	}
	const per = 250
	num := 100000
	for ki, kind := range keepKinds {
		for round := 0; ; round++ {
			before := live()
			for k := 0; k < per; k++ {
				num++
				serve(num*len(keepKinds)+ki, 4000)
			}
			r.Begin("keep %d %s", i, kind)
			// compressors and recorders are garbage as well
			var grown int64
			for try := 0; try < 20; try++ {
				if grown = int64(live()) - int64(before); grown < per<<10 {
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			// each request brought more than 20 KiB of text
			if grown < per<<10 {
				break
			}
			if round == 3 { // again and again
				r.Violate("memory:"+kind, fmt.Sprintf("the memory in use grows with the requests served (%s): %d bytes for %d requests", kind, grown, per), map[string]any{"middlewares": names})
				break
			}
		}
	}
	var worst string
	left := map[string]int{}
	for try := 0; try < 50; try++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
		left, worst = c.left(), ""
		for k, v := range left {
			if v > c.made[k]/10+20 {
				worst = k
			}
		}
		if worst == "" {
			break
		}
	}
	if worst != "" {
		r.Violate("kept:"+worst, fmt.Sprintf("of %d objects (%s) that belonged to finished requests %d are still kept", c.made[worst], worst, left[worst]), map[string]any{"middlewares": names, "left": left})
	}
	for k, v := range c.made {
		r.Count("objects collected", int64(v-left[k]))
		r.Case(fmt.Sprint(k, names), true)
		r.Seen("objects", k)
	}
	runtime.KeepAlive(m)
	runtime.KeepAlive(mws)
}

// keepProvider is a login provider that answers something else each time.
type keepProvider struct {
	fail bool
	n    atomic.Int64
}

func (p *keepProvider) Name() string                           { return "keep" }
func (p *keepProvider) InitiateUrl(a, b string, c bool) string { return "/go?" + b }
func (p *keepProvider) FetchAccessToken(ctx context.Context, r string, c string) (oauth.AccessToken, error) {
	if p.fail && p.n.Add(1)%2 == 0 {
		return oauth.AccessToken{}, errors.New("refused " + c)
	}
	return oauth.AccessToken{AccessToken: c, TokenType: "Bearer"}, nil
}
func (p *keepProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	if p.fail {
		return auth.User{}, errors.New("refused " + t.AccessToken)
	}
	return auth.User{Id: t.AccessToken}, nil
}
