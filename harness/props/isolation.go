package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C08", true, runC08)
	register("C09", true, runC09)
}

// rendezvous makes k requests be inside their handlers at the same time.
// Nobody waits for ever: a party that is alone is let go after a while, which
// costs overlap but decides nothing.
type rendezvous struct {
	mu      sync.Mutex
	waiting int
	k       int
	gen     chan struct{}
	met     atomic.Int64
	lonely  atomic.Int64
}

func newRendezvous(k int) *rendezvous { return &rendezvous{k: k, gen: make(chan struct{})} }

func (z *rendezvous) meet() {
	z.mu.Lock()
	z.waiting++
	if z.waiting == z.k {
		z.waiting = 0
		close(z.gen)
		z.gen = make(chan struct{})
		z.met.Add(1)
		z.mu.Unlock()
		return
	}
	g := z.gen
	z.mu.Unlock()
	t := time.NewTimer(3 * time.Millisecond)
	defer t.Stop()
	select {
	case <-g:
	case <-t.C:
		z.mu.Lock()
		select {
		case <-g:
		default:
			z.waiting--
		}
		z.mu.Unlock()
		z.lonely.Add(1)
	}
}

type tokKey struct{}

// want is what a request must see, whatever else is going on.
type want struct {
	tok   string
	route string
	vars  map[string]string
	req   *http.Request
	ran   atomic.Int64
	bad   atomic.Pointer[string]
}

func (w *want) check(where string, mc path.MatchingContext) {
	if mc.R != w.req && (mc.R == nil || mc.R.URL != w.req.URL) {
		s := where + ": another request in the matching context"
		w.bad.CompareAndSwap(nil, &s)
		return
	}
	for n, v := range w.vars {
		if g := mc.PathVar(n); g != v {
			s := fmt.Sprintf("%s: variable %q is %q, want %q", where, n, clip(g), clip(v))
			w.bad.CompareAndSwap(nil, &s)
			return
		}
	}
}

var errBoom = errors.New("boom")

// isoMux builds a mux whose handlers read their variables again and again.
func isoMux(z *rendezvous) (*gofre.MuxHandler, *errLog) {
	m, l := newMux(false)
	observe := func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			w, ok := mc.R.Context().Value(tokKey{}).(*want)
			if !ok {
				return next(ctx, mc)
			}
			w.check("middleware before", mc)
			resp, err := next(ctx, mc)
			w.check("middleware after", mc)
			return resp, err
		}
	}
	m.CommonMiddlewares(observe)
	work := func(route string, out func(mc path.MatchingContext, w *want) (response.HttpResponse, error)) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			w, ok := mc.R.Context().Value(tokKey{}).(*want)
			if !ok {
				return response.PlainTextHttpResponseOK("no token"), nil
			}
			w.ran.Add(1)
			if w.route != route {
				s := "served by " + route + " instead of " + w.route
				w.bad.CompareAndSwap(nil, &s)
			}
			w.check("handler start", mc)
			z.meet()
			w.check("handler after meeting", mc)
			for k := 0; k < 3; k++ {
				runtime.Gosched()
				w.check("handler again", mc)
			}
			return out(mc, w)
		}
	}
	text := func(mc path.MatchingContext, w *want) (response.HttpResponse, error) {
		// the body is produced while writing, long after the handler returned
		return response.RawWriterHttpResponse("text/plain", func(wr io.Writer) error {
			w.check("while writing", mc)
			runtime.Gosched()
			w.check("while writing, later", mc)
			_, err := io.WriteString(wr, w.tok)
			return err
		}), nil
	}
	fail := func(mc path.MatchingContext, w *want) (response.HttpResponse, error) { return nil, errBoom }
	boom := func(mc path.MatchingContext, w *want) (response.HttpResponse, error) { panic("boom " + w.tok) }
	m.HandleGet("/one/{a}", work("one", text))
	m.HandleGet("/two/{a}/{b:^t[0-9]+-[0-9]+.*$}", work("two", text))
	m.HandleGet("/two/{a}/x/{c}", work("twox", text))
	m.HandleGet("/g/**/{a}/end", work("g", text))
	m.HandleGet("/g/**/mid/**/{a}", work("gmid", text))
	m.HandlePost("/one/{a}", work("pone", text))
	deep := ""
	for k := 0; k < 19; k++ {
		deep += fmt.Sprintf("/{d%d}", k)
	}
	m.HandleGet(deep, work("deep", text))
	m.HandleGet("/err/{a}/{b}", work("err", fail))
	m.HandleGet("/panic/{a}/{b}/{c}", work("panic", boom))
	m.HandleGet("/rec/{a}", work("rec", boom), middleware.ErrJsonResponse(), middleware.PanicRecover())
	// a handler that serves another request through the same mux
	m.HandleGet("/nest/{a}/{b}", work("nest", func(mc path.MatchingContext, w *want) (response.HttpResponse, error) {
		inner := &want{tok: w.tok + "i", route: "one", vars: map[string]string{"a": w.tok + "i", "b": ""}}
		req := isoReq("GET", "/one/"+w.tok+"i", inner)
		nw := &nullWriter{h: http.Header{}}
		m.ServeHTTP(nw, req)
		if b := inner.bad.Load(); b != nil {
			s := "nested request: " + *b
			w.bad.CompareAndSwap(nil, &s)
		}
		if inner.ran.Load() != 1 {
			s := fmt.Sprintf("nested request ran %d times", inner.ran.Load())
			w.bad.CompareAndSwap(nil, &s)
		}
		w.check("after nested request", mc)
		return text(mc, w)
	}))
	return m, l
}

func isoReq(method, p string, w *want) *http.Request {
	req := (&http.Request{Method: method, URL: &url.URL{Path: p}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "x.test"}).
		WithContext(context.WithValue(context.Background(), tokKey{}, w))
	noise(req.Header, method, p)
	w.req = req
	return req
}

// isoCase makes one request with its expectations.
func isoCase(rng *rand.Rand, tok string) (method, p string, w *want, code int) {
	w = &want{tok: tok, vars: map[string]string{}}
	v := func(n string) string {
		val := tok + n + strings.Repeat("y", rng.Intn(12))
		w.vars[n] = val
		return val
	}
	method, code = "GET", 200
	switch rng.Intn(13) {
	case 0, 1:
		w.route = "one"
		p = "/one/" + v("a")
		w.vars["b"] = ""
	case 2:
		w.route = "two"
		p = "/two/" + v("a") + "/" + v("b")
	case 3:
		w.route = "twox"
		p = "/two/" + v("a") + "/x/" + v("c")
		w.vars["b"] = ""
	case 4:
		w.route = "g"
		mid := strings.Repeat("/q", rng.Intn(14))
		p = "/g" + mid + "/" + v("a") + "/end"
	case 5:
		w.route = "gmid"
		p = "/g" + strings.Repeat("/q", rng.Intn(6)) + "/mid" + strings.Repeat("/r", rng.Intn(6)) + "/" + v("a")
	case 6:
		w.route = "pone"
		method = "POST"
		p = "/one/" + v("a")
	case 7:
		w.route = "deep"
		for k := 0; k < 19; k++ {
			p += "/" + v(fmt.Sprintf("d%d", k))
		}
	case 8:
		w.route, code = "err", 500
		p = "/err/" + v("a") + "/" + v("b")
	case 9:
		w.route, code = "panic", 0
		p = "/panic/" + v("a") + "/" + v("b") + "/" + v("c")
	case 10:
		w.route, code = "rec", 500
		p = "/rec/" + v("a")
	case 11:
		w.route = "nest"
		p = "/nest/" + v("a") + "/" + v("b")
	default:
		w.route, code = "", 404
		p = pick(rng, []string{"/none/" + tok, strings.Repeat("/"+tok, 20), strings.Repeat("/"+tok, 18) + "/a/b/c", "/two/" + tok, "/", "/one/a/b/" + tok})
	}
	if rng.Intn(8) == 0 {
		p = strings.Replace(p, "/", "//", 1)
	}
	if rng.Intn(12) == 0 && code != 404 && w.route != "deep" {
		p = "/junk/.." + p
	}
	return
}

type bodyWriter struct {
	nullWriter
	b strings.Builder
}

func (w *bodyWriter) Write(b []byte) (int, error) {
	w.nullWriter.Write(b)
	return w.b.Write(b)
}

func runC08(r *core.Run) {
	r.Rule("goroutines send tagged requests (matched at many depths, 404, errors, panics with and without recovery, nested requests, bodies produced after the handler returned) through shared muxes; " +
		"handlers meet at rendezvous points so that several requests are in flight at once and re-read their variables; built with the race detector. " +
		"A case is one request; non-trivial when it was matched and read variables while others were in flight")
	r.Require("requests_met_in_handlers", 300)
	r.Require("matched", 5000)
	r.Require("panicked", 100)
	rounds := r.N(24, 240)
	var matched, panicked, notfound, met atomic.Int64
	for round := 0; round < rounds && !r.TooMany(); round++ {
		r.Begin("round %d", round)
		g := []int{2, 4, 8, 16, 32}[round%5]
		z := newRendezvous(2 + round%4)
		m, _ := isoMux(z)
		m2, _ := isoMux(z)
		var ts *testServer
		if round%6 == 5 {
			ts = startServer(m, "h1")
		}
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := r.Rand("c08", round*1000+k)
				for q := 0; q < 600/g+10; q++ {
					tok := fmt.Sprintf("t%d-%d", k, q)
					method, p, w, code := isoCase(rng, tok)
					var srv server = m
					if rng.Intn(5) == 0 {
						srv = m2
					}
					bw := &bodyWriter{nullWriter: nullWriter{h: http.Header{}}}
					pan, st := core.Guard(func() { srv.ServeHTTP(bw, isoReq(method, p, w)) })
					det := func() any {
						return map[string]any{"round": round, "goroutines": g, "request": method + " " + clip(p), "route": w.route, "status": bw.code, "runs": w.ran.Load(), "panic": fmt.Sprint(pan), "stack": st}
					}
					r.Case(fmt.Sprintf("%d|%d|%d", round, k, q), w.route != "")
					if b := w.bad.Load(); b != nil {
						r.Violate("mixed", "a request saw routing data that is not its own: "+*b, det())
					}
					if w.route == "" {
						notfound.Add(1)
						if pan != nil || w.ran.Load() != 0 || bw.code != 404 {
							r.Violate("notfound", "an unmatched request was not answered 404 under concurrency", det())
						}
						continue
					}
					matched.Add(1)
					if w.route == "panic" {
						panicked.Add(1)
						if pan == nil || !strings.Contains(fmt.Sprint(pan), "boom "+tok) {
							r.Violate("panic-lost", "the panic of a handler was lost or belongs to another request", det())
						}
					} else if pan != nil {
						r.Violate("panic", fmt.Sprintf("panic: %v", pan), det())
						continue
					}
					if w.ran.Load() != 1 {
						r.Violate("runs", "a matched request did not run its handler exactly once", det())
					}
					if code != 0 && bw.code != code {
						r.Violate("status", "a request got the status of another outcome", det())
					}
					if code == 200 && bw.b.String() != tok {
						r.Violate("body", "a request got the body of another one: "+clip(bw.b.String()), det())
					}
				}
			}()
		}
		if ts != nil {
			for k := 0; k < 6; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					for q := 0; q < 40; q++ {
						a := ts.get(fmt.Sprintf("/one/h%d-%d", k, q))
						if a.Err == nil && (a.Code != 200 || string(a.Body) != "no token") {
							r.Violate("http", "a request over HTTP got a wrong answer under concurrency", map[string]any{"code": a.Code, "body": clip(string(a.Body))})
						}
					}
				}()
			}
		}
		wg.Wait()
		if ts != nil {
			ts.stop()
		}
		met.Add(z.met.Load())
	}
	r.Count("matched", matched.Load())
	r.Count("panicked", panicked.Load())
	r.Count("notfound", notfound.Load())
	r.Count("requests_met_in_handlers", met.Load())
	historyReuse(r)
}

// historyReuse: one goroutine, so that the very next request reuses the buffer
// of the previous one; every pair of outcomes follows each other.
func historyReuse(r *core.Run) {
	z := newRendezvous(1)
	m, _ := isoMux(z)
	rng := r.Rand("c08h", 0)
	n := r.N(20000, 200000)
	prev := ""
	for i := 0; i < n && !r.TooMany(); i++ {
		tok := fmt.Sprintf("t9-%d", i)
		method, p, w, code := isoCase(rng, tok)
		bw := &bodyWriter{nullWriter: nullWriter{h: http.Header{}}}
		core.Guard(func() { m.ServeHTTP(bw, isoReq(method, p, w)) })
		cur := w.route
		r.Seen("outcome_pairs", prev+">"+cur)
		if b := w.bad.Load(); b != nil {
			r.Violate("mixed-history", "after "+prev+": "+*b, map[string]any{"request": method + " " + clip(p)})
		}
		if (w.route == "") != (w.ran.Load() == 0) || code != 0 && bw.code != code || code == 200 && bw.b.String() != tok {
			r.Violate("history", "the outcome of a request depends on the requests before it", map[string]any{"before": prev, "request": method + " " + clip(p),
				"route": w.route, "runs": w.ran.Load(), "status": bw.code, "body": clip(bw.b.String())})
		}
		r.Case(prev+">"+cur+fmt.Sprint(i), cur != "")
		prev = cur
	}
	r.Require("outcome_pairs", 100)
}

// ---- C09 ----

type kept struct {
	mc   path.MatchingContext
	want map[string]string
	url  string
	tok  string
}

func (k *kept) check() string {
	if k.mc.R == nil || k.mc.R.URL == nil || k.mc.R.URL.Path != k.url {
		return "the clone reports another request"
	}
	for n, v := range k.want {
		if g := k.mc.PathVar(n); g != v {
			return fmt.Sprintf("variable %q of the clone is %q, want %q", n, clip(g), clip(v))
		}
	}
	return ""
}

func runC09(r *core.Run) {
	r.Rule("handlers and middlewares keep clones (and clones of clones) of their matching context; thousands of later requests reuse the buffers while other goroutines keep re-reading the clones; some clones are deliberately reset. " +
		"A case is one clone; non-trivial when later requests with other paths were served before its last check")
	r.Require("clones", 3000)
	r.Require("later_checks", 20000)
	rounds := r.N(12, 120)
	for round := 0; round < rounds && !r.TooMany(); round++ {
		r.Begin("round %d", round)
		var mu sync.Mutex
		var all []*kept
		keep := func(k *kept) {
			mu.Lock()
			all = append(all, k)
			mu.Unlock()
		}
		m, _ := newMux(round%3 == 2)
		cloneMw := func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				w, _ := mc.R.Context().Value(tokKey{}).(*want)
				if w == nil {
					return next(ctx, mc)
				}
				c1 := mc.Clone()
				keep(&kept{c1, w.vars, mc.R.URL.Path, w.tok})
				resp, err := next(ctx, c1) // the handler works on the clone
				c2 := mc.Clone()
				keep(&kept{c2, w.vars, mc.R.URL.Path, w.tok})
				w.check("original after cloning", mc)
				return resp, err
			}
		}
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			w, _ := mc.R.Context().Value(tokKey{}).(*want)
			if w == nil {
				return response.PlainTextHttpResponseOK("ok"), nil
			}
			w.ran.Add(1)
			w.check("handler", mc)
			c := mc.Clone()
			cc := c.Clone()
			victim := mc.Clone()
			for k := range victim.PathSegments {
				victim.PathSegments[k].Reset()
			}
			w.check("original after resetting a clone", mc)
			keep(&kept{c, w.vars, mc.R.URL.Path, w.tok})
			keep(&kept{cc, w.vars, mc.R.URL.Path, w.tok})
			// a clone taken where the address of the request was rewritten
			rw := mc
			rw.R = mc.R.Clone(ctx)
			rw.R.URL.Path = "/elsewhere"
			keep(&kept{rw.Clone(), w.vars, "/elsewhere", w.tok})
			// a clone used by a goroutine that outlives the request
			k := &kept{mc.Clone(), w.vars, mc.R.URL.Path, w.tok}
			keep(k)
			go func() {
				for q := 0; q < 5; q++ {
					if bad := k.check(); bad != "" {
						r.Violate("clone-goroutine", bad, map[string]any{"path": clip(k.url)})
					}
					runtime.Gosched()
				}
			}()
			if strings.HasSuffix(w.tok, "3") {
				return nil, errBoom
			}
			if strings.HasSuffix(w.tok, "7") {
				panic("boom")
			}
			return response.PlainTextHttpResponseOK("ok"), nil
		}
		for i, p := range []string{"/one/{a}", "/two/{a}/{b:^t}", "/two/{a}/x/{c}", "/g/**/{a}/end", "/g/**/mid/**/{a}", "/{d0}/{d1}/{d2}/{d3}/{d4}/{d5}/{d6}/{d7}/{d8}/{d9}/{d10}/{d11}/{d12}/{d13}/{d14}/{d15}/{d16}/{d17}/{d18}",
			"/w/{a}/p*/{b}/*/{c}", "/lit", "/"} {
			if i%2 == 0 {
				m.HandleGet(p, h, cloneMw)
			} else {
				m.HandleGet(p, h)
			}
		}
		stop := make(chan struct{})
		var checkers sync.WaitGroup
		var later atomic.Int64
		for c := 0; c < 3; c++ {
			c := c
			checkers.Add(1)
			go func() {
				defer checkers.Done()
				rng := rand.New(rand.NewSource(int64(c)))
				for {
					select {
					case <-stop:
						return
					default:
					}
					mu.Lock()
					var k *kept
					if len(all) > 0 {
						k = all[rng.Intn(len(all))]
					}
					mu.Unlock()
					if k != nil {
						if bad := k.check(); bad != "" {
							r.Violate("clone-later", bad, map[string]any{"path": clip(k.url)})
						}
						later.Add(1)
					}
					runtime.Gosched()
				}
			}()
		}
		g := 1 + round%6
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := r.Rand("c09", round*100+k)
				for q := 0; q < 900/g; q++ {
					tok := fmt.Sprintf("t%d-%d", k, q)
					w := &want{tok: tok, vars: map[string]string{"nope": ""}}
					v := func(n string) string {
						val := tok + n + strings.Repeat("z", rng.Intn(9))
						w.vars[n] = val
						return val
					}
					var p string
					switch rng.Intn(9) {
					case 0:
						p = "/one/" + v("a")
					case 1:
						p = "/two/" + v("a") + "/" + v("b")
					case 2:
						p = "/two/" + v("a") + "/x/" + v("c")
					case 3:
						p = "/g" + strings.Repeat("/q", rng.Intn(15)) + "/" + v("a") + "/end"
					case 4:
						p = "/g/mid" + strings.Repeat("/q", rng.Intn(12)) + "/" + v("a")
					case 5:
						for d := 0; d < 19; d++ {
							p += "/" + v(fmt.Sprintf("d%d", d))
						}
					case 6:
						p = "/w/" + v("a") + "/pp/" + v("b") + "/any/" + v("c")
					case 7:
						p = "/lit"
					default:
						p = "/"
					}
					bw := &nullWriter{h: http.Header{}}
					core.Guard(func() { m.ServeHTTP(bw, isoReq("GET", p, w)) })
					if b := w.bad.Load(); b != nil {
						r.Violate("original", *b, map[string]any{"path": clip(p)})
					}
					if w.ran.Load() != 1 {
						r.Violate("runs", "a matched request did not run its handler exactly once", map[string]any{"path": clip(p), "runs": w.ran.Load()})
					}
				}
			}()
		}
		wg.Wait()
		// everything once more at the end, when all requests are over
		for i, k := range all {
			if bad := k.check(); bad != "" {
				r.Violate("clone-end", bad, map[string]any{"path": clip(k.url)})
			}
			later.Add(1)
			r.Case(fmt.Sprintf("%d|%d|%s", round, i, k.url), i < len(all)-10 && len(k.want) > 1)
		}
		close(stop)
		checkers.Wait()
		r.Count("clones", int64(len(all)))
		r.Count("later_checks", later.Load())
	}
}
