package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

// endWriter fails from a given write on.
type endWriter struct {
	*httptest.ResponseRecorder
	left int
}

func (w *endWriter) Write(p []byte) (int, error) {
	if w.left--; w.left < 0 {
		return 0, errors.New("client gone")
	}
	return w.ResponseRecorder.Write(p)
}

type blowReader struct{}

func (blowReader) Read([]byte) (int, error) { panic("read") }

type blowJson struct{}

func (blowJson) MarshalJSON() ([]byte, error) { panic("marshal") }

type endKind struct {
	name, method, target string
	header               map[string]string
	h2                   bool
	cancel               bool // the client leaves at once
	writes               int  // -1: no failure
	panics               bool
	code                 int
	body                 string
}

// c32Endurance: tens of thousands of requests that end badly must not use
// anything up: all is as before afterwards.
func c32Endurance(r *core.Run) {
	el := &errLog{}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) {
		if strings.Contains(err.Error(), "unloggable") {
			panic("log")
		}
		el.log(err)
	}})
	if err != nil {
		panic(err)
	}
	get := func(p string, f func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error), mw ...middleware.Middleware) {
		for _, me := range []string{"GET", "POST", "OPTIONS"} {
			m.HandleRequest(me, p, f, mw...)
		}
	}
	ok := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		h := response.NewHttpHeaders()
		h["X-One"] = mc.PathVar("id")
		c := response.NewHttpCookie(&http.Cookie{Name: "c", Value: "v"})
		return response.HtmlResponseWithHeadersAndCookies(200, "ok "+mc.PathVar("id"), h, c), nil
	}
	fail := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, errors.New("fails")
	}
	blow := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { panic("blows") }
	get("/ok/{id}", ok)
	get("/fail/{id}", fail)
	get("/panic/{id}", blow)
	get("/unloggable/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, errors.New("unloggable")
	})
	// what the application supplies may panic too
	get("/supplier/{id}", fail, middleware.ErrResponse(func(c int, err error) response.HttpResponse { panic("supplier") }))
	get("/undumpable/{id}", ok, middleware.RequestDumper(func(string) { panic("dump") }))
	get("/provider/{id}", ok, middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) { panic("provider") }))
	get("/unreadable/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.StreamHttpResponse("text/plain", blowReader{}), nil
	}, middleware.CompressResponse(4))
	get("/unmarshal/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.JsonHttpResponseOK(blowJson{}), nil
	})
	get("/generator/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.SSEHttpResponse(func(context.Context, string) <-chan response.ServerSentEvent { panic("generator") }), nil
	})
	get("/recovered/{id}", blow, middleware.PanicRecover())
	get("/writing/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) { panic("while writing") }), nil
	})
	get("/packed/{id}", ok, middleware.CompressResponse(4))
	get("/packedpanic/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) { w.Write([]byte("part")); panic("while writing") }), nil
	}, middleware.CompressResponse(4))
	get("/cors/{id}", ok, middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}, AllowedHttpMethods: []string{"GET"}}))
	get("/secure/{id}", ok, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true, BlockContentSniffingEnabled: true}))
	get("/csrf/{id}", ok, middleware.CSRFPrevention(cache.NewInMemory()))
	get("/authz/{id}", ok, middleware.ErrJsonResponse(), middleware.AuthorizeAll(auth.Permission{Scope: "a", Access: auth.AccessRead}))
	get("/dump/{id}", ok, middleware.RequestDumper(func(string) {}))
	get("/dumppanic/{id}", blow, middleware.RequestDumper(func(string) {}))
	get("/json/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.JsonHttpResponseOK(make(chan int)), nil
	})
	get("/tpl/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.TemplateHttpResponseOK(&cfgTemplate{mark: "t"}, "n", mc.PathVar("id")), nil
	})
	get("/stream/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.StreamHttpResponse("text/plain", strings.NewReader("stream")), nil
	})
	get("/away/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.RedirectHttpResponse("/to"), nil
	})
	get("/sse/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			c := make(chan response.ServerSentEvent)
			go func() {
				defer close(c)
				for k := 0; k < 3; k++ {
					select {
					case c <- response.ServerSentEvent{Data: []string{"x"}}:
					case <-ctx.Done():
						return
					}
				}
			}()
			return c
		}), nil
	})
	kinds := []endKind{
		{name: "fine", target: "/ok/1", writes: -1}, {name: "error", target: "/fail/1", writes: -1}, {name: "panic", target: "/panic/1", panics: true, writes: -1},
		{name: "log panics", target: "/unloggable/1", panics: true, writes: -1}, {name: "supplier panics", target: "/supplier/1", panics: true, writes: -1},
		{name: "dump log panics", target: "/undumpable/1", panics: true, writes: -1}, {name: "provider panics", target: "/provider/1", panics: true, writes: -1},
		{name: "packed, reader panics", target: "/unreadable/1", header: map[string]string{"Accept-Encoding": "gzip"}, panics: true, writes: -1},
		{name: "reader panics", target: "/unreadable/1", panics: true, writes: -1}, {name: "marshaller panics", target: "/unmarshal/1", panics: true, writes: -1},
		{name: "generator panics", target: "/generator/1", h2: true, panics: true, writes: -1},
		{name: "recovered", target: "/recovered/1", writes: -1}, {name: "panic while writing", target: "/writing/1", panics: true, writes: -1},
		{name: "packed", target: "/packed/1", header: map[string]string{"Accept-Encoding": "gzip"}, writes: -1},
		{name: "packed, broken", target: "/packed/1", header: map[string]string{"Accept-Encoding": "gzip"}, writes: 0},
		{name: "packed, deflate, broken", target: "/packed/1", header: map[string]string{"Accept-Encoding": "deflate"}, writes: 1},
		{name: "packed, panic", target: "/packedpanic/1", header: map[string]string{"Accept-Encoding": "gzip"}, panics: true, writes: -1},
		{name: "broken", target: "/ok/1", writes: 0}, {name: "stream, broken", target: "/stream/1", writes: 0}, {name: "template, broken", target: "/tpl/1", writes: 0},
		{name: "stream", target: "/stream/1", writes: -1}, {name: "template", target: "/tpl/1", writes: -1}, {name: "redirect", target: "/away/1", writes: -1}, {name: "secure", target: "/secure/1", writes: -1},
		{name: "origin refused", target: "/cors/1", header: map[string]string{"Origin": "https://evil.test"}, writes: -1},
		{name: "origin accepted", target: "/cors/1", header: map[string]string{"Origin": "https://a.test"}, writes: -1},
		{name: "nonce refused", method: "POST", target: "/csrf/1", writes: -1}, {name: "not authorized", target: "/authz/1", writes: -1},
		{name: "dump", target: "/dump/1", writes: -1}, {name: "dump, panic", target: "/dumppanic/1", panics: true, writes: -1}, {name: "unencodable", target: "/json/1", writes: -1},
		{name: "events refused", target: "/sse/1", writes: -1}, {name: "events", target: "/sse/1", h2: true, writes: -1}, {name: "events, client gone", target: "/sse/1", h2: true, cancel: true, writes: -1},
		{name: "cancelled", target: "/ok/1", cancel: true, writes: -1},
		{name: "not found", target: "/none/1", writes: -1}, {name: "method", method: "BREW", target: "/ok/1", writes: -1}, {name: "long", target: strings.Repeat("/a", 400), writes: -1}, {name: "nineteen", target: strings.Repeat("/a", 19), writes: -1},
	}
	once := func(k *endKind) (string, bool) {
		me := k.method
		if me == "" {
			me = "GET"
		}
		q := httptest.NewRequest(me, k.target, nil)
		for a, b := range k.header {
			q.Header.Set(a, b)
		}
		if k.h2 {
			q.ProtoMajor, q.ProtoMinor, q.Proto = 2, 0, "HTTP/2.0"
		}
		if k.cancel {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			q = q.WithContext(ctx)
		}
		rec := httptest.NewRecorder()
		var w http.ResponseWriter = rec
		if k.writes >= 0 {
			w = &endWriter{rec, k.writes}
		}
		p, _ := core.Guard(func() { m.ServeHTTP(w, q) })
		return fmt.Sprint(rec.Code, rec.Header(), rec.Body.String(), p), p != nil
	}
	// what an answer is, apart from what is random by design
	stable := func(k *endKind, s string) string {
		if k.name == "nonce refused" || strings.HasPrefix(k.name, "events") && k.cancel {
			return ""
		}
		return s
	}
	before := map[string]string{}
	for k := range kinds {
		got, panicked := once(&kinds[k])
		before[kinds[k].name] = stable(&kinds[k], got)
		if panicked != kinds[k].panics {
			r.Violate("endurance-panic:"+kinds[k].name, "a request panics, or does not although its handler does: "+clip(got), nil)
			return
		}
	}
	el.take()
	time.Sleep(50 * time.Millisecond)
	routines := runtime.NumGoroutine()
	per := r.N(6000, 60000)
	var wg sync.WaitGroup
	for g := 0; g < len(kinds); g++ {
		wg.Add(1)
		go func(k *endKind) {
			defer wg.Done()
			per := per
			if strings.HasPrefix(k.name, "packed") {
				per /= 20 // compressors are large
			}
			for n := 0; n < per; n++ {
				got, _ := once(k)
				if s := stable(k, got); s != before[k.name] {
					r.Violate("endurance:"+k.name, "the same request is answered differently after many others: "+clip(s), map[string]any{"before": clip(before[k.name]), "repetition": n})
					return
				}
				if n%100 == 0 {
					r.Begin("endurance %s %d", k.name, n)
					el.take()
				}
			}
			r.Count("endured", int64(per))
			r.Case("endured "+k.name, true)
		}(&kinds[g])
	}
	wg.Wait()
	for k := range kinds {
		got, _ := once(&kinds[k])
		if s := stable(&kinds[k], got); s != before[kinds[k].name] {
			r.Violate("endurance:"+kinds[k].name, "the same request is answered differently afterwards: "+clip(s), map[string]any{"before": clip(before[kinds[k].name])})
		}
	}
	left := 0
	for k := 0; k < 100; k++ {
		if left = runtime.NumGoroutine() - routines; left <= 0 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if left > 20 {
		buf := make([]byte, 1<<16)
		r.Violate("endurance-goroutines", fmt.Sprintf("%d goroutines stay behind", left), map[string]any{"stacks": clip(string(buf[:runtime.Stack(buf, true)]))})
	}
}

// c32Parked: thousands of requests that take their time do not keep others
// from being answered.
func c32Parked(r *core.Run) {
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	if err != nil {
		panic(err)
	}
	stop := make(chan bool)
	var inside sync.WaitGroup
	park := func() {
		inside.Done()
		<-stop
	}
	text := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
	}
	pass := func(h handler.Handler) handler.Handler { return h }
	secured := middleware.AuthorizeAll(auth.Permission{Scope: "a", Access: auth.AccessRead})
	mws := map[string]middleware.Middleware{"plain": pass, "packed": middleware.CompressResponse(1), "recover": middleware.PanicRecover(), "dump": middleware.RequestDumper(func(string) {}),
		"json": middleware.ErrJsonResponse(), "csrf": middleware.CSRFPrevention(cache.NewInMemory()), "secure": middleware.SecurityHeaders(middleware.SecurityHeadersConfig{}),
		"cors": middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true}), "authz": secured}
	m.CommonMiddlewares(middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) {
		return &auth.User{Id: "u", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{auth.AllPermissions()}}}}}}, nil
	}))
	var names []string
	for name, mw := range mws {
		names = append(names, name)
		m.HandleGet("/"+name+"/fast/{id}", text, mw)
		m.HandleGet("/"+name+"/slow/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			park()
			return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
		}, mw)
		m.HandleGet("/"+name+"/body/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			id := mc.PathVar("id")
			return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
				park()
				_, err := w.Write([]byte(id))
				return err
			}), nil
		}, mw)
		m.HandleGet("/"+name+"/std/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			id := mc.PathVar("id")
			return response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) {
				park()
				w.Write([]byte(id))
			}), nil
		}, mw)
	}
	sort.Strings(names)
	ask := func(target string) string {
		q := httptest.NewRequest("GET", target, nil)
		rec := httptest.NewRecorder()
		p, _ := core.Guard(func() { m.ServeHTTP(rec, q) })
		if p != nil {
			return fmt.Sprint("panic ", p)
		}
		return fmt.Sprint(rec.Code, " ", rec.Body.String())
	}
	per := r.N(60, 200) // 1600 or more at the same time
	var done sync.WaitGroup
	var bad sync.Map
	for _, name := range names {
		for _, kind := range []string{"slow", "body", "std"} {
			for k := 0; k < per; k++ {
				target, want := fmt.Sprintf("/%s/%s/%d", name, kind, k), fmt.Sprintf("200 %d", k)
				inside.Add(1)
				done.Add(1)
				go func() {
					defer done.Done()
					if got := ask(target); got != want {
						bad.Store(target, got)
					}
				}()
			}
		}
	}
	wait := func(what string, f func()) bool {
		ok := make(chan bool)
		go func() { f(); close(ok) }()
		for k := 0; k < 60; k++ {
			r.Begin("parked %s %d", what, k)
			select {
			case <-ok:
				return true
			case <-time.After(time.Second):
			}
		}
		buf := make([]byte, 1<<20)
		r.Violate("parked-"+what, fmt.Sprintf("while %d requests take their time others are not answered: %s", per*3*len(names), what), map[string]any{"stacks": clip(string(buf[:runtime.Stack(buf, true)]))})
		return false
	}
	if !wait("reaching their handlers", inside.Wait) {
		close(stop)
		return
	}
	r.Count("parked", int64(per*3*len(names)))
	okay := wait("fast requests", func() {
		for _, name := range names {
			for k := 0; k < 20; k++ {
				target, want := fmt.Sprintf("/%s/fast/%d", name, k), fmt.Sprintf("200 %d", k)
				if got := ask(target); got != want {
					bad.Store(target, got)
				}
				r.Case("parked"+target, true)
			}
		}
	})
	close(stop)
	if okay {
		wait("their own answers", done.Wait)
	}
	bad.Range(func(k, v any) bool {
		r.Violate("parked-answer", "among many requests that take their time one is answered wrongly: "+clip(fmt.Sprint(v)), map[string]any{"request": k})
		return true
	})
}
