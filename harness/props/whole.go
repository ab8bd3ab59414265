package props

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C32", true, runC32) }

func runC32(r *core.Run) {
	r.Rule("one application with every part of the framework (variables, patterns, prefixes, clones, all middlewares, all response kinds, adapted handlers, events, templates, static files, login) gets a mixed workload over HTTP/1.1 and HTTP/2: each request first alone, then all of them many times, concurrently and in random order, with clients that leave in the middle, " +
		"then alone again; thousands of requests of 30 kinds, most of them ending badly, run in memory besides. Monitors compare every concurrent answer with the serial one, the logged errors and the dumps with those provoked. Built with the race detector. A case is one request of the concurrent phase; non-trivial when it was not cancelled")
	r.Require("concurrent", 10000)
	r.Require("cancelled", 200)
	r.Require("request_kinds", 16)
	r.Require("errors_logged", 300)
	r.Require("dumps", 2000)
	r.Require("endured", 100000)
	r.Require("parked", 1000)
	c32Endurance(r)
	c32Parked(r)
	n := r.N(3, 20)
	for k := 0; k < n && !r.TooMany(); k++ {
		for _, proto := range []string{"h1", "h2"} {
			c32Round(r, k, proto)
		}
	}
}

// wholeTpl is one request (or flow) of the workload.
type wholeTpl struct {
	kind string
	tag  string
	ask  func(ts *testServer, ctx context.Context) string // gives the outcome
	// what one run provokes
	dumps   int
	serial  string
	errs    int // tagged errors per run
	others  int // errors per run that do not name the request, learnt in the serial phase
	dumped  int
	cancels bool // may be cancelled by its client
}

// refusable tells that a middleware may refuse the request with an error that
// does not name it.
func (t *wholeTpl) refusable() bool { return t.mayLog("access denied") || t.kind == "events" }

// mayLog tells if an error that does not name the request can be due to it.
func (t *wholeTpl) mayLog(e string) bool {
	switch t.kind {
	case "events":
		return strings.Contains(e, "not a HTTP/2 request")
	case "spec", "std", "echo", "preflight", "form", "login":
		return strings.Contains(e, "access denied") || strings.Contains(e, "unauthorized")
	case "fail panic", "json fail panic":
		return strings.Contains(e, "recover from panic")
	}
	return false
}

var tagRx = regexp.MustCompile(`\bE[0-9]+-`)

type wholeApp struct {
	mux   *gofre.MuxHandler
	log   *errLog
	dumps *dumpLog
}

// buildWhole makes the application; the responses by number are shared.
func buildWhole(tab *specTable, std *stdStore, streams map[string]*sseStream, dir string) *wholeApp {
	a := &wholeApp{log: &errLog{}, dumps: &dumpLog{}}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: a.log.log, ContextPath: "/ctx", ResourcesConfig: &gofre.ResourcesConfig{
		TemplatesPathPattern: filepath.Join(dir, "tpl", "*.html"), AssetsDirPath: filepath.Join(dir, "assets")}})
	if err != nil {
		panic(err)
	}
	a.mux = m
	m.CommonMiddlewares(middleware.PanicRecover(), middleware.RequestDumper(a.dumps.log))
	every := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"}
	var sec middleware.SecurityHeadersConfig
	secure := m.RouteUsingPathPrefix("/secure")
	secure.CommonMiddlewares(middleware.SecurityHeaders(sec))
	packed := m.RouteUsingPathPrefix("/packed")
	packed.CommonMiddlewares(middleware.CompressResponse(5))
	cors := m.RouteUsingPathPrefix("/cors")
	cors.CommonMiddlewares(middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}, AllowedHttpMethods: []string{"GET", "POST", "PUT"}, AllowedHttpHeaders: []string{"X-One"}, ExposedHeaders: []string{"X-Two"}, SupportsCredentials: true, PreflightMaxAgeSeconds: 60}))
	all := m.Clone()
	all.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.CompressResponse(1), marker("X-Clone", "yes"))
	for _, me := range every {
		for _, x := range []*gofre.MuxHandler{m, secure, packed, cors} {
			x.HandleRequest(me, "/spec/{id}", tab.handler())
			x.HandleRequest(me, "/std/{id}/**", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return response.HandlerFuncAdaptor(std.get(mc.PathVar("id")).serve), nil
			})
			x.HandleRequest(me, "/echo/{a}/{b:^[0-9]+$}/*/**", echoHandler("numbers"))
			x.HandleRequest(me, "/echo/{a}/{c}/x/**", echoHandler("any"))
			x.HandleRequest(me, "/echo/{a}/lit*ral/?/{d}", echoHandler("literal"))
		}
		all.HandleRequest(me, "/all/{id}", tab.handler())
	}
	failing := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		id := mc.PathVar("id")
		switch mc.PathVar("how") {
		case "plain":
			return nil, errors.New(id + "-plain")
		case "bad":
			return nil, gerrors.NewBadRequestWithMessage(id + "-bad")
		case "missing":
			return nil, gerrors.NewObjectNotFoundWithMessage(id + "-missing")
		case "panic":
			panic(id + "-panic")
		case "unencodable":
			return response.JsonHttpResponseOK(map[string]any{"x": ownMarshal{id}}), nil
		case "reader":
			return response.StreamHttpResponse("text/x", io.MultiReader(strings.NewReader("part"), &failReader{nil, errors.New(id + "-reader")})), nil
		}
		return nil, fmt.Errorf("%s-other %w", id, gerrors.ErrAccessDenied)
	}
	m.HandleGet("/fail/{how}/{id}", failing)
	all.HandleGet("/jfail/{how}/{id}", failing)
	// authorization
	users := map[string]auth.SecurityPrincipal{}
	for k, perms := range map[string][]string{"reader": {"doc/*:read"}, "writer": {"doc/a:read", "doc/a:update"}, "root": {"*:read", "*:update"}, "none": {}} {
		u := &auth.User{Id: k, Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r"}}}}}
		for _, p := range perms {
			pp := permOf(p)
			u.Groups[0].Roles[0].AllowedPermissions = append(u.Groups[0].Roles[0].AllowedPermissions, pp)
		}
		users[k] = u
	}
	adm := m.RouteUsingPathPrefix("/adm")
	adm.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		if u, ok := users[mc.R.Header.Get("X-User")]; ok {
			return u, nil
		}
		return nil, nil
	}))
	who := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("hello " + auth.GetSecurityPrincipalFromContext(ctx).Identity()), nil
	}
	for _, d := range []string{"a", "b"} {
		pr, _ := auth.NewPermission("doc/"+d, auth.AccessRead)
		pu, _ := auth.NewPermission("doc/"+d, auth.AccessUpdate)
		adm.HandleGet("/"+d, who, middleware.AuthorizeAll(pr))
		adm.HandlePut("/"+d, who, middleware.AuthorizeAll(pr, pu))
		adm.HandlePost("/"+d, who, middleware.AuthorizeAny(pr, pu))
	}
	// forms
	nonces := cache.NewInMemory()
	form := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(middleware.GetCSRFNonceFromContext(ctx)), nil
	}
	m.HandleGet("/form", form, middleware.CSRFPrevention(nonces))
	m.HandlePost("/form", form, middleware.CSRFPrevention(nonces))
	// login
	idp, idp2 := newStubIdP("one"), newStubIdP("two")
	m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://site.test", FetchUserDetails: true, Providers: []oauth.Provider{idp, idp2}, CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}},
		func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponseOK(auth.GetSecurityPrincipalFromContext(ctx).Identity() + " " + oauth.GetAccessTokenFromContext(ctx).AccessToken), nil
		}, nil, []middleware.Middleware{middleware.ErrJsonResponse()})
	// streams and events
	m.HandleGet("/slow/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		id := mc.PathVar("id")
		return response.RawWriterHttpResponse("text/x", func(w io.Writer) error {
			for k := 0; k < 8; k++ {
				if _, err := fmt.Fprintf(w, "<%s %d %s>", id, k, strings.Repeat(id, 300)); err != nil {
					return err
				}
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
				}
				if k%3 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			return nil
		}), nil
	}, middleware.CompressResponse(1))
	m.HandleGet("/sse/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return streams[mc.PathVar("id")].response(), nil
	})
	m.HandleGet("/tpl/{x}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.TemplateHttpResponseOK(m.ExecutableTemplate(), "page", mc.PathVar("x")), nil
	})
	return a
}

type ownMarshal struct{ id string }

func (o ownMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New(o.id + "-marshal") }

// permOf makes a permission of "scope:access".
func permOf(s string) auth.Permission {
	sc, ac, _ := strings.Cut(s, ":")
	p, err := auth.NewPermission(sc, map[string]auth.Access{"read": auth.AccessRead, "update": auth.AccessUpdate}[ac])
	if err != nil {
		panic(err)
	}
	return p
}

func echoHandler(name string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		b, _ := io.ReadAll(mc.R.Body)
		resp := response.JsonHttpResponseOK(map[string]any{"h": name, "a": mc.PathVar("a"), "b": mc.PathVar("b"), "c": mc.PathVar("c"), "d": mc.PathVar("d"),
			"uri": mc.R.RequestURI, "method": mc.R.Method, "q": mc.R.URL.Query(), "body": fmt.Sprintf("%x", sha256.Sum256(b)), "one": mc.R.Header["X-One"]})
		resp.Headers().Set("X-Two", mc.PathVar("a"))
		resp.Cookies().Add(&http.Cookie{Name: "a", Value: url.QueryEscape(mc.PathVar("a"))})
		return resp, nil
	}
}

// dropped is told about a request that got no answer at all: the client picked
// a kept connection that the server was just closing, or the client itself left.
type dropped struct{ err error }

type droppedKey struct{}

func noted(ts *testServer, q *http.Request) answer {
	a := ts.do(q)
	if d, ok := q.Context().Value(droppedKey{}).(*dropped); ok && a.Err != nil && a.Code == 0 {
		d.err = a.Err
	}
	return a
}

// inflight counts the requests that an application is still busy with.
type inflight struct {
	http.Handler
	n atomic.Int64
}

func (f *inflight) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	f.n.Add(1)
	defer f.n.Add(-1)
	f.Handler.ServeHTTP(w, q)
}

// outcomeOf is an answer in a form that can be compared.
func outcomeOf(a answer, stack bool) string {
	if a.Err != nil {
		return "error"
	}
	if enc := a.Header.Get("Content-Encoding"); enc == "gzip" || enc == "deflate" {
		if b := prefix(enc, a.Body); len(b) > 0 {
			a.Body = b // whose length may depend on a random boundary
			a.Header.Del("Content-Length")
		}
	}
	normal(&a)
	body := a.Body
	if stack { // the answer shows the stack of a panic
		body = []byte(tagRx.FindString(string(body)))
		a.Header.Del("Content-Length")
	}
	var ks []string
	for k := range a.Header {
		ks = append(ks, k+"="+sortedVals(a.Header, k))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d | %s | %s | %d bytes %x", a.Code, strings.Join(ks, "; "), clip(string(body)), len(body), sha256.Sum256(body))
}

func c32Templates(rng *rand.Rand, tab *specTable, std *stdStore, streams map[string]*sseStream, files map[string][]byte, h2 bool) []*wholeTpl {
	var out []*wholeTpl
	add := func(kind string, f func(tag string, t *wholeTpl)) {
		t := &wholeTpl{kind: kind, tag: fmt.Sprintf("E%d-", len(out))}
		f(strings.TrimSuffix(t.tag, "-"), t)
		out = append(out, t)
	}
	one := func(t *wholeTpl, tag, method, target string, body []byte, hdr http.Header, stack bool) {
		t.ask = func(ts *testServer, ctx context.Context) string {
			var b io.Reader
			if body != nil {
				b = bytes.NewReader(body)
			}
			q := ts.req(method, target, b).WithContext(ctx)
			for k, v := range hdr {
				q.Header[k] = append([]string(nil), v...)
			}
			q.Header.Set("X-Id", tag)
			return outcomeOf(noted(ts, q), stack)
		}
	}
	prefixes := []string{"", "/secure", "/packed", "/cors"}
	headers := func(prefix string) http.Header {
		h := http.Header{}
		if rng.Intn(2) == 0 {
			h.Set("Accept-Encoding", pick(rng, []string{"gzip", "deflate", "gzip, deflate", "br"}))
		}
		if prefix == "/cors" {
			h.Set("Origin", pick(rng, []string{"https://a.test", "https://a.test", "https://b.test"}))
			h.Set("Content-Type", "text/plain")
		}
		if rng.Intn(2) == 0 {
			h.Set("X-One", "1")
		}
		return h
	}
	for k := 0; k < 60; k++ {
		add("spec", func(tag string, t *wholeTpl) {
			s := genSpec(rng, specOpt{tag: tag, maxH: 4, maxC: 3, noBad: true})
			tab.put(tag, s)
			p := pick(rng, prefixes)
			t.cancels = true
			m := pick(rng, []string{"GET", "GET", "POST", "HEAD", "DELETE"})
			if rng.Intn(4) == 0 {
				one(t, tag, m, "/all/"+tag, nil, headers(""), false)
			} else {
				one(t, tag, m, p+"/spec/"+tag, nil, headers(p), false)
			}
		})
	}
	for k := 0; k < 30; k++ {
		add("std", func(tag string, t *wholeTpl) {
			s := genStd(rng, stdOpt{trailers: true, kinds: []string{"steps", "error", "not found", "redirect", "content", "copy", "encoded gzip", "bodiless", "empty", "timeout", "length"}})
			std.put(tag, s)
			p := pick(rng, prefixes)
			h := headers(p)
			for k, v := range s.hdr {
				h[k] = v
			}
			one(t, tag, s.method, p+"/std/"+tag+"/x", s.body, h, false)
		})
	}
	for k := 0; k < 40; k++ {
		add("echo", func(tag string, t *wholeTpl) {
			p := pick(rng, prefixes)
			target := p + "/echo/" + tag + pick(rng, []string{"/12/y/z/w", "/abc/x/1/2", "/literal/q/last", "/litXXral/z/" + tag, "/77/x/1", "/nothing"})
			target += pick(rng, []string{"", "?a=" + tag, "?b=1&b=2"})
			m := pick(rng, []string{"GET", "POST", "PUT", "PATCH", "DELETE"})
			var b []byte
			if m == "POST" || m == "PUT" || m == "PATCH" {
				b = genBody(rng)
			}
			one(t, tag, m, target, b, headers(p), false)
		})
	}
	for _, how := range []string{"plain", "bad", "missing", "panic", "unencodable", "other", "reader"} {
		for k := 0; k < 3; k++ {
			add("fail "+how, func(tag string, t *wholeTpl) { one(t, tag, "GET", "/fail/"+how+"/"+tag, nil, nil, how == "panic") })
			if how != "reader" {
				add("json fail "+how, func(tag string, t *wholeTpl) { one(t, tag, "GET", "/jfail/"+how+"/"+tag, nil, nil, how == "panic") })
			}
		}
	}
	for _, u := range []string{"reader", "writer", "root", "none", "nobody"} {
		for _, m := range []string{"GET", "PUT", "POST"} {
			add("authorization", func(tag string, t *wholeTpl) {
				one(t, tag, m, "/adm/"+pick(rng, []string{"a", "b"}), nil, http.Header{"X-User": {u}}, false)
			})
		}
	}
	for k := 0; k < 4; k++ {
		add("preflight", func(tag string, t *wholeTpl) {
			one(t, tag, "OPTIONS", "/cors/spec/"+tag, nil, http.Header{"Origin": {pick(rng, []string{"https://a.test", "https://b.test"})}, "Access-Control-Request-Method": {pick(rng, []string{"PUT", "DELETE"})}, "Access-Control-Request-Headers": {"X-One"}}, false)
			tab.put(tag, genSpec(rng, specOpt{tag: tag, maxH: 2, noBad: true}))
		})
		add("form", func(tag string, t *wholeTpl) {
			t.ask = func(ts *testServer, ctx context.Context) string {
				send := func(m, nonce string) answer {
					q := ts.req(m, "/form", nil).WithContext(ctx)
					q.Header.Set("X-Id", tag)
					if nonce != "" {
						q.Header.Set("X-Csrf-Token", nonce)
					}
					return noted(ts, q)
				}
				a := send("GET", "")
				b := send("POST", string(a.Body))
				c := send("POST", string(a.Body))
				d := send("POST", string(b.Body))
				e := send("POST", "0123456789ABCDEF0123456789ABCDEF")
				return fmt.Sprint(a.Code, b.Code, c.Code, d.Code, e.Code, len(a.Body), len(b.Body), string(a.Body) != string(b.Body))
			}
		})
		add("login", func(tag string, t *wholeTpl) {
			prov := pick(rng, []string{"one", "two"})
			t.ask = func(ts *testServer, ctx context.Context) string {
				send := func(target string) answer {
					q := ts.req("GET", target, nil).WithContext(ctx)
					q.Header.Set("X-Id", tag)
					return noted(ts, q)
				}
				a := send("/oauth/initiate?provider=" + prov)
				u, err := url.Parse(a.Header.Get("Location"))
				if err != nil || a.Code != 302 {
					return fmt.Sprint("no redirect ", a.Code)
				}
				state := u.Query().Get("s")
				back := "/oauth/authorize/" + prov + "?code=" + tag + "&state=" + url.QueryEscape(state)
				b, c := send(back), send(back)
				return fmt.Sprint(u.Host, u.Query().Get("r"), len(state), b.Code, string(b.Body), c.Code)
			}
		})
		add("template", func(tag string, t *wholeTpl) { one(t, tag, "GET", "/tpl/%3C"+tag+"%3E", nil, nil, false) })
		add("slow", func(tag string, t *wholeTpl) {
			t.cancels = true
			one(t, tag, "GET", "/slow/"+tag, nil, http.Header{"Accept-Encoding": {pick(rng, []string{"gzip", "identity"})}}, false)
		})
		add("slow", func(tag string, t *wholeTpl) {
			t.cancels = true
			one(t, tag, "GET", "/slow/"+tag, nil, nil, false)
		})
		add("events", func(tag string, t *wholeTpl) {
			streams[tag] = genStream(rng)
			t.cancels = true
			one(t, tag, "GET", "/sse/"+tag, nil, nil, false)
		})
		add("not found", func(tag string, t *wholeTpl) { one(t, tag, "GET", "/no/"+tag, nil, nil, false) })
	}
	for n := range files {
		add("file", func(tag string, t *wholeTpl) { one(t, tag, "GET", "/ctx/assets/"+n, nil, nil, false) })
	}
	return out
}

func c32Round(r *core.Run, k int, proto string) {
	rng := r.Rand("c32"+proto, k)
	dir, err := os.MkdirTemp("", "c32-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	files := map[string][]byte{"a.txt": genBody(rng), "b/c.bin": append(genBody(rng), 1), "d.css": []byte("d{}")}
	for n, b := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, "assets", n)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, "assets", n), b, 0o644); err != nil {
			panic(err)
		}
	}
	os.MkdirAll(filepath.Join(dir, "tpl"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "tpl", "p.html"), []byte(`{{define "page"}}<p title="{{.}}">{{.}}</p>{{end}}`), 0o644); err != nil {
		panic(err)
	}
	tab, std, streams := newSpecTable(), newStdStore(), map[string]*sseStream{}
	tpls := c32Templates(rng, tab, std, streams, files, proto == "h2")
	byTag := map[string]*wholeTpl{}
	for _, t := range tpls {
		byTag[t.tag] = t
		r.Seen("request_kinds", t.kind)
	}
	bad := func(sig, text string, t *wholeTpl, more map[string]any) {
		d := map[string]any{"proto": proto, "round": k, "kind": t.kind, "tag": t.tag, "serial": t.serial}
		for a, b := range more {
			d[a] = b
		}
		r.Violate(sig+":"+t.kind, text, d)
	}
	// tagged errors and dumps of a log
	tagged := func(l *errLog) (map[string]int, []string) {
		m, rest := map[string]int{}, []string{}
		for _, e := range l.take() {
			if x := errText(e); strings.Contains(x, "request body closed due to handler exiting") || strings.Contains(x, "http2: stream closed") || proto == "h2" && strings.Contains(x, "short write") {
				continue // net/http, when the head of an answer without body ends the stream before the write returns
			}
			if t := tagRx.FindString(errText(e)); t != "" && byTag[t] != nil {
				m[t]++
			} else {
				rest = append(rest, errText(e))
			}
		}
		return m, rest
	}
	dumps := func(l *dumpLog) map[string]int {
		m := map[string]int{}
		for _, d := range l.take() {
			var t dumpText
			if err := json.Unmarshal([]byte(d.copy), &t); err != nil || t.Request == nil || d.copy != d.given {
				r.Violate("dump", "a dump is not intact", map[string]any{"dump": clip(d.copy), "now": clip(d.given)})
				continue
			}
			if v := t.Request.Header["X-Id"]; len(v) == 1 {
				m[v[0]+"-"]++
			}
		}
		return m
	}
	app := buildWhole(tab, std, streams, dir)
	ts := startServer(app.mux, proto)
	var busy *inflight
	bg := context.Background()
	serial := func(phase int) {
		for _, t := range tpls {
			r.Begin("serial %d %s %s", phase, t.kind, t.tag)
			var got string
			for try := 0; try < 4; try++ {
				var d dropped
				if got = t.ask(ts, context.WithValue(bg, droppedKey{}, &d)); d.err == nil {
					break
				}
				if try < 3 {
					time.Sleep(50 * time.Millisecond)
					tagged(app.log)
					dumps(app.dumps)
				}
			}
			// the error of an answer can be logged after its end was sent; a dump is made before
			tl, rest := tagged(app.log)
			for wait := 0; wait < 200 && (tl[t.tag] < t.errs || len(rest) < t.others); wait++ {
				time.Sleep(5 * time.Millisecond)
				more, mrest := tagged(app.log)
				for a, b := range more {
					tl[a] += b
				}
				rest = append(rest, mrest...)
			}
			errs := tl[t.tag]
			for tag := range tl {
				if tag != t.tag {
					bad("log-other", "an error of another request was logged", t, map[string]any{"logged": tag})
				}
			}
			for _, e := range rest {
				if !t.mayLog(e) {
					bad("log", "an error that was not provoked was logged: "+clip(e), t, nil)
				}
			}
			dm := dumps(app.dumps)
			if phase == 0 {
				t.serial, t.errs, t.dumped, t.others = got, errs, dm[t.tag], len(rest)
			} else if got != t.serial {
				bad("history", "the same request alone is answered differently later", t, map[string]any{"now": got})
			} else if errs != t.errs || dm[t.tag] != t.dumped || len(rest) != t.others {
				bad("history-log", fmt.Sprintf("the same request alone logs %d+%d errors and %d dumps instead of %d+%d and %d", errs, len(rest), dm[t.tag], t.errs, t.others, t.dumped), t, nil)
			}
		}
	}
	// how many errors a failing request logs is what the framework documents: one, unless a middleware answers it
	for _, t := range tpls {
		switch {
		case strings.HasSuffix(t.kind, "fail panic"):
			t.others = 1
		case strings.HasPrefix(t.kind, "fail "), t.kind == "json fail unencodable":
			t.errs = 1
		}
	}
	want := map[string][2]int{}
	for _, t := range tpls {
		want[t.tag] = [2]int{t.errs, t.others}
	}
	serial(0)
	for _, t := range tpls {
		if w := want[t.tag]; t.errs != w[0] || t.others != w[1] && !t.refusable() {
			bad("logged", fmt.Sprintf("%d+%d errors logged instead of %d+%d", t.errs, t.others, w[0], w[1]), t, nil)
		}
	}
	serial(1)
	// a new instance serves everything at once
	ts.stop()
	app = buildWhole(tab, std, streams, dir)
	busy = &inflight{Handler: app.mux}
	ts = startServer(busy, proto)
	defer ts.stop()
	runs := r.N(12, 40)
	var order []int
	for k := 0; k < runs; k++ {
		for i := range tpls {
			order = append(order, i)
		}
	}
	rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	done := map[string]int{} // complete runs
	cut := map[string]int{}
	var mu sync.Mutex
	burst(24, len(order), func(i int) {
		if r.TooMany() {
			return
		}
		t := tpls[order[i]]
		rr := r.Rand("c32x"+proto+fmt.Sprint(k), i)
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		cancelled := t.cancels && rr.Intn(6) == 0
		if cancelled {
			time.AfterFunc(time.Duration(rr.Intn(3000))*time.Microsecond, cancel)
		}
		var got string
		for try := 0; try < 4; try++ {
			var d dropped
			got = t.ask(ts, context.WithValue(ctx, droppedKey{}, &d))
			mu.Lock()
			if cancelled || d.err != nil {
				cut[t.tag]++
			} else {
				done[t.tag]++
			}
			mu.Unlock()
			if cancelled || d.err == nil {
				break
			}
			r.Count("dropped", 1)
			r.Seen("dropped_because", regexp.MustCompile(`[0-9.:]+->[0-9.:]+|"[^"]*"`).ReplaceAllString(d.err.Error(), "…"))
		}
		r.Count("concurrent", 1)
		r.Case(fmt.Sprint(proto, k, i, t.tag), !cancelled)
		if cancelled {
			r.Count("cancelled", 1)
			if got == "error" {
				return
			}
		}
		if got != t.serial {
			bad("concurrent", "a request among others is answered differently from the same request alone", t, map[string]any{"among_others": got, "cancelled": cancelled})
		}
	})
	r.Begin("after the burst %d %s", k, proto)
	// the requests whose client left may still be under way
	for wait := 0; wait < 3000 && busy.n.Load() > 0; wait++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := busy.n.Load(); n > 0 {
		r.Violate("stuck", fmt.Sprintf("%d requests are still under way 30 s after the last client left", n), map[string]any{"proto": proto})
		return
	}
	tl, rest := tagged(app.log)
	dm := dumps(app.dumps)
	short := func() bool {
		others := 0
		for _, t := range tpls {
			others += t.others * done[t.tag]
			if tl[t.tag] < t.errs*done[t.tag] || dm[t.tag] < t.dumped*done[t.tag] {
				return true
			}
		}
		return len(rest) < others
	}
	for wait := 0; wait < 400 && short(); wait++ {
		time.Sleep(10 * time.Millisecond)
		more, mrest := tagged(app.log)
		for a, b := range more {
			tl[a] += b
		}
		rest = append(rest, mrest...)
		for a, b := range dumps(app.dumps) {
			dm[a] += b
		}
	}
	ncut, due := 0, 0
	for _, t := range tpls {
		ncut += cut[t.tag]
		due += t.others * done[t.tag]
	}
	for _, t := range tpls {
		if n, lo := tl[t.tag], t.errs*done[t.tag]; n < lo || n > lo+max(t.errs, 1)*cut[t.tag] {
			bad("log-count", fmt.Sprintf("%d errors logged for %d provoked", n, lo), t, map[string]any{"cancelled": cut[t.tag]})
		}
		if n, lo := dm[t.tag], t.dumped*done[t.tag]; n < lo || n > lo+t.dumped*cut[t.tag] {
			bad("dump-count", fmt.Sprintf("%d dumps for %d requests", n, lo), t, map[string]any{"cancelled": cut[t.tag]})
		}
		r.Count("errors_logged", int64(tl[t.tag]))
		r.Count("dumps", int64(dm[t.tag]))
	}
	if len(rest) < due || len(rest) > due+ncut {
		hist := map[string]int{}
		for _, e := range rest {
			hist[clip(e)]++
		}
		r.Violate("log-undue", fmt.Sprintf("%d errors without a name were logged, %d were provoked (%d requests were cancelled)", len(rest), due, ncut), map[string]any{"errors": hist, "proto": proto})
	}
	r.Count("errors_logged", int64(len(rest)))
	if isPanicLog(ts.Log.String()) {
		r.Violate("server-panic", "the server panicked", map[string]any{"log": clip(ts.Log.String())})
	}
	serial(2)
	r.Sample(fmt.Sprintf("round %d %s: %d different requests, %d runs, %d cancelled", k, proto, len(tpls), len(order), ncut))
}
