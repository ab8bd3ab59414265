package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C29", true, runC29) }

// dumped is one call of a logger: the text as it was given, and a copy made
// during the call (a text whose memory is used again shows as a difference).
type dumped struct {
	given string
	copy  string
}

type dumpLog struct {
	mu sync.Mutex
	l  []dumped
}

func (d *dumpLog) log(v string) {
	d.mu.Lock()
	d.l = append(d.l, dumped{v, strings.Clone(v)})
	d.mu.Unlock()
}

func (d *dumpLog) take() []dumped {
	d.mu.Lock()
	defer d.mu.Unlock()
	l := d.l
	d.l = nil
	return l
}

// dumpText is the documented form of a dump.
type dumpText struct {
	Start   int64 `json:"startTimeMs"`
	End     int64 `json:"endTimeMs"`
	Request *struct {
		Method     string              `json:"method"`
		Proto      string              `json:"protocolVersion"`
		URI        string              `json:"requestURI"`
		URL        string              `json:"url"`
		Remote     string              `json:"remoteAddress"`
		Length     int64               `json:"contentLength"`
		Host       string              `json:"host"`
		Secure     bool                `json:"isSecure"`
		Header     map[string][]string `json:"header"`
		Cookies    []string            `json:"cookies"`
		FormFields map[string][]string `json:"formFields"`
		Transfer   []string            `json:"transferEncoding"`
	} `json:"request"`
	Response *struct {
		Code    int               `json:"statusCode"`
		Header  map[string]string `json:"header"`
		Cookies []string          `json:"cookies"`
	} `json:"response"`
}

// dumpCase is what a handler does and what was seen of one exchange.
type dumpCase struct {
	id     string
	kind   string // spec, std, error, panic, sse
	desc   string
	spec   *rspec
	std    *stdScript
	err    error
	mutate int // the handler changes the request it got
	slow   time.Duration

	mu    sync.Mutex
	seen  map[string]http.Request   // by lane: the request at the server, headers cloned
	views map[string]map[string]any // by lane: what the handler saw
	forms map[string]url.Values     // by lane: the form, where it was parsed before the dumper
}

// parseForm is a middleware that reads the form of the request, as the CSRF
// check does, and tells it.
func parseForm(seen func(id string, form url.Values)) middleware.Middleware {
	return func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			_ = mc.R.ParseForm()
			f := url.Values{}
			for k, v := range mc.R.Form {
				f[k] = append([]string(nil), v...)
			}
			seen(mc.R.Header.Get("X-Id"), f)
			return h(ctx, mc)
		}
	}
}

const dumpSlack = 10_000 // ms, the clock may be set while a run goes on

func (c *dumpCase) handle(lane string, mc path.MatchingContext) (response.HttpResponse, error) {
	v := requestView(mc.R)
	v["header"] = mc.R.Header.Clone()
	v["var"] = mc.PathVar("id")
	v["cookies"] = fmt.Sprint(mc.R.Cookies())
	v["form"] = mc.R.Form == nil
	c.mu.Lock()
	c.views[lane] = v
	c.mu.Unlock()
	if c.slow > 0 {
		time.Sleep(c.slow)
	}
	switch c.mutate {
	case 1:
		mc.R.Header.Set("X-Mutated", "by the handler")
		mc.R.Header.Del("User-Agent")
		mc.R.Header.Set("Cookie", "mutated=1")
	case 2:
		for _, vs := range mc.R.Header {
			for k := range vs {
				vs[k] = "overwritten"
			}
		}
	case 3:
		// (the method and the protocol are left: net/http itself uses them later)
		mc.R.Host, mc.R.RequestURI, mc.R.RemoteAddr = "mutated", "/mutated", "mutated"
	case 4: // as handlers do that pass a request on
		mc.R.URL.Path, mc.R.URL.RawPath, mc.R.URL.RawQuery = "/mutated", "", "mutated=1"
	}
	switch c.kind {
	case "spec":
		return c.spec.build(), nil
	case "std":
		return response.HandlerFuncAdaptor(c.std.serve), nil
	case "error":
		return nil, c.err
	case "error with response":
		return c.spec.build(), c.err
	case "panic":
		panic("a panic of the handler")
	}
	panic(c.kind)
}

func runC29(r *core.Run) {
	r.Rule("the same generated request (methods, hosts, headers, cookies, bodies) is sent, over HTTP/1.1, TLS and HTTP/2, to a route without and with the dumper (alone, outside and inside of other middlewares, twice); handlers answer with every response kind, adapt standard handlers, change the request they were given, fail and panic. " +
		"Monitors compare what the handler saw and what the client got, and every logger call (text checked again after all traffic ended) with the request captured at the server and the answer captured at the client. Built with the race detector. A case is one exchange; all with a dump due are non-trivial")
	r.Require("dumps", 5000)
	r.Require("errors", 500)
	r.Require("panics", 100)
	r.Require("mutating", 500)
	r.Require("kinds", 12)
	r.Require("direct", 1000)
	r.Require("forms", 100)
	r.Require("chunked", 100)
	r.Require("slow", 10)
	c29Direct(r)
	for _, proto := range []string{"h1", "h1tls", "h2"} {
		c29Http(r, proto)
	}
}

func marker(k, v string) middleware.Middleware {
	return func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := h(ctx, mc)
			if err == nil && resp != nil {
				resp.Headers().Set(k, v)
			}
			return resp, err
		}
	}
}

// c29Direct calls the middleware without a server.
func c29Direct(r *core.Run) {
	type key struct{}
	parallel(r, "direct", r.N(6000, 60000), func(i int) {
		rng := r.Rand("c29d", i)
		l := &dumpLog{}
		body := genBody(rng)
		var rd io.Reader = bytes.NewReader(body)
		q := newRequest(pick(rng, specMethods), "/a/"+fmt.Sprint(i)+"?q=%20x&y=1", rd)
		q.Header["X-A"] = []string{"1", genHeaderValue(rng, ""), ""}
		orig := q.Header.Clone()
		var err error
		if rng.Intn(3) == 0 {
			err = pickErr(rng, "own")
		}
		spec := genSpec(rng, specOpt{maxH: 4, maxC: 3})
		want := spec.build()
		var gotMc path.MatchingContext
		var gotCtx context.Context
		var gotBody []byte
		calls := 0
		h := middleware.RequestDumper(l.log)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			calls++
			gotMc, gotCtx = mc, ctx
			gotBody, _ = io.ReadAll(mc.R.Body)
			if err != nil {
				if i%2 == 0 {
					return want, err
				}
				return nil, err
			}
			return want, nil
		})
		ctx := context.WithValue(context.Background(), key{}, i)
		mc := path.MatchingContext{R: q}
		var resp response.HttpResponse
		var e error
		pan, st := core.Guard(func() { resp, e = h(ctx, mc) })
		r.Count("direct", 1)
		r.Case(fmt.Sprint("direct", i, spec), err == nil)
		det := map[string]any{"case": i, "response": spec.String(), "error": errText(err), "got_error": errText(e), "panic": fmt.Sprint(pan), "stack": st}
		logs := l.take()
		switch {
		case pan != nil:
			r.Violate("panic", fmt.Sprintf("the dumper panicked: %v", pan), det)
		case calls != 1:
			r.Violate("calls", fmt.Sprintf("the handler was called %d times", calls), det)
		case gotMc.R != q && (gotMc.R == nil || gotMc.R.URL.String() != q.URL.String() || gotMc.R.Method != q.Method):
			r.Violate("request", "the handler got another request", det)
		case gotCtx.Value(key{}) != i:
			r.Violate("context", "the handler did not get the context", det)
		case !bytes.Equal(gotBody, body):
			r.Violate("body", "the handler did not get the body of the request", det)
		case headerDiff(orig, gotMc.R.Header) != "":
			r.Violate("header", "the handler did not get the headers: "+headerDiff(orig, gotMc.R.Header), det)
		case err != nil && !sameErr(err, e):
			r.Violate("error", fmt.Sprintf("the error %q became %q", errText(err), errText(e)), det)
		case err != nil && len(logs) != 0:
			r.Violate("error-logged", "a failed request was dumped", det)
		case err == nil && e != nil:
			r.Violate("own-error", "the dumper failed: "+errText(e), det)
		case err == nil && len(logs) != 1:
			r.Violate("logs", fmt.Sprintf("%d dumps for one request", len(logs)), det)
		case err == nil:
			w := httptest.NewRecorder()
			p2, _ := core.Guard(func() { _ = resp.Write(w, mc) })
			if p2 != nil {
				r.Violate("write-panic", fmt.Sprintf("the response cannot be written after the dump: %v", p2), det)
			} else if why := spec.judge(w.Code, w.Header(), w.Body.Bytes(), q, false); why != "" {
				r.Violate("response:"+sigOf(why), "the response changed: "+why, det)
			}
			if !json.Valid([]byte(logs[0].given)) {
				r.Violate("json", "the dump is not JSON: "+clip(logs[0].given), det)
			}
		}
	})
}

const dumpLanes = 6

// c29Http compares lanes over real connections.
func c29Http(r *core.Run, proto string) {
	var mu sync.Mutex
	cases := map[string]*dumpCase{}
	el := &errLog{}
	logs := map[string]*dumpLog{}
	lanes := map[string]http.Handler{}
	reg := func(lane string, mw ...middleware.Middleware) {
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: el.log})
		if err != nil {
			panic(err)
		}
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			mu.Lock()
			c := cases[mc.PathVar("id")]
			mu.Unlock()
			return c.handle(lane, mc)
		}
		for _, me := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"} {
			m.HandleRequest(me, "/x/{id}/**", h, mw...)
		}
		lanes[lane] = m
	}
	dump := func(name string) middleware.Middleware {
		logs[name] = &dumpLog{}
		return middleware.RequestDumper(logs[name].log)
	}
	parse := func(lane string) middleware.Middleware {
		return parseForm(func(id string, form url.Values) {
			mu.Lock()
			c := cases[id]
			mu.Unlock()
			c.mu.Lock()
			c.forms[lane] = form
			c.mu.Unlock()
		})
	}
	// lane k is compared with plain k; dumpers of a lane
	dumpers := make([][]string, dumpLanes)
	for k := 0; k < dumpLanes; k++ {
		p, d := fmt.Sprintf("p%d", k), fmt.Sprintf("d%d", k)
		switch k {
		case 0:
			reg(p)
			reg(d, dump("0"))
			dumpers[k] = []string{"0"}
		case 1:
			reg(p, middleware.PanicRecover())
			reg(d, middleware.PanicRecover(), dump("1"))
			dumpers[k] = []string{"1"}
		case 2:
			reg(p, marker("X-Outer", "o"), marker("X-Inner", "i"), middleware.PanicRecover())
			reg(d, marker("X-Outer", "o"), dump("2"), marker("X-Inner", "i"), middleware.PanicRecover())
			dumpers[k] = []string{"2"}
		case 3:
			reg(p, middleware.PanicRecover())
			reg(d, dump("3a"), dump("3b"), middleware.PanicRecover())
			dumpers[k] = []string{"3a", "3b"}
		case 4:
			reg(p, middleware.ErrJsonResponse(), middleware.PanicRecover())
			reg(d, dump("4a"), middleware.ErrJsonResponse(), dump("4b"), middleware.PanicRecover())
			dumpers[k] = []string{"4a", "4b"}
		case 5:
			reg(p, parse(p), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{}), middleware.PanicRecover(), marker("X-Inner", "i"))
			reg(d, parse(d), dump("5"), middleware.SecurityHeaders(middleware.SecurityHeadersConfig{}), middleware.PanicRecover(), marker("X-Inner", "i"))
			dumpers[k] = []string{"5"}
		}
	}
	ts := startServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		lane := q.Header.Get("X-Lane")
		q.Header.Del("X-Lane")
		mu.Lock()
		c := cases[q.Header.Get("X-Id")]
		mu.Unlock()
		cp := *q
		cp.Header = q.Header.Clone()
		u := *q.URL
		cp.URL = &u
		c.mu.Lock()
		c.seen[lane] = cp
		c.mu.Unlock()
		lanes[lane].ServeHTTP(w, q)
	}), proto)
	defer ts.stop()
	type due struct {
		c    *dumpCase
		lane int
		a    answer
		t0   time.Time // before the request was sent
		t1   time.Time // after it was answered
	}
	var dmu sync.Mutex
	want := map[string]map[string]due{} // logger, id
	for n := range logs {
		want[n] = map[string]due{}
	}
	var panicked atomic.Int64
	parallel(r, proto, r.N(5000, 50000), func(i int) {
		rng := r.Rand("c29"+proto, i)
		c := &dumpCase{id: fmt.Sprintf("i%d", i), seen: map[string]http.Request{}, views: map[string]map[string]any{}, forms: map[string]url.Values{}}
		lane := rng.Intn(dumpLanes)
		method := pick(rng, []string{"GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"})
		hdr := http.Header{}
		var body []byte
		if method == "POST" || method == "PUT" || method == "PATCH" || rng.Intn(10) == 0 {
			body = genBody(rng)
		}
		switch k := rng.Intn(20); {
		case k < 13:
			c.kind = "spec"
			c.spec = genSpec(rng, specOpt{maxH: 4, maxC: 3})
			c.desc = c.spec.String()
			r.Seen("kinds", c.spec.kind)
		case k < 16:
			c.kind = "std"
			c.std = genStd(rng, stdOpt{kinds: []string{"steps", "error", "not found", "redirect", "copy", "empty", "length"}})
			method, body = c.std.method, c.std.body
			for k, v := range c.std.hdr {
				hdr[k] = v
			}
			c.desc = c.std.String()
			r.Seen("kinds", "std "+c.std.kind)
		case k < 18:
			c.kind = "error"
			c.err = pickErr(rng, "own "+c.id)
		case k < 19:
			c.kind = "error with response"
			c.spec = genSpec(rng, specOpt{maxH: 2, maxC: 2, noBad: true})
			c.err = pickErr(rng, "own "+c.id)
		default:
			c.kind = "panic"
			if lane == 0 || lane == 4 { // the answer shows the stack in lane 4
				lane = 1
			}
		}
		if rng.Intn(4) == 0 && (c.spec == nil || c.spec.kind != "redirect") && c.kind != "std" {
			c.mutate = 1 + rng.Intn(4)
			r.Count("mutating", 1)
		}
		if body != nil && c.kind != "std" && rng.Intn(3) == 0 {
			hdr.Set("Content-Type", "application/x-www-form-urlencoded")
			body = []byte(pick(rng, []string{"a=b&a=c&d=", "%C3%A9=%20+x&big=" + strings.Repeat("y", rng.Intn(5000)), "a", "", "a;b=1&c=2", "a=%zz&b=1"}))
		}
		genDumpHeaders(rng, hdr)
		hdr.Set("X-Id", c.id)
		host := pick(rng, []string{"", "", "x.test", "x.test:8080", "[::1]:1", "xn--e1a.test"})
		target := "/x/" + c.id + "/" + pick(rng, []string{"", "a", "a/b", "a%20b", "a%2Fb", "%C3%A9", "a;b=c", "a%22b"}) + pick(rng, []string{"", "?", "?a=b", "?a=b&a=c&d=%20+%22%3C", "?x=%ff"})
		if rng.Intn(150) == 0 {
			target = "/x/" + c.id + "/?big=" + strings.ReplaceAll(strings.ReplaceAll(bigText(rng), "<\"&", "%22"), " ", "+")
		}
		mu.Lock()
		cases[c.id] = c
		mu.Unlock()
		chunked := rng.Intn(3) == 0
		ask := func(lane string) answer {
			var b io.Reader
			if body != nil {
				b = bytes.NewReader(body)
				if chunked {
					b = struct{ io.Reader }{b}
				}
			}
			q := ts.req(method, target, b)
			for k, v := range hdr {
				q.Header[k] = append([]string(nil), v...)
			}
			q.Header.Set("X-Lane", lane)
			if host != "" {
				q.Host = host
			}
			a := ts.do(q)
			if a.Err == nil {
				normal(&a)
			}
			return a
		}
		pl, dl := fmt.Sprintf("p%d", lane), fmt.Sprintf("d%d", lane)
		p := ask(pl)
		if rng.Intn(200) == 0 {
			c.slow = 400 * time.Millisecond
			r.Count("slow", 1)
		}
		t0 := time.Now()
		a := ask(dl)
		t1 := time.Now()
		r.Seen("lanes", dl)
		det := func() any {
			return map[string]any{"proto": proto, "case": i, "lane": lane, "method": method, "target": target, "handler": c.kind + " " + c.desc, "sent": hdr, "error": errText(c.err),
				"plain":  map[string]any{"status": p.Code, "headers": p.Header, "body": clip(string(p.Body)), "error": fmt.Sprint(p.Err)},
				"dumped": map[string]any{"status": a.Code, "headers": a.Header, "body": clip(string(a.Body)), "error": fmt.Sprint(a.Err)}}
		}
		failed := c.err != nil || c.kind == "panic"
		r.Case(proto+fmt.Sprint(i, lane, c.kind, c.desc), !failed)
		if c.err != nil {
			r.Count("errors", 1)
		}
		if c.kind == "panic" {
			r.Count("panics", 1)
			panicked.Add(1)
		}
		if (p.Err == nil) != (a.Err == nil) {
			r.Violate("transport:"+c.kind, "the answer can be received only "+map[bool]string{true: "without", false: "with"}[p.Err == nil]+" the dumper", det())
			return
		}
		if p.Err == nil {
			if p.Code != a.Code {
				r.Violate("status:"+c.kind, fmt.Sprintf("the dumper changes the status %d to %d", p.Code, a.Code), det())
				return
			}
			if !bytes.Equal(p.Body, a.Body) && !(c.spec != nil && c.spec.isJson && sameJson(p.Body, a.Body)) {
				r.Violate("body:"+c.kind, "the dumper changes the body of the response", det())
				return
			}
			skip := []string{}
			if c.spec != nil && c.spec.isJson {
				skip = append(skip, "Content-Length")
			}
			if why := headerDiff(p.Header, a.Header, skip...); why != "" {
				r.Violate("header:"+sigOf(why), "the dumper changes the headers of the response: "+why, det())
				return
			}
		}
		c.mu.Lock()
		vp, vd := c.views[pl], c.views[dl]
		c.mu.Unlock()
		if !reflect.DeepEqual(vp, vd) {
			r.Violate("view", "the handler sees another request behind the dumper", map[string]any{"case": det(), "plain_view": fmt.Sprint(vp), "dumped_view": fmt.Sprint(vd)})
			return
		}
		if vd == nil {
			r.Count("unrouted", 1) // the path is not one of the route
			return
		}
		if !failed {
			dmu.Lock()
			for _, n := range dumpers[lane] {
				want[n][c.id] = due{c, lane, a, t0, t1}
			}
			dmu.Unlock()
		} else if lane == 4 {
			// the outer dumper of this lane sees the JSON answer of the error middleware
			dmu.Lock()
			want["4a"][c.id] = due{c, lane, a, t0, t1}
			dmu.Unlock()
		}
		if i < 3 {
			r.Sample(fmt.Sprintf("%s %s %s lane %d: %s %s", proto, method, target, lane, c.kind, c.desc))
		}
	})
	ts.stop()
	if isPanicLog(ts.Log.String()) && panicked.Load() == 0 {
		r.Violate("server-panic", "the server panicked", map[string]any{"log": clip(ts.Log.String())})
	}
	// all traffic has ended: the dumps are read
	for n, l := range logs {
		got := map[string]int{}
		for _, d := range l.take() {
			if d.given != d.copy {
				r.Violate("reused", "a dump changed after it was given to the logger", map[string]any{"given": clip(d.copy), "now": clip(d.given)})
				continue
			}
			var t dumpText
			var generic any
			if err := json.Unmarshal([]byte(d.given), &generic); err != nil {
				r.Violate("json", "a dump is not one JSON text: "+err.Error(), map[string]any{"dump": clip(d.given)})
				continue
			}
			if err := json.Unmarshal([]byte(d.given), &t); err != nil || t.Request == nil || t.Response == nil {
				r.Violate("form", fmt.Sprintf("a dump has not the expected form: %v", err), map[string]any{"dump": clip(d.given)})
				continue
			}
			id := ""
			if v := t.Request.Header["X-Id"]; len(v) == 1 {
				id = v[0]
			}
			got[id]++
			w, ok := want[n][id]
			if !ok {
				r.Violate("undue", "a dump was logged for a request that failed or was not made", map[string]any{"dump": clip(d.given), "logger": n})
				continue
			}
			r.Count("dumps", 1)
			w.c.mu.Lock()
			seen := w.c.seen[fmt.Sprintf("d%d", w.lane)]
			w.c.mu.Unlock()
			if len(seen.TransferEncoding) > 0 {
				r.Count("chunked", 1)
			}
			if w.lane == 5 && w.c.forms["d5"] != nil && len(w.c.forms["d5"]) > 0 {
				r.Count("forms", 1)
			}
			if why := judgeTimes(&t, w.c, w.t0, w.t1); why != "" {
				r.Violate("dump-times:"+sigOf(why), "a dump is not accurate: "+why, map[string]any{"dump": clip(d.given), "logger": n, "from": w.t0.UnixMilli(), "to": w.t1.UnixMilli(), "handler took": w.c.slow.String()})
				continue
			}
			if why := judgeDump(&t, &seen, w.c, w.a, n); why != "" {
				r.Violate("dump:"+sigOf(why), "a dump is not accurate: "+why, map[string]any{"dump": clip(d.given), "logger": n, "proto": proto, "handler": w.c.kind + " " + w.c.desc,
					"request":  map[string]any{"method": seen.Method, "uri": seen.RequestURI, "host": seen.Host, "header": seen.Header},
					"response": map[string]any{"status": w.a.Code, "headers": w.a.Header}})
			}
		}
		for id, w := range want[n] {
			if got[id] != 1 {
				r.Violate("count", fmt.Sprintf("%d dumps for one successful request", got[id]), map[string]any{"case": id, "logger": n, "proto": proto, "handler": w.c.kind + " " + w.c.desc, "status": w.a.Code, "error": fmt.Sprint(w.a.Err), "mutate": w.c.mutate})
			}
		}
	}
}

// asJson is what a text becomes in JSON (invalid UTF-8 is replaced).
func asJson(s string) string {
	b, _ := json.Marshal(s)
	var out string
	_ = json.Unmarshal(b, &out)
	return out
}

func judgeDump(t *dumpText, q *http.Request, c *dumpCase, a answer, logger string) string {
	d := t.Request
	for _, x := range [][3]string{{"method", d.Method, q.Method}, {"URI", d.URI, q.RequestURI}, {"URL", d.URL, q.URL.String()}, {"host", d.Host, q.Host}, {"protocol", d.Proto, q.Proto}, {"address", d.Remote, q.RemoteAddr},
		{"length", fmt.Sprint(d.Length), fmt.Sprint(q.ContentLength)}, {"secure", fmt.Sprint(d.Secure), fmt.Sprint(q.TLS != nil)}} {
		if x[1] != asJson(x[2]) {
			return fmt.Sprintf("request %s is %q instead of %q", x[0], x[1], x[2])
		}
	}
	for k, v := range q.Header {
		var w []string
		for _, x := range v {
			w = append(w, asJson(x))
		}
		if !reflect.DeepEqual(w, d.Header[asJson(k)]) {
			return fmt.Sprintf("request-header %s is %q instead of %q", k, d.Header[asJson(k)], v)
		}
	}
	for k := range d.Header {
		if _, ok := q.Header[k]; !ok {
			return fmt.Sprintf("request-header %s was not sent", k)
		}
	}
	if !sameTexts(d.Transfer, q.TransferEncoding) {
		return fmt.Sprintf("request-transfer encoding is %q instead of %q", d.Transfer, q.TransferEncoding)
	}
	if form := c.forms["d5"]; logger == "5" {
		if len(form) != len(d.FormFields) {
			return fmt.Sprintf("request-form is %q instead of %q", d.FormFields, form)
		}
		for k, v := range form {
			if !sameTexts(d.FormFields[asJson(k)], v) {
				return fmt.Sprintf("request-form field %q is %q instead of %q", k, d.FormFields[asJson(k)], v)
			}
		}
	} else if len(d.FormFields) > 0 {
		return fmt.Sprintf("request-form is %q, nobody parsed one", d.FormFields)
	}
	// cookies, as a Cookie header or as Set-Cookie would write them
	cs := q.Cookies()
	if len(cs) != len(d.Cookies) {
		return fmt.Sprintf("request-cookies are %q instead of %v", d.Cookies, cs)
	}
	for k, x := range cs {
		if g := d.Cookies[k]; g != asJson(x.String()) && g != asJson(x.Name+"="+x.Value) {
			return fmt.Sprintf("request-cookie %d is %q instead of %q", k, g, x.String())
		}
	}
	// the response
	e := t.Response
	if c.kind == "std" || a.Err != nil {
		// the standard handler decides later
	} else if c.spec != nil && c.spec.bad && c.err == nil {
		// the response cannot be made: what the handler asked for
	} else if e.Code != a.Code {
		return fmt.Sprintf("response-status is %d instead of %d", e.Code, a.Code)
	}
	if a.Err != nil {
		return ""
	}
	bad := c.spec != nil && c.spec.bad
	if !bad && c.kind != "std" {
		for k, v := range e.Header {
			ck := http.CanonicalHeaderKey(k)
			if a.Code == 304 && ck == "Content-Type" {
				continue // net/http leaves it out
			}
			found := false
			for _, x := range a.Header[ck] {
				found = found || asJson(x) == v
			}
			if !found && !(ck == "Content-Type" && v == "") && !(ck == "X-Content-Type-Options" && v == "") {
				return fmt.Sprintf("response-header %s: %q was not sent", k, v)
			}
		}
	}
	must := map[string]string{}
	if c.kind == "spec" {
		for k, v := range c.spec.hdr {
			must[k] = v
		}
	}
	switch {
	case logger == "2" || logger == "5":
		must["X-Inner"] = "i"
	}
	for k, v := range must {
		got, ok := "", false
		for n, x := range e.Header {
			if strings.EqualFold(n, k) {
				got, ok = x, true
			}
		}
		if !ok || got != asJson(v) {
			return fmt.Sprintf("response-header %s is %q instead of %q", k, got, v)
		}
	}
	if c.kind == "spec" {
		var w []string
		for _, x := range c.spec.cookies {
			w = append(w, asJson(x.String()))
		}
		g := append([]string(nil), e.Cookies...)
		sort.Strings(w)
		sort.Strings(g)
		if strings.Join(w, "\n") != strings.Join(g, "\n") {
			return fmt.Sprintf("response-cookies are %q instead of %q", g, w)
		}
	}
	return ""
}

func sameTexts(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for k := range got {
		if got[k] != asJson(want[k]) {
			return false
		}
	}
	return true
}

// judgeTimes decides on the times of a dump, with slack for a clock being set.
func judgeTimes(t *dumpText, c *dumpCase, t0, t1 time.Time) string {
	switch {
	case t.Start < t0.UnixMilli()-dumpSlack || t.Start > t1.UnixMilli()+dumpSlack:
		return fmt.Sprintf("the start time %d is not one during the request", t.Start)
	case t.End < t0.UnixMilli()-dumpSlack || t.End > t1.UnixMilli()+dumpSlack:
		return fmt.Sprintf("the end time %d is not one during the request", t.End)
	case t.End < t.Start-dumpSlack:
		return "the end time is before the start time"
	case c.slow > 0 && t.End-t.Start < c.slow.Milliseconds()/2:
		return fmt.Sprintf("the request took at least %s, by the dump %d ms", c.slow, t.End-t.Start)
	}
	return ""
}

func genDumpHeaders(rng *rand.Rand, h http.Header) {
	for k := rng.Intn(4); k > 0; k-- {
		n := pick(rng, []string{"X-One", "X-Two", "Accept", "Referer", "Origin", "Authorization", "X-Forwarded-For", "If-None-Match"})
		for j := rng.Intn(3); j >= 0; j-- {
			v := genHeaderValue(rng, "")
			if rng.Intn(6) == 0 {
				v = pick(rng, []string{"é", "\xff\xfe", "<&>", "a\tb", "\"quoted\"", "\\", "\u2028", "😀"})
			}
			h.Add(n, v)
		}
	}
	if rng.Intn(100) == 0 {
		h.Set("X-Big", bigText(rng))
	}
	if rng.Intn(2) == 0 {
		for j := rng.Intn(3); j >= 0; j-- {
			h.Add("Cookie", pick(rng, []string{"a=b", "a=b; c=d", "session=\"q\"; x=y", "=v", "a=é", "bad name=1; ok=2", "a=1; a=2", "e="}))
		}
	}
}

// bigText is as long as requests and responses rarely are.
func bigText(rng *rand.Rand) string {
	n := pickInt(rng, 5<<10, 20<<10, 40<<10, 70<<10, 140<<10, 300<<10) + rng.Intn(100)
	return strings.Repeat(pick(rng, []string{"x", "0123456789", "<\"&", "ab c"}), n)[:n-1] + "."
}

var _ = errors.New
