package props

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C17", false, runC17) }

// accepted is an Accept-Encoding header and what the client listed in it.
type accepted struct {
	header  string
	set     bool
	gzip    bool // listed without a parameter
	deflate bool
	strange bool // listed with parameters only: no encoding is required, and none of weight 0 may be used
}

func genAccept(rng *rand.Rand) accepted {
	if rng.Intn(12) == 0 {
		return accepted{}
	}
	a := accepted{set: true}
	toks := []string{"gzip", "deflate", "br", "identity", "zstd", "*", "x-gzip", "gzipped", "GZIP", "Deflate", "gzip;q=0", "deflate;q=0", "gzip;q=0.5", "deflate;q=1.0", "", "agzip", "de flate"}
	n := rng.Intn(4)
	if rng.Intn(6) == 0 {
		n = rng.Intn(10)
	}
	var l []string
	has := map[string]bool{}
	for k := 0; k < n; k++ {
		t := pick(rng, toks)
		if rng.Intn(2) == 0 {
			t = toks[rng.Intn(3)]
		}
		base := strings.ToLower(strings.SplitN(t, ";", 2)[0])
		if base == "gzip" || base == "deflate" {
			if has[base] {
				continue
			}
			has[base] = true
		}
		switch strings.ToLower(t) {
		case "gzip":
			a.gzip = true
		case "deflate":
			a.deflate = true
		case "gzip;q=0.5", "deflate;q=1.0":
			a.strange = true
		}
		l = append(l, pick(rng, []string{"", "", " ", "  ", "\t"})+t+pick(rng, []string{"", "", "", " ", " \t"}))
	}
	a.header = strings.Join(l, ",")
	return a
}

// judgeEncoding decides whether an encoding may and must be there.
func (a accepted) judge(enc string, must bool) string {
	switch enc {
	case "gzip":
		if a.gzip || a.strange && strings.Contains(strings.ToLower(a.header), "gzip;q=0.5") {
			return ""
		}
		return "the encoding gzip was not listed in Accept-Encoding"
	case "deflate":
		if a.gzip {
			return "deflate was preferred to gzip"
		}
		if a.deflate || a.strange && strings.Contains(strings.ToLower(a.header), "deflate;q=1.0") {
			return ""
		}
		return "the encoding deflate was not listed in Accept-Encoding"
	case "":
		if must && (a.gzip || a.deflate) {
			return "the body was not compressed"
		}
		return ""
	}
	return "an encoding nobody listed: " + enc
}

func runC17(r *core.Run) {
	r.Rule("every response kind of the library and scripted standard handlers (conditional, partial, already encoded, bodiless and failing answers included) are requested with and without the compression middleware, at every level and with generated Accept-Encoding lists, " +
		"at real HTTP/1.1 and HTTP/2 clients; the decoded answer is compared with the plain one. In memory, chunks are written and flushed, and after each flush the bytes that left are decoded. " +
		"A case is one pair of requests or one flushed stream, non-trivial when the answer was compressed")
	for _, k := range []string{"gzip", "deflate"} {
		r.Require("encoded_"+k, 500)
	}
	r.Require("levels", 11)
	r.Require("spec", 1000)
	r.Require("std", 1000)
	r.Require("head", 200)
	r.Require("flushes", 2000)
	r.Require("sizes_0", 50)
	r.Require("ranges", 50)
	for _, k := range stdKinds {
		r.Require("std_"+k, 20)
	}
	c17Levels(r)
	c17Flush(r)
	c17Chain(r)
	for _, proto := range []string{"h1", "h2"} {
		c17Http(r, proto)
	}
}

// c17Http compares plain and compressed answers at a real client.
func c17Http(r *core.Run, proto string) {
	tab := newSpecTable()
	std := newStdStore()
	l := &errLog{}
	specH := tab.handler()
	stdH := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		s := std.get(mc.PathVar("id"))
		if len(mc.R.URL.Query().Get("h")) > 0 {
			return response.HandlerAdaptor(s.serve), nil
		}
		return response.HandlerFuncAdaptor(s.serve), nil
	}
	// the same routes with every middleware; the client chooses with a header
	lanes := map[string]http.Handler{}
	reg := func(lane string, mw ...middleware.Middleware) {
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: l.log})
		if err != nil {
			panic(err)
		}
		for _, me := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"} {
			m.HandleRequest(me, "/spec/{id}", specH, mw...)
			m.HandleRequest(me, "/std/{id}", stdH, mw...)
		}
		lanes[lane] = m
	}
	reg("plain")
	for lvl := -1; lvl <= 9; lvl++ {
		reg(fmt.Sprintf("c%d", lvl), middleware.CompressResponse(lvl))
	}
	// the middleware among others, and twice
	reg("c10", middleware.PanicRecover(), middleware.CompressResponse(5), middleware.ErrJsonResponse())
	reg("c11", middleware.CompressResponse(6), middleware.CompressResponse(1))
	ts := startServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		lane := q.Header.Get("X-Lane")
		q.Header.Del("X-Lane")
		lanes[lane].ServeHTTP(w, q)
	}), proto)
	defer ts.stop()
	parallel(r, proto, r.N(15000, 150000), func(i int) {
		rng := r.Rand("c17"+proto, i)
		id := fmt.Sprintf("i%d", i)
		lvl := rng.Intn(13) - 1
		acc := genAccept(rng)
		var target, method, desc string
		var sp *rspec
		var sc *stdScript
		extra := http.Header{}
		var reqBody []byte
		if rng.Intn(2) == 0 {
			sp = genSpec(rng, specOpt{maxH: 3, maxC: 2, noBad: true})
			tab.put(id, sp)
			defer tab.drop(id)
			target = "/spec/" + id
			method = pick(rng, []string{"GET", "GET", "GET", "POST", "HEAD", "PUT"})
			desc = sp.String()
			r.Count("spec", 1)
		} else {
			sc = genStd(rng, stdOpt{})
			std.put(id, sc)
			defer std.drop(id)
			target = "/std/" + id
			method = sc.method
			extra = sc.hdr
			reqBody = sc.body
			desc = sc.String()
			r.Count("std", 1)
			r.Count("std_"+sc.kind, 1)
		}
		ask := func(lane, method string) answer {
			var b io.Reader
			if reqBody != nil {
				b = bytes.NewReader(reqBody)
			}
			q := ts.req(method, target, b)
			q.Header.Set("X-Lane", lane)
			for k, v := range extra {
				q.Header[k] = append([]string(nil), v...)
			}
			if acc.set {
				q.Header.Set("Accept-Encoding", acc.header)
			} else {
				q.Header.Del("Accept-Encoding")
			}
			a := ts.do(q)
			if a.Err == nil {
				normalRaw(&a)
			}
			return a
		}
		p := ask("plain", method)
		c := ask(fmt.Sprintf("c%d", lvl), method)
		r.Seen("levels", fmt.Sprint(lvl))
		if method == "HEAD" {
			r.Count("head", 1)
		}
		enc := c.Header.Get("Content-Encoding")
		own := p.Header.Get("Content-Encoding")
		det := func() any {
			return map[string]any{"proto": proto, "level": lvl, "accept_encoding": acc.header, "response": desc, "method": method,
				"plain":      map[string]any{"status": p.Code, "headers": p.Header, "body": clip(string(p.Body)), "error": fmt.Sprint(p.Err)},
				"compressed": map[string]any{"status": c.Code, "headers": c.Header, "body": clip(string(c.Body)), "error": fmt.Sprint(c.Err)}}
		}
		what := "library"
		if sc != nil {
			what = sc.kind
		}
		r.Case(proto+desc+acc.header+fmt.Sprint(lvl, i), enc != "" && own == "")
		if p.Err != nil {
			return // the plain handler itself cannot be served (not judged here)
		}
		bad := func(sig, text string) {
			r.Violate(sig+":"+what, text, det())
		}
		if c.Err != nil {
			bad("transport", "the answer cannot be received with the compression middleware: "+c.Err.Error())
			return
		}
		if c.Code != p.Code {
			bad("status", fmt.Sprintf("the compression middleware changes the status %d to %d", p.Code, c.Code))
			return
		}
		if len(c.Header["Content-Encoding"]) > 1 {
			bad("encodings", "several Content-Encoding headers")
			return
		}
		body := c.Body
		if own != "" {
			if enc != own {
				bad("own-encoding", fmt.Sprintf("the handler's own encoding %q became %q", own, enc))
				return
			}
		} else {
			// compressing is due when there is a whole body
			must := method != "HEAD" && len(p.Body) > 0 && p.Code != 204 && p.Code != 304 && p.Code != 206 && p.Header.Get("Content-Range") == ""
			if why := acc.judge(enc, must); why != "" {
				bad("negotiation", why)
				return
			}
			if enc != "" && p.Code == 206 && p.Header.Get("Content-Range") != "" {
				bad("range", "a part of a body was encoded: the range it says it is counts other bytes")
				return
			}
			if p.Code == 206 && p.Header.Get("Content-Range") != "" && (acc.gzip || acc.deflate) {
				r.Count("ranges", 1)
			}
			if enc != "" {
				r.Count("encoded_"+enc, 1)
				if method != "HEAD" {
					if len(c.Body) == 0 && len(p.Body) == 0 {
						// nothing to decode
					} else if d, err := decode(enc, c.Body); err != nil {
						bad("decode", "the client cannot decode the body: "+err.Error())
						return
					} else {
						body = d
					}
				}
			}
		}
		if len(p.Body) == 0 {
			r.Count("sizes_0", 1)
		}
		// after decoding, random multipart boundaries are levelled
		pn, cn := p, c
		pn.Header, cn.Header = p.Header.Clone(), c.Header.Clone()
		cn.Body = body
		normal(&pn)
		normal(&cn)
		if !bytes.Equal(pn.Body, cn.Body) && !(sp != nil && sp.isJson && sameJson(pn.Body, cn.Body)) {
			bad("body", fmt.Sprintf("the decoded body differs from the plain one: %d bytes instead of %d, first difference at %d", len(cn.Body), len(pn.Body), diffAt(cn.Body, pn.Body)))
			return
		}
		skip := []string{"Content-Length", "Content-Encoding", "Transfer-Encoding", "Vary", "Connection"}
		if (sc != nil && !sc.ctype) || (sp != nil && sp.ctype == "") {
			skip = append(skip, "Content-Type") // sniffed by the server
		}
		if why := headerDiff(pn.Header, cn.Header, skip...); why != "" {
			bad("header:"+sigOf(why), "the compression middleware changes the headers: "+why)
			return
		}
		if v := p.Header["Vary"]; len(v) > 0 && !strings.Contains(strings.Join(c.Header["Vary"], ","), v[0]) {
			bad("vary", "the compression middleware loses the Vary header of the response")
			return
		}
		if method == "HEAD" {
			// a length announced to HEAD is the one GET would have
			if cl := c.Header.Get("Content-Length"); cl != "" && (sp != nil || sc.kind != "echo" && sc.kind != "mux") {
				g := ask(fmt.Sprintf("c%d", lvl), "GET")
				if g.Err == nil && g.Header.Get("Content-Encoding") == enc && fmt.Sprint(len(g.Body)) != cl {
					bad("head-length", fmt.Sprintf("HEAD announces %s bytes, GET has %d", cl, len(g.Body)))
				}
			}
		}
	})
	if n := len(l.take()); n > 0 {
		// responses that write where HTTP allows no body report it; nothing else may
		r.Count("logged", int64(n))
	}
	if isPanicLog(ts.Log.String()) {
		r.Violate("server-panic", "the compression middleware makes the server panic", map[string]any{"log": clip(ts.Log.String())})
	}
}

// normalRaw keeps the raw body: only the Date is dropped.
func normalRaw(a *answer) { a.Header.Del("Date") }

func sameJson(a, b []byte) bool {
	x, e1 := decoded(a)
	y, e2 := decoded(b)
	return e1 == nil && e2 == nil && fmt.Sprint(x) == fmt.Sprint(y)
}

// recWriter records what leaves, and what had left at each flush.
type recWriter struct {
	h       http.Header
	codes   []int
	b       bytes.Buffer
	flushed int // bytes that had left at the last flush
	flushes int
}

func (w *recWriter) Header() http.Header { return w.h }
func (w *recWriter) WriteHeader(c int)   { w.codes = append(w.codes, c) }
func (w *recWriter) implicit() {
	if len(w.codes) == 0 {
		w.codes = append(w.codes, 200)
	}
}
func (w *recWriter) Write(p []byte) (int, error) { w.implicit(); return w.b.Write(p) }
func (w *recWriter) Flush()                      { w.implicit(); w.flushes++; w.flushed = w.b.Len() }

// prefix decodes as much as it can of an unfinished stream.
func prefix(enc string, b []byte) []byte {
	var zr io.Reader
	switch enc {
	case "gzip":
		g, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil
		}
		zr = g
	case "deflate":
		zr = flate.NewReader(bytes.NewReader(b))
	default:
		return b
	}
	var out bytes.Buffer
	io.Copy(&out, zr)
	return out.Bytes()
}

func c17Flush(r *core.Run) {
	parallel(r, "flush", r.N(8000, 80000), func(i int) {
		rng := r.Rand("c17f", i)
		lvl := rng.Intn(11) - 1
		enc := pick(rng, []string{"gzip", "deflate", "gzip", "deflate", "br"})
		w := &recWriter{h: http.Header{}}
		var all []byte
		what := pick(rng, []string{"std", "raw", "own encoding"})
		done := 0
		n := 1 + rng.Intn(6)
		explicit := rng.Intn(3) == 0
		check := func(step string) {
			e := w.h.Get("Content-Encoding")
			if e == "br" {
				e = ""
			}
			left := w.b.Bytes()[:w.flushed]
			if w.flushes == done {
				r.Violate("flush-lost:"+what, "a flush of the handler does not reach the client's connection", map[string]any{"encoding": e, "level": lvl, "step": step})
				return
			}
			done = w.flushes
			got := prefix(e, left)
			r.Count("flushes", 1)
			if !bytes.Equal(got, all) {
				r.Violate("flush-held:"+what, fmt.Sprintf("after a flush the client can decode %d of the %d bytes written", len(got), len(all)),
					map[string]any{"encoding": e, "level": lvl, "step": step, "left": len(left), "statuses": w.codes})
			}
			if want := map[bool]int{true: 202, false: 200}[explicit && what != "raw"]; len(w.codes) != 1 || w.codes[0] != want {
				r.Violate("flush-status:"+what, "a flushed response has the wrong status", map[string]any{"statuses": w.codes, "want": want})
			}
		}
		body := func(out io.Writer, fl http.Flusher) {
			if rng.Intn(4) == 0 {
				fl.Flush()
				check("before the first write")
			}
			for k := 0; k < n; k++ {
				b := genBody(rng)
				if len(b) > 30000 {
					b = b[:30000]
				}
				for len(b) > 0 {
					c := min(len(b), 1+rng.Intn(5000))
					if m, err := out.Write(b[:c]); m != c || err != nil {
						r.Violate("write", fmt.Sprintf("writing %d bytes reported %d, %v", c, m, err), nil)
						return
					}
					all = append(all, b[:c]...)
					b = b[c:]
				}
				fl.Flush()
				check(fmt.Sprintf("flush %d", k))
				if rng.Intn(4) == 0 {
					fl.Flush()
					check("repeated flush")
				}
			}
			if rng.Intn(2) == 0 {
				t := []byte("the tail")
				out.Write(t)
				all = append(all, t...)
			}
		}
		var resp response.HttpResponse
		switch what {
		case "raw":
			resp = response.RawWriterHttpResponse("text/plain", func(o io.Writer) error {
				body(o, o.(http.Flusher))
				return nil
			})
		default:
			resp = response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) {
				if what == "own encoding" {
					w.Header().Set("Content-Encoding", "br")
				}
				if explicit {
					w.WriteHeader(202)
				}
				body(w, w.(http.Flusher))
			})
		}
		h := middleware.CompressResponse(lvl)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return resp, nil })
		q := newRequest("GET", "/", nil)
		q.Header.Set("Accept-Encoding", enc)
		r.Try("flushing", map[string]any{"level": lvl, "encoding": enc, "kind": what}, func() {
			x, err := h(q.Context(), path.MatchingContext{R: q})
			if err == nil {
				err = x.Write(w, path.MatchingContext{R: q})
			}
			if err != nil {
				r.Violate("flush-error", "a flushed response reports "+err.Error(), nil)
			}
		})
		e := w.h.Get("Content-Encoding")
		r.Case(fmt.Sprint(what, lvl, enc, len(all), n, i), e == "gzip" || e == "deflate")
		if e == "br" {
			e = ""
		}
		d, err := decode(e, w.b.Bytes())
		if err != nil || !bytes.Equal(d, all) {
			r.Violate("flush-end:"+what, fmt.Sprintf("the whole flushed stream decodes to %d bytes instead of %d (%v)", len(d), len(all), err), map[string]any{"encoding": e, "level": lvl})
		}
	})
}

// c17Levels judges what the middleware does besides compressing.
func c17Levels(r *core.Run) {
	boom := errors.New("boom")
	for lvl := -5; lvl <= 15; lvl++ {
		mw := middleware.CompressResponse(lvl)
		valid := lvl >= -1 && lvl <= 9
		ctx := context.WithValue(context.Background(), ctxKey("k"), "v")
		var seen context.Context
		var h handler.Handler = func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			seen = c
			return response.PlainTextHttpResponse(201, "text"), nil
		}
		q := newRequest("GET", "/", nil)
		r.Try("level", lvl, func() {
			resp, err := mw(h)(ctx, path.MatchingContext{R: q})
			if !valid {
				if err == nil {
					r.Violate("level", fmt.Sprintf("the compression level %d is accepted", lvl), nil)
				}
				return
			}
			if err != nil || resp == nil {
				r.Violate("level", fmt.Sprintf("the compression level %d is refused: %v", lvl, err), nil)
				return
			}
			if resp.StatusCode() != 201 || seen.Value(ctxKey("k")) != "v" {
				r.Violate("view", fmt.Sprintf("the wrapped response has status %d", resp.StatusCode()), nil)
			}
			resp.Headers().Set("X-Outer", "1")
			resp.Cookies().Add(&http.Cookie{Name: "outer", Value: "2"})
			w := httptest.NewRecorder()
			resp.Write(w, path.MatchingContext{R: q})
			if w.Header().Get("X-Outer") != "1" || w.Header().Get("Set-Cookie") != "outer=2" || w.Code != 201 || w.Body.String() != "text" {
				r.Violate("outer", "headers and cookies set on the wrapped response are lost", map[string]any{"headers": w.Header(), "status": w.Code})
			}
		})
		r.Try("level", lvl, func() {
			resp, err := mw(func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, boom })(ctx, path.MatchingContext{R: q})
			if err != boom || resp != nil {
				r.Violate("error", fmt.Sprintf("an error does not pass the compression middleware unchanged: %v, %v", resp, err), nil)
			}
		})
	}
}

type ctxKey string

// c17Chain: as a common middleware of an application with error handling.
func c17Chain(r *core.Run) {
	m, err := gofre.NewMuxHandlerWithDefaultConfig()
	if err != nil {
		panic(err)
	}
	m.CommonMiddlewares(middleware.CompressResponse(4), middleware.ErrJsonResponse(), middleware.PanicRecover())
	m.HandleGet("/ok", func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.HtmlHttpResponseOK(strings.Repeat("<p>text</p>", 500)), nil
	})
	m.HandleGet("/err", func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, errors.New("boom")
	})
	m.HandleGet("/panic", func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) { panic("x") })
	ts := startServer(m, "h1")
	defer ts.stop()
	for _, enc := range []string{"", "gzip", "deflate"} {
		for _, t := range []struct {
			path string
			code int
			has  string
		}{{"/ok", 200, strings.Repeat("<p>text</p>", 500)}, {"/err", 500, `"error"`}, {"/panic", 500, `"error"`}} {
			q := ts.req("GET", t.path, nil)
			if enc != "" {
				q.Header.Set("Accept-Encoding", enc)
			}
			a := ts.do(q)
			d, e := decode(a.Header.Get("Content-Encoding"), a.Body)
			r.Case("chain"+enc+t.path, enc != "")
			if a.Err != nil || a.Code != t.code || e != nil || !bytes.Contains(d, []byte(t.has)) || a.Header.Get("Content-Encoding") != enc {
				r.Violate("chain"+t.path, "a compressed application answers wrongly", map[string]any{"encoding": enc, "status": a.Code, "headers": a.Header, "body": clip(string(d)), "error": fmt.Sprint(a.Err, e)})
			}
		}
	}
}
