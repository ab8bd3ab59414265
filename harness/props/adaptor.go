package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C31", false, runC31) }

func runC31(r *core.Run) {
	r.Rule("generated standard handlers (statuses, headers, cookies, bodies and chunkings, flushes, trailers, conditional and partial content, redirects, early and late headers, panics, hijacked connections, deadlines, full duplex) are served by the standard server directly and through every adaptor, with and without middlewares, on one real server (HTTP/1.1, TLS, HTTP/2): " +
		"what the handler saw and what the client got are compared. Streams are read chunk by chunk in step with the handler; clients leave in the middle and the handler's context must end. A case is one pair of exchanges or one stream; all are non-trivial")
	r.Require("pairs", 5000)
	r.Require("trailers", 100)
	r.Require("odd_methods", 300)
	r.Require("panics", 50)
	r.Require("steps", 500)
	r.Require("cancelled", 50)
	r.Require("special", 300)
	r.Require("large", 15)
	for _, k := range stdKinds {
		r.Require("std_"+k, 20)
	}
	for _, proto := range []string{"h1", "h1tls", "h2"} {
		c31Pairs(r, proto)
		c31Streams(r, proto)
		c31Large(r, proto)
	}
	c31Nested(r)
}

// adaptorLanes are the ways a standard handler is reached.
var adaptorLanes = []string{"handler", "func", "adaptor", "func adaptor", "middlewares", "recover"}

func adaptorMux(h http.Handler, log func(error)) map[string]http.Handler {
	out := map[string]http.Handler{"direct": h}
	for _, lane := range adaptorLanes {
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: log})
		if err != nil {
			panic(err)
		}
		var fh handler.Handler
		var mw []middleware.Middleware
		switch lane {
		case "handler":
			fh = handler.Handler2Handler(h)
		case "func":
			fh = handler.HandlerFunc2Handler(h.ServeHTTP)
		case "adaptor":
			fh = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return response.HandlerAdaptor(h), nil
			}
		case "func adaptor":
			fh = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return response.HandlerFuncAdaptor(h.ServeHTTP), nil
			}
		case "recover":
			fh = handler.Handler2Handler(h)
			mw = []middleware.Middleware{middleware.PanicRecover(), middleware.ErrJsonResponse()}
		case "middlewares":
			fh = handler.Handler2Handler(h)
			mw = []middleware.Middleware{marker("X-Mw-Outer", "outer"), func(h handler.Handler) handler.Handler {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					resp, err := h(ctx, mc)
					resp.Headers().Set("X-Mw-Two", "a, b")
					resp.Cookies().Add(&http.Cookie{Name: "mw", Value: "1", Path: "/p"})
					resp.Cookies().Add(&http.Cookie{Name: "mw2", Value: "2"})
					return resp, err
				}
			}}
		}
		for _, me := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND"} {
			m.HandleRequest(me, "/s/**", fh, mw...)
		}
		out[lane] = m
	}
	return out
}

// stdSpecial are behaviours beyond those of genStd.
var stdSpecial = []string{"none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "hijack", "controller", "full duplex", "read trailers", "copy body", "reader from", "server only", "implicit type", "error after", "huge header", "push"}

type stdExt struct {
	*stdScript
	special string
	mu      sync.Mutex
	views   map[string]string
	done    chan string // lanes whose handler returned
}

func (s *stdExt) handle(lane string, w http.ResponseWriter, q *http.Request) {
	note := func(v any) {
		s.mu.Lock()
		s.views[lane] += fmt.Sprint(v) + ";"
		s.mu.Unlock()
	}
	note(fmt.Sprint(q.Method, q.RequestURI, q.URL, q.URL.RawPath, q.Proto, q.Host, q.Header, q.ContentLength, q.TransferEncoding, q.Close, q.TLS != nil, q.Trailer, q.Cookies(), q.Context().Err(),
		q.Context().Value(http.ServerContextKey) != nil, q.Context().Value(http.LocalAddrContextKey) != nil, q.Form == nil, q.MultipartForm == nil, q.Pattern))
	_, fl := w.(http.Flusher)
	_, rf := w.(io.ReaderFrom)
	_, sw := w.(io.StringWriter)
	note(fmt.Sprint(fl, rf, sw, w.Header()["Date"]))
	switch s.special {
	case "none":
		if s.panics {
			io.Copy(io.Discard, q.Body)
		}
		s.serve(w, q)
		return
	case "hijack":
		rc := http.NewResponseController(w)
		c, b, err := rc.Hijack()
		if err != nil {
			note("cannot hijack")
			http.Error(w, "no hijack", 501)
			return
		}
		fmt.Fprintf(b, "HTTP/1.1 299 Own\r\nX-Own: 1\r\nContent-Length: 5\r\nConnection: close\r\n\r\nowned")
		b.Flush()
		c.Close()
		return
	case "controller":
		rc := http.NewResponseController(w)
		note(fmt.Sprint(rc.SetReadDeadline(time.Now().Add(time.Hour)), rc.SetWriteDeadline(time.Now().Add(time.Hour))))
		io.WriteString(w, "one")
		note(fmt.Sprint(rc.Flush()))
		io.WriteString(w, "two")
		return
	case "full duplex":
		note(fmt.Sprint(http.NewResponseController(w).EnableFullDuplex() == nil))
		b := make([]byte, 10)
		n, _ := io.ReadFull(q.Body, b)
		w.Write(b[:n])
		io.Copy(w, q.Body)
		return
	case "read trailers":
		b, err := io.ReadAll(q.Body)
		note(fmt.Sprint(len(b), err, q.Trailer))
		fmt.Fprint(w, q.Trailer)
		return
	case "copy body":
		b, err := io.ReadAll(q.Body) // (over HTTP/1 what is left of the body when the answer begins may be lost)
		note(err)
		w.Write(b)
		return
	case "reader from":
		w.Header().Set("Content-Type", "text/x")
		n, err := io.Copy(w, io.LimitReader(rand.New(rand.NewSource(7)), 70000))
		note(fmt.Sprint(n, err))
		return
	case "server only":
		note(q.Context().Value(http.ServerContextKey).(*http.Server).Addr)
		w.Header()["Date"] = nil
		w.WriteHeader(207)
		return
	case "implicit type":
		io.WriteString(w, "<html><body>sniffed")
		return
	case "error after":
		io.WriteString(w, "part")
		http.Error(w, "late", 500)
		return
	case "huge header":
		for k := 0; k < 50; k++ {
			w.Header().Add("X-Many", strings.Repeat(fmt.Sprint(k), 20))
		}
		w.Header().Set("X-Empty", "")
		w.Header()["X-Nil"] = nil
		return
	case "push":
		if p, ok := w.(http.Pusher); ok {
			note(fmt.Sprint("pusher ", p.Push("/s/pushed", nil) != nil))
		}
		io.WriteString(w, "pushed")
		return
	}
	panic(s.special)
}

type extStore struct {
	mu sync.Mutex
	m  map[string]*stdExt
}

func (e *extStore) get(id string) *stdExt {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.m[id]
}

func (e *extStore) set(id string, s *stdExt) {
	e.mu.Lock()
	if s == nil {
		delete(e.m, id)
	} else {
		e.m[id] = s
	}
	e.mu.Unlock()
}

func stdId(q *http.Request) string {
	return strings.SplitN(strings.TrimPrefix(q.URL.Path, "/s/"), "/", 2)[0]
}

type laneKey struct{}

// laned serves the lane that a header asks for.
func laned(lanes map[string]http.Handler, ended func(lane string, q *http.Request)) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		lane := q.Header.Get("X-Lane")
		try := q.Header.Get("X-Try")
		q.Header.Del("X-Lane")
		q.Header.Del("X-Try")
		defer ended(lane+"#"+try, q)
		lanes[lane].ServeHTTP(w, q.WithContext(context.WithValue(q.Context(), laneKey{}, lane+"#"+try)))
	})
}

// mwAdds are the headers of the lane with middlewares.
func mwDrop(a *answer) string {
	if g := a.Header["X-Mw-Outer"]; !reflect.DeepEqual(g, []string{"outer"}) {
		return fmt.Sprintf("the header of a middleware is %q", g)
	}
	if g := a.Header["X-Mw-Two"]; !reflect.DeepEqual(g, []string{"a, b"}) {
		return fmt.Sprintf("the header of a middleware is %q", g)
	}
	a.Header.Del("X-Mw-Outer")
	a.Header.Del("X-Mw-Two")
	var rest []string
	n := 0
	for _, c := range a.Header["Set-Cookie"] {
		if c == "mw=1; Path=/p" || c == "mw2=2" {
			n++
		} else {
			rest = append(rest, c)
		}
	}
	if n != 2 {
		return fmt.Sprintf("the cookies of a middleware are not added once each: %q", a.Header["Set-Cookie"])
	}
	if rest == nil {
		a.Header.Del("Set-Cookie")
	} else {
		a.Header["Set-Cookie"] = rest
	}
	return ""
}

func c31Pairs(r *core.Run, proto string) {
	st := &extStore{m: map[string]*stdExt{}}
	el := &errLog{}
	base := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		lane := q.Context().Value(laneKey{}).(string)
		st.get(stdId(q)).handle(lane, w, q)
	})
	ts := startServer(laned(adaptorMux(base, el.log), func(lane string, q *http.Request) {
		if s := st.get(stdId(q)); s != nil {
			s.done <- lane
		}
	}), proto)
	defer ts.stop()
	parallel(r, proto, r.N(7000, 70000), func(i int) {
		rng := r.Rand("c31"+proto, i)
		id := fmt.Sprintf("i%d", i)
		s := &stdExt{stdScript: genStd(rng, stdOpt{trailers: true, panics: true}), views: map[string]string{}, done: make(chan string, 100)}
		s.special = pick(rng, stdSpecial)
		lane := pick(rng, adaptorLanes)
		if s.special != "none" {
			s.panics = false
			r.Count("special", 1)
			r.Seen("specials", s.special)
		} else {
			r.Count("std_"+s.kind, 1)
		}
		if s.special == "full duplex" || s.special == "read trailers" || s.special == "copy body" {
			s.method = "POST"
			s.body = genBody(rng)
		}
		if s.special == "hijack" || s.special == "controller" {
			s.method, s.body = "GET", nil
		}
		if s.special == "none" && rng.Intn(8) == 0 {
			// the framework finds the handler in any letter case; the handler sees the method that was sent
			if rng.Intn(3) == 0 {
				s.method = "PROPFIND"
			}
			s.method = recase(rng, s.method)
			r.Count("odd_methods", 1)
		}
		if s.special == "full duplex" && len(s.body) > 30000 {
			s.body = s.body[:30000]
		}
		if strings.Contains(s.desc, "trailers") {
			r.Count("trailers", 1)
		}
		st.set(id, s)
		defer st.set(id, nil)
		target := "/s/" + id + pick(rng, []string{"", "/a", "/a%2Fb/c", "/%C3%A9", "/a;b", "//a", "/./a", "/a/../b", "/a%20b"}) + pick(rng, []string{"", "?x=1&y=%2f", "?"})
		if s.special == "read trailers" && len(s.body) == 0 {
			s.body = []byte("b") // (the client of HTTP/2 hangs on an empty body with trailers)
		}
		chunked := rng.Intn(3) == 0 || s.special == "read trailers"
		ask := func(lane string, try int) answer {
			var b io.Reader
			if s.body != nil {
				b = bytes.NewReader(s.body)
				if chunked {
					b = struct{ io.Reader }{b}
				}
			}
			q := ts.req(s.method, target, b)
			if s.special == "read trailers" {
				q.Trailer = http.Header{"X-Sent-Trailer": {"tv"}}
			}
			for k, v := range s.hdr {
				q.Header[k] = append([]string(nil), v...)
			}
			q.Header.Set("X-Lane", lane)
			q.Header.Set("X-Try", fmt.Sprint(try))
			q.Close = s.panics // the server closes the connection, maybe after the next request is on it
			a := ts.do(q)
			if a.Err == nil {
				normal(&a)
			}
			return a
		}
		// a request lost with its connection, which no handler saw, is sent again
		tries := 0
		exchange := func(lane string) (answer, string) {
			for again := 0; ; again++ {
				tries++
				try := tries
				a := ask(lane, try)
				key := fmt.Sprint(lane, "#", try)
				patience := 30 * time.Second // the handler may still be running after the answer was received
				if a.Err != nil {
					patience = 2 * time.Second
				}
				end := time.After(patience)
				for called := false; !called; {
					select {
					case k := <-s.done:
						called = k == key
					case <-end:
						called = true
					}
				}
				s.mu.Lock()
				v := s.views[key]
				s.mu.Unlock()
				if a.Err != nil && v == "" && again < 4 {
					r.Count("sent_again", 1)
					continue
				}
				return a, v
			}
		}
		what := s.kind
		if s.special != "none" {
			what = s.special
		}
		var d, a answer
		var vd, va, sig, text string
		// what the network itself does to one exchange (a connection reset while an answer
		// is under way) does not come back every time; what the framework does, does
		for k := 0; k < 3; k++ {
			d, vd = exchange("direct")
			a, va = exchange(lane)
			if sig, text = judgeAdapted(s, lane, ts.H2, what, target, d, vd, a, va); sig == "" {
				break
			}
			r.Count("judged_again", 1)
		}
		r.Count("pairs", 1)
		if s.panics {
			r.Count("panics", 1)
		}
		r.Case(proto+lane+s.String()+s.special+fmt.Sprint(i), true)
		if sig != "" {
			r.Violate(sig, text, map[string]any{"proto": proto, "case": i, "lane": lane, "target": target, "handler": s.String(), "special": s.special, "request_headers": s.hdr, "panics": s.panics,
				"direct":       map[string]any{"status": d.Code, "headers": d.Header, "trailers": d.Trailer, "body": clip(string(d.Body)), "error": fmt.Sprint(d.Err), "saw": clip(vd)},
				"in_framework": map[string]any{"status": a.Code, "headers": a.Header, "trailers": a.Trailer, "body": clip(string(a.Body)), "error": fmt.Sprint(a.Err), "saw": clip(va)}})
		}
		if i < 3 {
			r.Sample(fmt.Sprintf("%s %s %s %s %s: %d, %d bytes", proto, lane, target, s.String(), s.special, a.Code, len(a.Body)))
		}
	})
	for _, e := range el.take() {
		r.Violate("logged", "an adapted handler made the framework log an error: "+errText(e), nil)
	}
}

// judgeAdapted compares an exchange inside the framework with the direct one.
func judgeAdapted(s *stdExt, lane string, h2 bool, what, target string, d answer, vd string, a answer, va string) (sig, text string) {
	if va == "" && a.Err == nil && a.Code == 404 && vd != "" {
		if strings.Contains(target, "..") || strings.Contains(target, "//") || strings.Contains(target, "/./") {
			return "", "" // the router cleans such paths (another property)
		}
		return "unreached", "the adapted handler was not called"
	}
	if vd != va {
		return "view:" + what, "the handler sees another request inside the framework"
	}
	if (d.Err != nil) != (a.Err != nil) {
		return "transport:" + what, "the answer can be received only one way"
	}
	if d.Err != nil {
		if !bytes.Equal(d.Body, a.Body) && len(d.Body) > 0 && len(a.Body) > 0 && !s.panics {
			return "part:" + what, "the part of the body received differs"
		}
		return "", ""
	}
	if d.Code != a.Code {
		return "status:" + what, fmt.Sprintf("status %d instead of %d", a.Code, d.Code)
	}
	// (a hijacked connection carries only what its new owner writes)
	if lane == "middlewares" && (s.special != "hijack" || h2) {
		if why := mwDrop(&a); why != "" {
			return "middleware:" + what, why
		}
	}
	if !bytes.Equal(d.Body, a.Body) {
		return "body:" + what, fmt.Sprintf("the body differs: %d bytes instead of %d, first difference at %d", len(a.Body), len(d.Body), diffAt(a.Body, d.Body))
	}
	if why := headerDiff(d.Header, a.Header); why != "" {
		return "header:" + what + ":" + sigOf(why), "the headers differ: " + why
	}
	if why := headerDiff(d.Trailer, a.Trailer); why != "" {
		return "trailer:" + what, "the trailers differ: " + why
	}
	return "", ""
}

// c31Streams reads streams in step with the handler, and leaves some of them.
func c31Streams(r *core.Run, proto string) {
	type stream struct {
		n       int
		chunks  []string
		read    chan int // the client got chunk k
		stuck   atomic.Bool
		ctxEnd  chan struct{}
		leaveAt int
	}
	var mu sync.Mutex
	live := map[string]*stream{}
	const patience = 60 * time.Second
	base := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		s := live[stdId(q)]
		mu.Unlock()
		for k, c := range s.chunks {
			io.WriteString(w, c)
			if err := http.NewResponseController(w).Flush(); err != nil {
				s.stuck.Store(true)
				return
			}
			if k == s.leaveAt {
				select {
				case <-q.Context().Done():
					close(s.ctxEnd)
				case <-time.After(patience):
					s.stuck.Store(true)
				}
				return
			}
			select {
			case <-s.read:
			case <-q.Context().Done():
				return
			case <-time.After(patience):
				s.stuck.Store(true)
				return
			}
		}
	})
	el := &errLog{}
	ts := startServer(laned(adaptorMux(base, el.log), func(string, *http.Request) {}), proto)
	defer ts.stop()
	parallel(r, proto+" streams", r.N(300, 3000), func(i int) {
		rng := r.Rand("c31s"+proto, i)
		id := fmt.Sprintf("i%d", i)
		s := &stream{n: 1 + rng.Intn(5), read: make(chan int, 10), ctxEnd: make(chan struct{}), leaveAt: -1}
		for k := 0; k < s.n; k++ {
			s.chunks = append(s.chunks, fmt.Sprintf("<%d:%s>", k, genText(rng, 1+rng.Intn(50))))
		}
		if rng.Intn(3) == 0 {
			s.leaveAt = rng.Intn(s.n)
		}
		mu.Lock()
		live[id] = s
		mu.Unlock()
		lane := pick(rng, append([]string{"direct"}, adaptorLanes...))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		q := ts.req("GET", "/s/"+id, nil).WithContext(ctx)
		q.Header.Set("X-Lane", lane)
		r.Case(proto+"stream"+lane+id, true)
		det := map[string]any{"proto": proto, "lane": lane, "case": i, "chunks": s.chunks, "leave_at": s.leaveAt}
		resp, err := ts.client.Do(q)
		if err != nil {
			r.Violate("stream-error", "a stream cannot be received: "+err.Error(), det)
			return
		}
		defer resp.Body.Close()
		for k, c := range s.chunks {
			b := make([]byte, len(c))
			if _, err := io.ReadFull(resp.Body, b); err != nil || string(b) != c {
				r.Violate("stream-chunk", fmt.Sprintf("chunk %d was not delivered when it was flushed: %v %q, handler stuck: %v", k, err, b, s.stuck.Load()), det)
				return
			}
			r.Count("steps", 1)
			if k == s.leaveAt {
				cancel()
				resp.Body.Close()
				select {
				case <-s.ctxEnd:
					r.Count("cancelled", 1)
				case <-time.After(patience + 5*time.Second):
					r.Violate("context", "the context of the handler did not end when the client left", det)
				}
				return
			}
			s.read <- k
		}
		if rest, err := io.ReadAll(resp.Body); err != nil || len(rest) > 0 {
			r.Violate("stream-end", fmt.Sprintf("the stream did not end cleanly: %v %q", err, rest), det)
		}
	})
	_ = el
}

// pattern is an endless sequence of bytes.
type pattern struct{ at int }

var patternBlock = randBytes(rand.New(rand.NewSource(5)), 99991)

func (p *pattern) Read(b []byte) (int, error) {
	n := copy(b, patternBlock[p.at:])
	p.at = (p.at + n) % len(patternBlock)
	return n, nil
}

// c31Large sends many megabytes both ways.
func c31Large(r *core.Run, proto string) {
	base := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		h := sha256.New()
		n, err := io.Copy(h, q.Body)
		w.Header().Set("X-Got", fmt.Sprintf("%d %x %v", n, h.Sum(nil), err))
		size, _ := strconv.ParseInt(q.Header.Get("X-Size"), 10, 64)
		io.Copy(w, io.LimitReader(&pattern{}, size))
	})
	el := &errLog{}
	ts := startServer(laned(adaptorMux(base, el.log), func(string, *http.Request) {}), proto)
	defer ts.stop()
	for k, lane := range adaptorLanes {
		rng := r.Rand("c31l"+proto, k)
		up := int64(pickInt(rng, 1<<20+1, 5<<20, 9<<20, 12<<20, 17<<20, 33<<20) + rng.Intn(1000))
		down := int64(pickInt(rng, 1<<20+1, 5<<20, 9<<20, 12<<20, 17<<20, 33<<20) + rng.Intn(1000))
		r.Begin("large %s %s", proto, lane)
		var body io.Reader = io.LimitReader(&pattern{}, up)
		q := ts.req("POST", fmt.Sprintf("/s/large%d", k), body)
		if rng.Intn(2) == 0 {
			q.ContentLength = up
		}
		q.Header.Set("X-Lane", lane)
		q.Header.Set("X-Size", fmt.Sprint(down))
		h := sha256.New()
		io.Copy(h, io.LimitReader(&pattern{}, up))
		want := fmt.Sprintf("%d %x <nil>", up, h.Sum(nil))
		h.Reset()
		io.Copy(h, io.LimitReader(&pattern{}, down))
		resp, err := ts.client.Do(q)
		r.Case("large"+proto+lane, true)
		r.Count("large", 1)
		det := map[string]any{"proto": proto, "lane": lane, "sent": up, "to_receive": down, "error": fmt.Sprint(err)}
		if err != nil {
			r.Violate("large-error", "a large exchange fails: "+err.Error(), det)
			continue
		}
		g := sha256.New()
		n, err := io.Copy(g, resp.Body)
		resp.Body.Close()
		if got := resp.Header.Get("X-Got"); got != want {
			r.Violate("large-request", fmt.Sprintf("of a large request the handler got %q instead of %q", got, want), det)
		}
		if err != nil || n != down || string(g.Sum(nil)) != string(h.Sum(nil)) {
			r.Violate("large-response", fmt.Sprintf("a large response arrives with %d of %d bytes, or changed (%v)", n, down, err), det)
		}
	}
	if e := el.take(); len(e) > 0 {
		r.Violate("large-logged", "a large exchange is logged as an error: "+e[0].Error(), nil)
	}
}

// c31Nested puts muxes inside of each other: a framework mux is a standard
// handler itself.
func c31Nested(r *core.Run) {
	parallel(r, "nested", r.N(2000, 20000), func(i int) {
		rng := r.Rand("c31n", i)
		spec := genSpec(rng, specOpt{maxH: 4, maxC: 3, noBad: true})
		inner, l1 := newMux(false)
		outer, l2 := newMux(false)
		inner.HandleGet("/a/{x}/c", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp := spec.build()
			if mc.PathVar("x") != "v" {
				return nil, fmt.Errorf("variable %q", mc.PathVar("x"))
			}
			return resp, nil
		})
		outer.HandleGet("/a/**", handler.Handler2Handler(inner))
		q := newRequest("GET", "/a/v/c", nil)
		w := recorded(outer, q)
		r.Case(fmt.Sprint("nested", i, spec), true)
		if why := spec.judge(w.Code, w.Header(), w.Body.Bytes(), q, false); why != "" {
			r.Violate("nested:"+sigOf(why), "a mux inside a mux answers differently: "+why, map[string]any{"response": spec.String(), "logged": fmt.Sprint(l1.take(), l2.take())})
		}
	})
}

var _ net.Conn
var _ = bufio.NewReader
