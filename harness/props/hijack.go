package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C34", true, runC34) }

// hjPlan is what happens on one taken over connection.
type hjPlan struct {
	id      string
	method  string
	body    []byte
	chunked bool
	http10  bool
	before  int    // requests answered on the connection before
	ahead   []byte // sent right behind the request
	delay   bool   // ahead is sent apart
	greet   []byte // what the application writes first
	rounds  [][]byte
	via     string // "conn" or "buffer": how the application writes
	async   bool   // the callback returns before the conversation
	bare    bool   // the application closes without a word
	mu      sync.Mutex
	bad     []string
	calls   int
	done    chan bool
	got     []byte // what the application read
}

func (p *hjPlan) add(f string, a ...any) {
	p.mu.Lock()
	p.bad = append(p.bad, fmt.Sprintf(f, a...))
	p.mu.Unlock()
}

// take is what the application does with its connection.
func (p *hjPlan) take(c net.Conn, rw *bufio.ReadWriter, err error) {
	p.mu.Lock()
	p.calls++
	n := p.calls
	p.mu.Unlock()
	if n > 1 {
		p.add("the callback is called %d times", n)
		return
	}
	if err != nil || c == nil || rw == nil {
		p.add("the connection is not handed over: conn %v, buffer %v, err %v", c != nil, rw != nil, err)
		close(p.done)
		return
	}
	if p.async {
		go p.talk(c, rw)
	} else {
		p.talk(c, rw)
	}
}

func (p *hjPlan) talk(c net.Conn, rw *bufio.ReadWriter) {
	defer close(p.done)
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	if p.bare {
		return
	}
	if p.async { // the request is long over
		time.Sleep(3 * time.Millisecond)
	}
	send := func(b []byte) bool {
		var err error
		if p.via == "conn" {
			_, err = c.Write(b)
		} else if _, err = rw.Write(b); err == nil {
			err = rw.Flush()
		}
		if err != nil {
			p.add("the application cannot write: %v", err)
		}
		return err == nil
	}
	if len(p.greet) > 0 && !send(p.greet) {
		return
	}
	read := func(n int) bool {
		b := make([]byte, n)
		m, err := io.ReadFull(rw, b)
		p.got = append(p.got, b[:m]...)
		if err != nil {
			p.add("the application cannot read what the client sent: %d of %d bytes, %v", m, n, err)
		}
		return err == nil
	}
	if !read(len(p.ahead)) {
		return
	}
	for _, s := range p.rounds {
		if !read(len(s)) || !send(hjReply(s)) {
			return
		}
	}
}

func hjReply(b []byte) []byte { return append([]byte("<"), append(bytes.ToUpper(b), '>')...) }

func hjBytes(rng *rand.Rand, max int) []byte {
	b := make([]byte, rng.Intn(max+1))
	for k := range b {
		b[k] = byte(rng.Intn(256))
	}
	return b
}

var hjAhead = []string{"", "", "x", "GET /next HTTP/1.1\r\nHost: x\r\n\r\n", "\r\n\r\n", "\x81\x05hello", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "0\r\n\r\n"}

func genHj(rng *rand.Rand, id string) *hjPlan {
	p := &hjPlan{id: id, method: pick(rng, []string{"GET", "GET", "POST", "CONNECTX"}), before: rng.Intn(3), via: pick(rng, []string{"conn", "buffer"}),
		async: rng.Intn(2) == 0, bare: rng.Intn(8) == 0, delay: rng.Intn(3) == 0, done: make(chan bool)}
	p.ahead = []byte(pick(rng, hjAhead))
	if rng.Intn(3) == 0 {
		p.ahead = hjBytes(rng, 3000)
	}
	if rng.Intn(6) == 0 {
		p.ahead = hjBytes(rng, 20000) // beyond the server's buffer
	}
	if p.method == "POST" {
		p.body = hjBytes(rng, pickInt(rng, 0, 10, 6000))
		p.chunked = rng.Intn(2) == 0
	}
	if rng.Intn(6) == 0 {
		p.http10, p.before, p.chunked = true, 0, false
	}
	p.greet = []byte(pick(rng, []string{"", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: own\r\nConnection: Upgrade\r\n\r\n", "hi", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok", "\x00\xff"}))
	if rng.Intn(5) == 0 {
		p.greet = hjBytes(rng, 9000)
	}
	for k := rng.Intn(4); k > 0; k-- {
		p.rounds = append(p.rounds, hjBytes(rng, 300))
	}
	return p
}

// hjWriter is a response writer that can be taken over in memory.
type hjWriter struct {
	touched atomic.Int64
	conn    net.Conn
	rw      *bufio.ReadWriter
	err     error
	calls   int
}

func (w *hjWriter) Header() http.Header         { w.touched.Add(1); return http.Header{} }
func (w *hjWriter) Write(b []byte) (int, error) { w.touched.Add(1); return len(b), nil }
func (w *hjWriter) WriteHeader(int)             { w.touched.Add(1) }
func (w *hjWriter) Flush()                      { w.touched.Add(1) }
func (w *hjWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.calls++
	return w.conn, w.rw, w.err
}

// hjConn is a connection that counts every use of it.
type hjConn struct {
	net.Conn
	used *atomic.Int64
}

func (c *hjConn) Read(b []byte) (int, error)         { c.used.Add(1); return 0, io.EOF }
func (c *hjConn) Write(b []byte) (int, error)        { c.used.Add(1); return len(b), nil }
func (c *hjConn) Close() error                       { c.used.Add(1); return nil }
func (c *hjConn) SetDeadline(t time.Time) error      { c.used.Add(1); return nil }
func (c *hjConn) SetReadDeadline(t time.Time) error  { c.used.Add(1); return nil }
func (c *hjConn) SetWriteDeadline(t time.Time) error { c.used.Add(1); return nil }

// the middlewares a takeover passes through
var hjMws = []string{"recover", "dump", "json errors", "text errors", "csrf", "principal", "nobody", "authorize", "cors", "secure"}

func hjChain(rng *rand.Rand) ([]middleware.Middleware, []string) {
	var mws []middleware.Middleware
	var names []string
	for k := rng.Intn(4); k > 0; k-- {
		n := pick(rng, hjMws)
		for _, w := range lifeMws {
			if w.name == n {
				mws, names = append(mws, w.make(func(string, context.Context) {})), append(names, n)
			}
		}
	}
	return mws, names
}

func runC34(r *core.Run) {
	r.Rule("raw clients (HTTP/1.0, HTTP/1.1, TLS) send some ordinary requests, then one whose handler takes the connection over (after reading its body, through random middlewares), with bytes right behind it or apart, then hold a conversation of random bytes; the application writes through the connection or the buffer, before or after its callback has returned, and closes; the client compares every byte it receives with what the application wrote and the application every byte it reads with what the client sent; the callback must come once, without an error; over HTTP/2 and with writers that cannot be taken over it must come once, with an error and nothing else; a writer's own answer to the takeover must come through unchanged")
	r.Assume("responses that give up the connection are not behind the middlewares that replace the response (compression)")
	r.Require("taken over", 300)
	r.Require("bytes read by the application", 10000)
	r.Require("bytes written by the application", 10000)
	r.Require("cannot be taken over", 200)
	r.Require("taken over in memory", 200)
	n := r.N(60, 600)
	for i := 0; i < n && !r.Violated(); i++ {
		rng := r.Rand("hijack", i)
		c34Server(r, rng, i)
	}
	c34Memory(r)
}

func c34Server(r *core.Run, rng *rand.Rand, i int) {
	r.Begin("hijack server %d", i)
	m, el := newMux(false)
	mws, names := hjChain(rng)
	common := rng.Intn(len(mws) + 1)
	m.CommonMiddlewares(mws[:common]...)
	var plans sync.Map
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		v, ok := plans.Load(mc.PathVar("id"))
		if !ok {
			return nil, errors.New("no plan")
		}
		p := v.(*hjPlan)
		b, err := io.ReadAll(mc.R.Body)
		if err != nil || !bytes.Equal(b, p.body) {
			p.add("the body has %d bytes, not %d: %v", len(b), len(p.body), err)
		}
		return response.NewHttpHijackConnectionResponse(p.take), nil
	}
	for _, me := range []string{"GET", "POST", "CONNECTX"} {
		m.HandleRequest(me, "/take/{id}", h, mws[common:]...)
	}
	m.HandleGet("/plain/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("plain " + mc.PathVar("id")), nil
	}, mws[common:]...)
	proto := pick(rng, []string{"h1", "h1", "h1tls"})
	ts := startServer(m, proto)
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		p := genHj(rng, fmt.Sprintf("%d-%d", i, k))
		plans.Store(p.id, p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			detail := map[string]any{"middlewares": names, "proto": proto, "method": p.method, "before": p.before, "ahead": len(p.ahead), "apart": p.delay, "http10": p.http10, "via": p.via, "async": p.async, "bare": p.bare, "rounds": len(p.rounds), "body": len(p.body), "chunked": p.chunked}
			if !c34Talk(r, ts, p, proto) {
				r.Count("dropped", 1)
				return
			}
			p.mu.Lock()
			defer p.mu.Unlock()
			r.Count("taken over", 1)
			r.Case(fmt.Sprint(detail), true)
			r.Sample(detail)
			if p.calls != 1 {
				p.bad = append([]string{fmt.Sprintf("the callback is called %d times", p.calls)}, p.bad...)
			}
			if len(p.bad) > 0 {
				r.Violate("hijack:"+strings.SplitN(p.bad[0], ":", 2)[0], "a taken over connection: "+clip(p.bad[0]), map[string]any{"case": detail, "all": p.bad})
			}
		}()
	}
	wg.Wait()
	ts.stop()
	if s := ts.Log.String(); strings.Contains(s, "hijacked") || isPanicLog(s) {
		r.Violate("hijack-server-log", "the server complains about a taken over connection: "+clip(s), map[string]any{"middlewares": names})
	}
	if errs := el.take(); len(errs) > 0 {
		r.Violate("hijack-logged", "a takeover is logged as an error: "+clip(errs[0].Error()), map[string]any{"middlewares": names})
	}
}

// c34Talk is the client; false: the connection could not be used at all.
func c34Talk(r *core.Run, ts *testServer, p *hjPlan, proto string) bool {
	addr := ts.Listener.Addr().String()
	var c net.Conn
	var err error
	if proto == "h1tls" {
		c, err = tls.Dial("tcp", addr, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}})
	} else {
		c, err = net.Dial("tcp", addr)
	}
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	br := bufio.NewReader(c)
	for k := 0; k < p.before; k++ {
		fmt.Fprintf(c, "GET /plain/%s HTTP/1.1\r\nHost: x\r\n\r\n", p.id)
		resp, err := http.ReadResponse(br, nil)
		if err != nil {
			return false
		}
		b, _ := io.ReadAll(resp.Body)
		if resp.StatusCode != 200 || string(b) != "plain "+p.id {
			p.add("an ordinary request is answered %d %q", resp.StatusCode, clip(string(b)))
		}
	}
	var req bytes.Buffer
	v := "1.1"
	if p.http10 {
		v = "1.0"
	}
	fmt.Fprintf(&req, "%s /take/%s HTTP/%s\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: own\r\n%s: n%s\r\n", p.method, p.id, v, middleware.CSRFRestNonceHeaderName, p.id)
	switch {
	case p.chunked:
		req.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		if len(p.body) > 0 {
			fmt.Fprintf(&req, "%x\r\n%s\r\n", len(p.body), p.body)
		}
		req.WriteString("0\r\n\r\n")
	case p.method == "POST":
		fmt.Fprintf(&req, "Content-Length: %d\r\n\r\n%s", len(p.body), p.body)
	default:
		req.WriteString("\r\n")
	}
	if p.delay {
		if _, err := c.Write(req.Bytes()); err != nil {
			return false
		}
		time.Sleep(time.Millisecond)
		req.Reset()
	}
	req.Write(p.ahead)
	write := func(b []byte) bool {
		// the application may close at once
		_, err := c.Write(b)
		return err == nil || p.bare
	}
	if !write(req.Bytes()) {
		p.add("the client cannot send: the connection is closed")
	}
	expect := func(what string, want []byte) bool {
		b := make([]byte, len(want))
		m, err := io.ReadFull(br, b)
		if err != nil || !bytes.Equal(b, want) {
			p.add("the client receives something else than the application wrote (%s): %q, not %q, %v", what, clip(string(b[:m])), clip(string(want)), err)
			return false
		}
		r.Count("bytes written by the application", int64(len(want)))
		return true
	}
	ok := true
	if !p.bare {
		ok = expect("greeting", p.greet)
		for k := 0; ok && k < len(p.rounds); k++ {
			if ok = write(p.rounds[k]); !ok {
				p.add("the client cannot send: the connection is closed")
				break
			}
			ok = expect(fmt.Sprint("round ", k), hjReply(p.rounds[k]))
		}
	}
	if ok {
		rest, err := io.ReadAll(br)
		if len(rest) > 0 {
			p.add("the client receives bytes the application did not write: %q", clip(string(rest)))
		} else if err != nil && !p.bare && !strings.Contains(err.Error(), "reset") {
			p.add("the connection does not end when the application closes it: %v", err)
		}
	}
	select {
	case <-p.done:
	case <-time.After(30 * time.Second):
		p.add("the application's callback is never called, or does not end")
		return true
	}
	if !p.bare && ok {
		want := append([]byte(nil), p.ahead...)
		for _, s := range p.rounds {
			want = append(want, s...)
		}
		if !bytes.Equal(p.got, want) {
			p.add("the application does not read what the client sent: %d bytes of %d", len(p.got), len(want))
		}
		r.Count("bytes read by the application", int64(len(p.got)))
	}
	return true
}

// c34Memory: writers that cannot be taken over, or say what comes of it.
func c34Memory(r *core.Run) {
	n := r.N(60, 800)
	parallel(r, "hijack memory", n, func(i int) {
		rng := r.Rand("hijack memory", i)
		m, el := newMux(false)
		mws, names := hjChain(rng)
		var calls atomic.Int64
		type seen struct {
			c   net.Conn
			rw  *bufio.ReadWriter
			err error
		}
		var mu sync.Mutex
		var last seen
		// one response for all the requests
		shared := response.NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {
			calls.Add(1)
			mu.Lock()
			last = seen{c, rw, err}
			mu.Unlock()
		})
		m.HandleGet("/take/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return shared, nil }, mws...)
		judge := func(what string, f func(), want int64, err func(seen) string) {
			calls.Store(0)
			last = seen{}
			p, st := core.Guard(f)
			detail := map[string]any{"middlewares": names, "writer": what}
			if p != nil {
				r.Violate("hijack-panic:"+what, fmt.Sprintf("a takeover panics: %v", p), map[string]any{"case": detail, "stack": clip(st)})
				return
			}
			if c := calls.Load(); c != want {
				r.Violate("hijack-calls:"+what, fmt.Sprintf("the callback is called %d times", c), detail)
				return
			}
			mu.Lock()
			bad := err(last)
			mu.Unlock()
			if bad != "" {
				r.Violate("hijack-told:"+what, "the callback is told something else: "+bad, detail)
			}
			if errs := el.take(); len(errs) > 0 && what == "own" {
				r.Violate("hijack-logged:"+what, "a takeover is logged as an error: "+clip(errs[0].Error()), detail)
			}
			r.Case(fmt.Sprint(what, names), len(names) > 0)
		}
		refused := func(s seen) string {
			if s.c != nil || s.rw != nil || s.err == nil {
				return fmt.Sprintf("conn %v, buffer %v, err %v", s.c != nil, s.rw != nil, s.err)
			}
			return ""
		}
		for k := 0; k < 6; k++ {
			q := func() *http.Request { return httptest.NewRequest("GET", "/take/1", nil) }
			rec := httptest.NewRecorder()
			judge("recorder", func() { m.ServeHTTP(rec, q()) }, 1, refused)
			r.Count("cannot be taken over", 1)
			w := &hjWriter{}
			a := &hjConn{used: &w.touched}
			switch rng.Intn(3) {
			case 0:
				w.err = errors.New("own refusal")
			case 1:
				w.conn, w.rw = a, bufio.NewReadWriter(bufio.NewReader(a), bufio.NewWriter(a))
			case 2:
				w.conn, w.err = a, errors.New("both")
			}
			judge("own", func() { m.ServeHTTP(w, q()) }, 1, func(s seen) string {
				if s.c != w.conn || s.rw != w.rw || s.err != w.err {
					return fmt.Sprintf("conn %v, buffer %v, err %v", s.c, s.rw, s.err)
				}
				return ""
			})
			if w.calls != 1 || w.touched.Load() > 0 {
				r.Violate("hijack-touched", fmt.Sprintf("the connection is taken over %d times, the writer used %d times beside", w.calls, w.touched.Load()), names)
			}
			r.Count("taken over in memory", 1)
		}
		if i%10 == 0 {
			ts := startServer(m, "h2")
			for k := 0; k < 3; k++ {
				var ans answer
				judge("h2", func() { ans = ts.get("/take/1") }, 1, refused)
				if ans.Err != nil {
					r.Violate("hijack-h2", fmt.Sprintf("over HTTP/2 the request is answered %d %q %v", ans.Code, clip(string(ans.Body)), ans.Err), names)
				}
				r.Count("cannot be taken over", 1)
			}
			if s := ts.Log.String(); isPanicLog(s) {
				r.Violate("hijack-h2-log", "the server complains: "+clip(s), names)
			}
			ts.stop()
		}
	})
}
