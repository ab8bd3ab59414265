package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
)

// errLog collects what the framework logs.
type errLog struct {
	mu   sync.Mutex
	errs []error
}

func (l *errLog) log(err error) {
	l.mu.Lock()
	l.errs = append(l.errs, err)
	l.mu.Unlock()
}

func (l *errLog) take() []error {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := l.errs
	l.errs = nil
	return e
}

func (l *errLog) count() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.errs)
}

func newMux(ci bool) (*gofre.MuxHandler, *errLog) {
	l := &errLog{}
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: ci, ErrLogFunc: l.log})
	if err != nil {
		panic(err)
	}
	return m, l
}

// srvLog collects what net/http complains about.
type srvLog struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *srvLog) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *srvLog) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func (l *srvLog) reset() {
	l.mu.Lock()
	l.b.Reset()
	l.mu.Unlock()
}

// testServer is a real server with a matching client.
type testServer struct {
	*httptest.Server
	Log    *srvLog
	client *http.Client
	H2     bool
}

// startServer serves h over HTTP/1.1 (plain or TLS) or HTTP/2.
func startServer(h http.Handler, proto string) *testServer {
	s := httptest.NewUnstartedServer(h)
	l := &srvLog{}
	s.Config.ErrorLog = log.New(l, "", 0)
	t := &testServer{Server: s, Log: l}
	switch proto {
	case "h1":
		s.Start()
		t.client = &http.Client{Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 64}}
	case "h10": // an old client: HTTP/1.0, a connection for each request
		s.Start()
		t.client = &http.Client{Transport: &http.Transport{DisableCompression: true, DisableKeepAlives: true,
			DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
				var d net.Dialer
				c, err := d.DialContext(ctx, network, addr)
				return &conn10{Conn: c}, err
			}}}
	case "h1tls":
		s.StartTLS()
		t.client = &http.Client{Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 64,
			TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}
	case "h2":
		s.EnableHTTP2 = true
		s.StartTLS()
		tr := s.Client().Transport.(*http.Transport).Clone()
		tr.DisableCompression = true
		t.client = &http.Client{Transport: tr}
		t.H2 = true
	default:
		panic(proto)
	}
	t.client.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	t.client.Timeout = 60 * time.Second
	return t
}

// conn10 sends its request as HTTP/1.0.
type conn10 struct {
	net.Conn
	done bool
}

func (c *conn10) Write(p []byte) (int, error) {
	if c.done {
		return c.Conn.Write(p)
	}
	c.done = true
	if _, err := c.Conn.Write(bytes.Replace(p, []byte(" HTTP/1.1\r\n"), []byte(" HTTP/1.0\r\n"), 1)); err != nil {
		return 0, err
	}
	return len(p), nil
}

func (t *testServer) stop() {
	t.client.CloseIdleConnections()
	t.Server.CloseClientConnections()
	t.Server.Close()
}

// answer is a response as a client sees it.
type answer struct {
	Proto   string
	Code    int
	Header  http.Header
	Trailer http.Header
	Body    []byte
	Err     error // transport or body error
}

func (t *testServer) do(req *http.Request) answer {
	resp, err := t.client.Do(req)
	if err != nil {
		return answer{Err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return answer{Proto: resp.Proto, Code: resp.StatusCode, Header: resp.Header, Trailer: resp.Trailer, Body: b, Err: err}
}

func (t *testServer) req(method, target string, body io.Reader) *http.Request {
	req, err := http.NewRequest(method, t.URL+target, body)
	if err != nil {
		panic(err)
	}
	noise(req.Header, method, target)
	return req
}

func (t *testServer) get(target string) answer { return t.do(t.req("GET", target, nil)) }

var _ = httptrace.ClientTrace{}

// recorded serves one request into a recorder.
func recorded(h http.Handler, req *http.Request) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return w
}

// dropDate removes the headers the server itself adds.
func dropDate(h http.Header) http.Header {
	c := h.Clone()
	c.Del("Date")
	return c
}

func headerString(h http.Header) string {
	var sb strings.Builder
	_ = dropDate(h).Write(&sb)
	return sb.String()
}

func isPanicLog(s string) bool {
	return strings.Contains(s, "panic serving") || strings.Contains(s, "http2: panic serving")
}

var _ = fmt.Sprint
var _ response.HttpResponse
