package props

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C18", false, runC18) }

// block is one event as the fields of the stream give it.
type block struct {
	Name  string
	Data  []string
	Id    string
	HasId bool
	Retry string
	Other string // comments and unknown fields
}

func (b block) empty() bool {
	return b.Name == "" && len(b.Data) == 0 && !b.HasId && b.Retry == "" && b.Other == ""
}

func (b block) String() string { return fmt.Sprintf("%+q", fmt.Sprintf("%#v", b)) }

// parseStream reads an event stream as the HTML standard says; rest is what
// stands after the last blank line.
func parseStream(s []byte) (blocks []block, rest string) {
	t := strings.TrimPrefix(string(s), "\ufeff")
	var cur block
	for t != "" {
		k := strings.IndexAny(t, "\r\n")
		if k < 0 {
			break
		}
		line := t[:k]
		if t[k] == '\r' && k+1 < len(t) && t[k+1] == '\n' {
			k++
		}
		t = t[k+1:]
		if line == "" {
			if !cur.empty() {
				blocks = append(blocks, cur)
			}
			cur = block{}
			rest = t
			continue
		}
		f, v, _ := strings.Cut(line, ":")
		v = strings.TrimPrefix(v, " ")
		switch f {
		case "event":
			if cur.Name != "" {
				cur.Other += "second event field;"
			}
			cur.Name = v
		case "data":
			cur.Data = append(cur.Data, v)
		case "id":
			if cur.HasId {
				cur.Other += "second id field;"
			}
			cur.Id, cur.HasId = v, true
		case "retry":
			cur.Retry += v
		default:
			cur.Other += line + ";"
		}
		rest = t
		if t == "" {
			break
		}
	}
	if !cur.empty() {
		rest = "unfinished " + cur.String()
	} else {
		rest = t
	}
	return
}

// wantBlock is the model of one event.
func wantBlock(e response.ServerSentEvent) block {
	strip := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "\r", ""), "\n", "")
	}
	b := block{Name: strip(e.Name)}
	for _, d := range e.Data {
		// the lines of the value
		from := 0
		for k := 0; k < len(d); k++ {
			if d[k] != '\r' && d[k] != '\n' {
				continue
			}
			b.Data = append(b.Data, d[from:k])
			if d[k] == '\r' && k+1 < len(d) && d[k+1] == '\n' {
				k++
			}
			from = k + 1
		}
		b.Data = append(b.Data, d[from:])
	}
	if e.Id != "" {
		b.Id, b.HasId = strip(e.Id), true
	}
	if e.Retry > 0 {
		b.Retry = strconv.Itoa(e.Retry)
	}
	return b
}

func sameBlocks(want, got []block) string {
	for k := range want {
		if k >= len(got) {
			return fmt.Sprintf("%d events instead of %d, event %d is missing: %s", len(got), len(want), k, want[k])
		}
		if fmt.Sprintf("%#v", want[k]) != fmt.Sprintf("%#v", got[k]) {
			return fmt.Sprintf("event %d is %s instead of %s", k, got[k], want[k])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d events instead of %d, the first extra one: %s", len(got), len(want), got[len(want)])
	}
	return ""
}

func sseText(rng *rand.Rand, max int) string {
	parts := []string{"a", "b", "text", "\n", "\r\n", "\r", ":", " ", "  ", "data: x", "\nid: 7", "\nevent: evil", "\n\n", "\n\ndata: fake\n\n", "\r\rretry: 1\r", "é", "\x00", "\xff", "\ufeff", "id", "retry: 5", "\u2028", "\t", "{\"k\":1}"}
	var sb strings.Builder
	for k := rng.Intn(max + 1); k > 0; k-- {
		if rng.Intn(2) == 0 {
			sb.WriteString(parts[rng.Intn(3)])
		} else {
			sb.WriteString(pick(rng, parts))
		}
	}
	return sb.String()
}

func genEvent(rng *rand.Rand) response.ServerSentEvent {
	var e response.ServerSentEvent
	if rng.Intn(2) == 0 {
		e.Name = "n" + sseText(rng, 4)
	}
	switch rng.Intn(8) {
	case 0:
	case 1:
		e.Data = []string{""}
	case 2:
		e.Data = []string{strings.Repeat(sseText(rng, 8), 1+rng.Intn(pickInt(rng, 10, 100, 1500)))}
	default:
		for k := rng.Intn(4); k >= 0; k-- {
			e.Data = append(e.Data, sseText(rng, 6))
		}
	}
	if rng.Intn(2) == 0 {
		e.Id = "i" + sseText(rng, 4)
	}
	if rng.Intn(3) == 0 {
		e.Retry = rng.Intn(100000) - 1000
		if rng.Intn(5) == 0 {
			e.Retry = pickInt(rng, 1, 9, 86400000, 86400001, 604800001, 1<<31-1, 1<<31, 1<<40, 1<<62)
		}
	}
	return e
}

func wantBlocks(evs []response.ServerSentEvent) []block {
	var out []block
	for _, e := range evs {
		if b := wantBlock(e); !b.empty() {
			out = append(out, b)
		}
	}
	return out
}

// sseStream is one stream a test asks for.
type sseStream struct {
	events []response.ServerSentEvent
	buf    int
	hdr    map[string]string
	cook   []*http.Cookie
	added  []*http.Cookie
	lastId string
	how    int
	ran    atomic.Int32
	gotId  atomic.Value
}

func genStream(rng *rand.Rand) *sseStream {
	s := &sseStream{buf: rng.Intn(4), how: rng.Intn(4)}
	n := rng.Intn(8)
	if rng.Intn(6) == 0 {
		n = rng.Intn(60)
	}
	for k := 0; k < n; k++ {
		s.events = append(s.events, genEvent(rng))
	}
	s.hdr = genHeaders(rng, "", 3)
	delete(s.hdr, "Cache-Control")
	s.added, s.cook = genCookies(rng, "", 2)
	switch rng.Intn(3) {
	case 0:
		s.lastId = pick(rng, []string{"1", "id with spaces", "a:b", "\xc3\xa9", "0123456789", "-1"})
	}
	s.gotId.Store("")
	return s
}

func (s *sseStream) response() response.HttpResponse {
	gen := func(ctx context.Context, last string) <-chan response.ServerSentEvent {
		s.ran.Add(1)
		s.gotId.Store(last)
		c := make(chan response.ServerSentEvent, s.buf)
		go func() {
			defer close(c)
			for _, e := range s.events {
				select {
				case c <- e:
				case <-ctx.Done():
					return
				}
			}
		}()
		return c
	}
	h := response.HttpHeaders{}
	for k, v := range s.hdr {
		h.Set(k, v)
	}
	var r *response.HttpSSEResponse
	hDone, cDone := false, false
	switch s.how {
	case 0:
		r = response.SSEHttpResponse(gen)
	case 1:
		r = response.SSEHttpResponseWithHeaders(gen, h)
		hDone = true
	default:
		r = response.SSEHttpResponseWithHeadersAndCookies(gen, h, response.NewHttpCookie(s.added...))
		hDone, cDone = true, true
	}
	if !hDone {
		for k, v := range s.hdr {
			r.Headers().Set(k, v)
		}
	}
	if !cDone {
		r.Cookies().Add(s.added...)
	}
	return r
}

// asSpec lets the judge of ordinary responses look at status, headers, cookies and type.
func (s *sseStream) asSpec() *rspec {
	h := map[string]string{"Cache-Control": "no-cache"}
	for k, v := range s.hdr {
		h[k] = v
	}
	return &rspec{kind: "sse", code: 200, ctype: "text/event-stream", hdr: h, cookies: s.cook}
}

func runC18(r *core.Run) {
	r.Rule("generated event streams (line breaks of every form and injected fields in names, ids and data; empty events; custom headers and cookies; buffered and unbuffered channels) are read by HTTP/2 clients, many at once and also compressed, and parsed as the HTML standard says; " +
		"in memory, the bytes flushed are compared with the events taken at the moment each next event is taken, and clients leave in the middle; HTTP/1 clients ask too. A case is one stream, non-trivial when it has events")
	r.Require("events", 10000)
	r.Require("takes", 5000)
	r.Require("left", 200)
	r.Require("long_streams", 10)
	r.Require("http1", 100)
	r.Require("last_id", 200)
	r.Require("compressed", 200)
	c18Http(r)
	c18Prompt(r)
	c18Leave(r)
}

func c18Http(r *core.Run) {
	var mu sync.Mutex
	streams := map[string]*sseStream{}
	m, l := newMux(false)
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		mu.Lock()
		s := streams[mc.PathVar("id")]
		mu.Unlock()
		return s.response(), nil
	}
	m.HandleGet("/s/{id}", h)
	m.HandleGet("/z/{id}", h, middleware.CompressResponse(6))
	m.HandlePost("/s/{id}", h)
	ts := startServer(m, "h2")
	ts1 := startServer(m, "h1")
	defer ts1.stop()
	parallel(r, "h2", r.N(15000, 120000), func(i int) {
		rng := r.Rand("c18", i)
		s := genStream(rng)
		id := fmt.Sprint(i)
		mu.Lock()
		streams[id] = s
		mu.Unlock()
		defer func() { mu.Lock(); delete(streams, id); mu.Unlock() }()
		pre, method := "/s/", pick(rng, []string{"GET", "GET", "GET", "POST"})
		enc := ""
		if rng.Intn(3) == 0 {
			pre, method = "/z/", "GET"
			enc = pick(rng, []string{"gzip", "deflate", ""})
		}
		srv := ts
		http1 := rng.Intn(8) == 0
		if http1 {
			srv = ts1
		}
		noise := ""
		if rng.Intn(4) == 0 { // only the header tells what the client has
			noise = "?" + pick(rng, []string{"lastEventId", "last_event_id", "Last-Event-Id", "Last-Event-ID", "id", "lastId", "from", "since", "retry", "event"}) + "=" + fmt.Sprint(rng.Intn(100))
			r.Count("query_noise", 1)
		}
		q := srv.req(method, pre+id+noise, nil)
		if s.lastId != "" {
			q.Header.Set("Last-Event-Id", s.lastId)
			r.Count("last_id", 1)
		}
		q.Header.Set("Accept-Encoding", enc)
		a := srv.do(q)
		r.Case(fmt.Sprintf("%v %d", s.events, i), len(s.events) > 0)
		det := func() any {
			return map[string]any{"events": fmt.Sprintf("%q", fmt.Sprintf("%#v", s.events)), "status": a.Code, "headers": a.Header, "body": clip(string(a.Body)), "error": fmt.Sprint(a.Err), "proto": a.Proto, "last_event_id": s.lastId}
		}
		if a.Err != nil {
			r.Violate("transport", "the stream could not be received: "+a.Err.Error(), det())
			return
		}
		if http1 {
			r.Count("http1", 1)
			if a.Code != 500 || len(a.Body) > 0 && enc == "" || s.ran.Load() != 0 {
				r.Violate("http1", fmt.Sprintf("an HTTP/1 client got status %d and the generator ran %d times", a.Code, s.ran.Load()), det())
			}
			return
		}
		if i < 3 {
			r.Sample(det())
		}
		if n := s.ran.Load(); n != 1 {
			r.Violate("runs", fmt.Sprintf("the generator ran %d times", n), det())
			return
		}
		if g := s.gotId.Load().(string); g != s.lastId {
			r.Violate("last-id", fmt.Sprintf("the generator got the last event id %q instead of %q", g, s.lastId), det())
		}
		head := a.Header.Clone()
		if e := head.Get("Content-Encoding"); e != "" {
			r.Count("compressed", 1)
			d, err := decode(e, a.Body)
			if err != nil || e != enc {
				r.Violate("encoding", fmt.Sprintf("the stream cannot be decoded: %v", err), det())
				return
			}
			a.Body = d
			head.Del("Content-Encoding")
		}
		if why := s.asSpec().judge(a.Code, head, nil, q, true); why != "" {
			r.Violate("head:"+sigOf(why), "the head of an event stream is wrong: "+why, det())
			return
		}
		got, rest := parseStream(a.Body)
		if why := sameBlocks(wantBlocks(s.events), got); why != "" {
			r.Violate("events", "the client does not get the events of the generator: "+why, det())
			return
		}
		if rest != "" {
			r.Violate("rest", "the stream ends with something that is no event: "+clip(rest), det())
		}
		r.Count("events", int64(len(s.events)))
	})
	if isPanicLog(ts.Log.String() + ts1.Log.String()) {
		r.Violate("server-panic", "an event stream makes the server panic", map[string]any{"log": clip(ts.Log.String() + ts1.Log.String())})
	}
	for _, e := range l.take() {
		if e != response.ErrNotHttp2Request {
			r.Violate("logged", "serving event streams logs "+e.Error(), nil)
		}
	}
	ts.stop()
}

// syncWriter is a writer another goroutine may look at.
type syncWriter struct {
	mu      sync.Mutex
	h       http.Header
	code    int
	b       bytes.Buffer
	flushed int
	strOnly bool
}

func (w *syncWriter) Header() http.Header { return w.h }
func (w *syncWriter) WriteHeader(c int) {
	w.mu.Lock()
	if w.code == 0 {
		w.code = c
	}
	w.mu.Unlock()
}
func (w *syncWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.b.Write(p)
}
func (w *syncWriter) Flush() {
	w.mu.Lock()
	w.flushed = w.b.Len()
	w.mu.Unlock()
}
func (w *syncWriter) left() []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]byte(nil), w.b.Bytes()[:w.flushed]...)
}

// c18Prompt: when the next event is taken, the previous ones have left.
func c18Prompt(r *core.Run) {
	parallel(r, "prompt", r.N(10000, 80000), func(i int) {
		rng := r.Rand("c18p", i)
		n := 1 + rng.Intn(12)
		long := i%800 == 7
		if long { // looked at now and then
			n = 500 + rng.Intn(r.N(2500, 20000))
			r.Count("long_streams", 1)
		}
		var evs []response.ServerSentEvent
		for k := 0; k < n; k++ {
			e := genEvent(rng)
			if len(e.Data) == 1 && len(e.Data[0]) > 2000 {
				e.Data[0] = e.Data[0][:2000]
			}
			if long {
				e = response.ServerSentEvent{Id: fmt.Sprint(k), Data: []string{fmt.Sprint("event ", k)}}
			}
			evs = append(evs, e)
		}
		comp := rng.Intn(3) == 0
		w := &syncWriter{h: http.Header{}}
		var resp response.HttpResponse = response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			c := make(chan response.ServerSentEvent) // a send ends when the event is taken
			go func() {
				defer close(c)
				for k, e := range evs {
					c <- e
					if long && k > 20 && k < n-3 && k%41 != 0 {
						continue
					}
					left := w.left()
					if comp {
						left = prefix("gzip", left)
					}
					got, _ := parseStream(left)
					want := wantBlocks(evs[:k])
					r.Count("takes", 1)
					if len(got) < len(want) {
						r.Violate("prompt", fmt.Sprintf("event %d is taken while only %d of the %d events before it were written and flushed", k, len(got), len(want)),
							map[string]any{"events": fmt.Sprintf("%q", fmt.Sprint(evs)), "flushed": clip(string(left)), "compressed": comp})
						for range evs[k+1:] {
							c <- response.ServerSentEvent{}
						}
						return
					}
				}
			}()
			return c
		})
		q := newRequest("GET", "/", nil)
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
		if comp {
			q.Header.Set("Accept-Encoding", "gzip")
			resp, _ = response.NewHttpCompressResponse(resp, 5)
		}
		var err error
		r.Try("writing a stream", i, func() { err = resp.Write(w, path.MatchingContext{R: q}) })
		left := w.left()
		if comp {
			left = w.b.Bytes()
			left, _ = decode("gzip", left)
		}
		got, rest := parseStream(left)
		r.Case(fmt.Sprint("prompt", evs, i), true)
		if why := sameBlocks(wantBlocks(evs), got); why != "" || rest != "" || err != nil {
			r.Violate("end", fmt.Sprintf("after the end of the stream: %s %q %v", why, rest, err), map[string]any{"events": fmt.Sprintf("%q", fmt.Sprint(evs)), "flushed": clip(string(left))})
		}
	})
}

// c18Leave: clients leave in the middle of a stream.
func c18Leave(r *core.Run) {
	parallel(r, "leave", r.N(4000, 40000), func(i int) {
		rng := r.Rand("c18l", i)
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey("k"), i))
		defer cancel()
		at := rng.Intn(6)
		early := rng.Intn(5) == 0
		if early {
			cancel()
		}
		var after, taken int
		reached := false
		var ctxAfter, ctxBefore error
		var val any
		fin := make(chan struct{})
		stop := make(chan struct{})
		resp := response.SSEHttpResponse(func(c context.Context, last string) <-chan response.ServerSentEvent {
			val = c.Value(ctxKey("k"))
			out := make(chan response.ServerSentEvent)
			go func() {
				// an application that never looks at the context
				defer close(fin)
				defer close(out)
				left := early
				ctxBefore = c.Err()
				for k := 0; after < 200; k++ {
					if k == at && !left {
						cancel()
						left = true
					}
					if k == at {
						reached = true
						ctxAfter = c.Err()
					}
					select {
					case out <- response.ServerSentEvent{Data: []string{fmt.Sprint(k)}}:
					case <-stop:
						return
					}
					taken++
					if left {
						after++
					}
				}
			}()
			return out
		})
		w := &syncWriter{h: http.Header{}}
		q := newRequest("GET", "/", nil).WithContext(ctx)
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
		r.Try("a leaving client", i, func() { resp.Write(w, path.MatchingContext{R: q}) })
		close(stop)
		<-fin
		r.Count("left", 1)
		r.Case(fmt.Sprint("leave", at, early, i), true)
		if val != i {
			r.Violate("context", "the context of the generator does not come from the request", nil)
		}
		if !early && ctxBefore != nil {
			r.Violate("context-early", "the context of the generator has ended before the client left", nil)
		}
		if reached && ctxAfter == nil {
			r.Violate("context-late", "the context of the generator goes on after the client left", map[string]any{"at": at, "taken": taken})
		}
		if after >= 200 {
			r.Violate("leave-forever", "events are still taken from the generator long after the client left", map[string]any{"taken": taken})
		}
	})
}
