package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C15", false, runC15)
	register("C16", true, runC16)
}

// specTable holds the responses that handlers are asked for by number.
type specTable struct {
	mu sync.Mutex
	m  map[string]*rspec
}

func (t *specTable) put(id string, s *rspec) {
	t.mu.Lock()
	t.m[id] = s
	t.mu.Unlock()
}

func (t *specTable) get(id string) *rspec {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.m[id]
}

func (t *specTable) drop(id string) {
	t.mu.Lock()
	delete(t.m, id)
	t.mu.Unlock()
}

func newSpecTable() *specTable { return &specTable{m: map[string]*rspec{}} }

func (t *specTable) handler() handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return t.get(mc.PathVar("id")).build(), nil
	}
}

var specMethods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"}

func runC15(r *core.Run) {
	r.Rule("responses made by every constructor of the library, with random headers, cookies, statuses (all of 200 to 999 systematically, impossible ones too), payloads up to several MiB and chunkings, are compared with what was put into them: " +
		"at real HTTP/1.1 and HTTP/2 clients (GET, POST and HEAD), and at in-memory writers with and without WriteString. A case is one response; all with a body, header or cookie are non-trivial")
	for _, k := range specKinds {
		r.Require("kind_"+k, 30)
	}
	r.Require("statuses", 800)
	r.Require("large", 60)
	r.Require("again", 2000)
	r.Require("bad", 100)
	r.Require("head", 300)
	r.Require("h1", 1000)
	r.Require("h10", 1000)
	r.Require("h2", 1000)
	// in memory
	n := r.N(90000, 900000)
	tab := newSpecTable()
	var bad atomic.Int64
	m, l := newMux(false)
	for _, me := range specMethods {
		m.HandleRequest(me, "/r/{id}/x", tab.handler())
	}
	parallel(r, "memory", n, func(i int) {
		rng := r.Rand("c15m", i)
		code := 0
		if i%3 == 0 {
			code = 200 + (i/3)%800
		}
		s := genSpec(rng, specOpt{maxH: 5, maxC: 4, code: code, size: c15Size(r, rng, i, 900)})
		id := fmt.Sprintf("m%d", i)
		tab.put(id, s)
		defer tab.drop(id)
		var w http.ResponseWriter
		var fw *faultWriter
		if rng.Intn(2) == 0 {
			x := &faultStringWriter{faultWriter{h: http.Header{}, left: 1 << 30}}
			fw, w = &x.faultWriter, x
		} else {
			fw = &faultWriter{h: http.Header{}, left: 1 << 30}
			w = fw
		}
		req := newRequest(pick(rng, []string{"GET", "POST", "PUT", "DELETE", "OPTIONS"}), "/r/"+id+"/x", nil)
		pan, st := core.Guard(func() { m.ServeHTTP(w, req) })
		r.Case(s.String()+fmt.Sprint(i), len(s.body) > 0 || len(s.hdr) > 0 || len(s.cookies) > 0 || s.isJson)
		r.Count("kind_"+s.kind, 1)
		r.Seen("statuses", fmt.Sprint(s.code))
		if s.bad {
			r.Count("bad", 1)
			bad.Add(1)
		}
		det := func() any {
			return map[string]any{"spec": s.String(), "statuses": fw.codes, "headers": fw.h, "body": clip(fw.b.String()), "panic": fmt.Sprint(pan), "stack": st, "method": req.Method}
		}
		if pan != nil {
			r.Violate("panic:"+s.kind, fmt.Sprintf("writing a %s response panicked: %v", s.kind, pan), det())
			return
		}
		if len(fw.codes) != 1 {
			r.Violate("statuses:"+s.kind, fmt.Sprintf("a %s response sent %d statuses", s.kind, len(fw.codes)), det())
			return
		}
		if why := s.judge(fw.codes[0], fw.h, fw.b.Bytes(), req, false); why != "" {
			r.Violate("memory:"+s.kind+":"+sigOf(why), "a "+s.kind+" response was not written as built: "+why, det())
		}
		if i < 6 {
			r.Sample(s.String())
		}
	})
	if got := int64(len(l.take())); got != bad.Load() {
		r.Violate("logged", fmt.Sprintf("%d errors were reported for %d responses that cannot be made", got, bad.Load()), nil)
	}
	c15Again(r)
	// over real connections
	for _, proto := range []string{"h1", "h2", "h10"} {
		ts := startServer(m, proto)
		n := r.N(16000, 120000)
		if proto == "h10" {
			n = r.N(3000, 12000)
		}
		parallel(r, proto, n, func(i int) {
			rng := r.Rand("c15"+proto, i)
			code := 0
			if i%2 == 0 {
				code = 200 + (i/2)%800
			}
			s := genSpec(rng, specOpt{maxH: 5, maxC: 4, code: code, size: c15Size(r, rng, i, 250)})
			id := fmt.Sprintf("%s%d", proto, i)
			tab.put(id, s)
			defer tab.drop(id)
			method := specMethods[rng.Intn(len(specMethods))]
			req := ts.req(method, "/r/"+id+"/x", nil)
			a := ts.do(req)
			r.Case(proto+s.String()+fmt.Sprint(i), len(s.body) > 0 || len(s.hdr) > 0 || len(s.cookies) > 0 || s.isJson)
			if proto != "h10" || a.Proto == "HTTP/1.0" {
				r.Count(proto, 1)
			}
			r.Count("kind_"+s.kind, 1)
			r.Seen("statuses", fmt.Sprint(s.code))
			if method == "HEAD" {
				r.Count("head", 1)
			}
			det := func() any {
				return map[string]any{"proto": proto, "method": method, "spec": s.String(), "status": a.Code, "headers": a.Header, "body": clip(string(a.Body)), "error": fmt.Sprint(a.Err)}
			}
			if a.Err != nil {
				r.Violate("transport:"+s.kind, "the response could not be received: "+a.Err.Error(), det())
				return
			}
			sreq := newRequest(method, "/r/"+id+"/x", nil)
			if why := s.judge(a.Code, a.Header, a.Body, sreq, method == "HEAD"); why != "" {
				r.Violate(proto+":"+s.kind+":"+sigOf(why), "a client did not get the "+s.kind+" response that was built: "+why, det())
			}
		})
		if isPanicLog(ts.Log.String()) {
			r.Violate("server-panic", "a response made the server panic", map[string]any{"log": clip(ts.Log.String())})
		}
		ts.stop()
	}
}

// stateful marshals to what it holds at the moment.
type stateful struct{ v *int }

func (s stateful) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(*s.v)), nil }

// c15Again makes several responses in a row of the same objects of the application, changed in between: each response
// has to be made of what the object holds at that time.
func c15Again(r *core.Run) {
	type rec struct {
		N int
		S string
	}
	tpl := template.Must(template.New("p").Parse("{{.N}}-{{.S}}"))
	parallel(r, "again", r.N(1500, 15000), func(i int) {
		rng := r.Rand("c15a", i)
		pt, sl, mp, n := &rec{}, make([]int, 3), map[string]any{}, new(int)
		raw := json.RawMessage(`"0000000"`)
		rd := bytes.NewReader(nil)
		nested := map[string]any{"p": pt, "l": sl}
		ptrOf := []any{&sl, &mp, &raw}
		buf := make([]byte, 7)
		steps := 2 + rng.Intn(5)
		// the same kind over and over, or all of them mixed
		kind := rng.Intn(14)
		mixed := rng.Intn(3) == 0
		for q := 0; q < steps; q++ {
			if mixed {
				kind = rng.Intn(14)
			}
			v := rng.Intn(10000000)
			t := fmt.Sprintf("%07d", v)
			pt.N, pt.S, sl[rng.Intn(3)], mp["v"], *n = v, t, v, v, v
			copy(raw[1:], t)
			copy(buf, t)
			var resp response.HttpResponse
			var payload any
			want := ""
			switch kind {
			case 0:
				payload = pt
			case 1:
				payload = sl
			case 2:
				payload = mp
			case 3:
				payload = raw
			case 4:
				payload = stateful{n}
			case 5:
				payload = n
			case 6:
				payload = nested
			case 7, 8:
				payload = ptrOf[rng.Intn(len(ptrOf))]
			case 9:
				payload = &stateful{n}
			case 10:
				resp, want = response.TemplateHttpResponseOK(tpl, "p", pt), fmt.Sprint(v)+"-"+t
			case 11:
				rd.Reset([]byte(t))
				resp, want = response.StreamHttpResponse("text/plain", rd), t
			case 12:
				resp, want = response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
					_, err := w.Write(buf)
					return err
				}), t
			case 13:
				// the body was made of a buffer that is used again
				resp, want = response.PlainTextHttpResponseOK(string(buf)), t
			}
			if resp == nil {
				b, err := json.Marshal(payload)
				if err != nil {
					panic(err)
				}
				want = string(b)
				resp = response.JsonHttpResponseOK(payload)
			}
			var w http.ResponseWriter
			var fw *faultWriter
			if rng.Intn(2) == 0 {
				x := &faultStringWriter{faultWriter{h: http.Header{}, left: 1 << 30}}
				fw, w = &x.faultWriter, x
			} else {
				fw = &faultWriter{h: http.Header{}, left: 1 << 30}
				w = fw
			}
			var err error
			pan, st := core.Guard(func() { err = resp.Write(w, path.MatchingContext{R: newRequest("GET", "/x", nil)}) })
			r.Count("again", 1)
			r.Case(fmt.Sprint("again", i, q, kind, v), q > 0)
			same := fw.b.String() == want
			if !same && kind < 10 {
				a, ok1 := decoded(fw.b.Bytes())
				b, ok2 := decoded([]byte(want))
				same = ok1 == nil && ok2 == nil && reflect.DeepEqual(a, b)
			}
			if pan != nil || err != nil || !same {
				r.Violate(fmt.Sprintf("again:%d", kind), "a response made of an object that was used and changed before does not carry what the object holds now", map[string]any{
					"kind": kind, "step": q, "want": want, "got": clip(fw.b.String()), "error": fmt.Sprint(err), "panic": fmt.Sprint(pan), "stack": st})
				return
			}
		}
	})
}

// c15Size asks for a large body now and then.
func c15Size(r *core.Run, rng *rand.Rand, i, every int) int {
	if i%every != every/2 {
		return 0
	}
	r.Count("large", 1)
	return pickInt(rng, 1<<18, 1<<20, 1<<20+1, 3<<20, 1<<22+17, 9<<20) + rng.Intn(5000)
}

// sigOf keeps the kind of a complaint, without its values.
func sigOf(why string) string {
	w := strings.Fields(why)
	if len(w) > 3 {
		w = w[:3]
	}
	return strings.Join(w, "-")
}

// ---- C16 ----

func runC16(r *core.Run) {
	r.Rule("responses whose headers and cookies all carry the tag of their request: many are built, held, and written in random order by one goroutine (aliasing of recycled containers), " +
		"written concurrently by many (also over real connections, through chains of header-setting middlewares), and interleaved with responses that fail in every way, are replaced, dropped, written to failing writers, or inspected and modified after they were written. " +
		"Built with the race detector. A case is one response; non-trivial when it carries headers or cookies while others are alive")
	r.Require("held_together", 20000)
	r.Require("late_uses", 1000)
	r.Require("failing", 1000)
	r.Require("concurrent", 5000)
	c16Held(r)
	c16Concurrent(r)
	c16Http(r)
}

// live is a response that exists, with its specification.
type live struct {
	s    *rspec
	resp response.HttpResponse
	mode int
}

const (
	mOk = iota
	mFault
	mDrop
	mLate
	mModes
)

func c16Write(r *core.Run, rng *rand.Rand, x *live, key string, where string) {
	fw := &faultWriter{h: http.Header{}, left: 1 << 30, err: errBoom}
	if x.mode == mFault {
		fw.left = rng.Intn(20)
	}
	mc := path.MatchingContext{R: newRequest("GET", "/x", nil)}
	if x.mode == mDrop {
		return
	}
	var err error
	pan, st := core.Guard(func() { err = x.resp.Write(fw, mc) })
	if x.mode == mLate || rng.Intn(4) == 0 {
		// the application looks at the response again, and changes it
		core.Guard(func() {
			_ = len(x.resp.Headers())
			x.resp.Headers().Set("X-Late-"+key, "late")
			x.resp.Cookies().Add(&http.Cookie{Name: "late" + key, Value: "late"})
			_ = x.resp.StatusCode()
		})
		r.Count("late_uses", 1)
	}
	if x.mode == mFault || x.s.bad {
		r.Count("failing", 1)
		if x.s.bad && err == nil {
			r.Violate("bad", "a response that cannot be made was written without an error", map[string]any{"spec": x.s.String()})
		}
		if fw.h.Get("X-Leak") != "" {
			r.Violate("leak", "a header of another response", nil)
		}
		for k, vs := range fw.h {
			for _, v := range vs {
				if strings.HasPrefix(k, "X-Late") || strings.Contains(v, "late=") {
					r.Violate("late", "something set on a response after it was written showed up in another one", map[string]any{"header": k, "value": v, "where": where})
				}
			}
		}
		return
	}
	det := func() any {
		return map[string]any{"where": where, "spec": x.s.String(), "statuses": fw.codes, "headers": fw.h, "panic": fmt.Sprint(pan), "stack": st, "error": fmt.Sprint(err)}
	}
	if pan != nil {
		r.Violate("panic", fmt.Sprintf("writing a response panicked: %v", pan), det())
		return
	}
	if err != nil || len(fw.codes) != 1 {
		r.Violate("write", "a response could not be written", det())
		return
	}
	if why := x.s.judge(fw.codes[0], fw.h, fw.b.Bytes(), mc.R, false); why != "" {
		r.Violate(where+":"+sigOf(why), "a response did not carry exactly its own headers and cookies: "+why, det())
	}
}

func c16Make(rng *rand.Rand, tag string) *live {
	x := &live{s: genSpec(rng, specOpt{tag: tag, maxH: 6, maxC: 5})}
	x.resp = x.s.build()
	switch rng.Intn(8) {
	case 0:
		x.mode = mFault
	case 1:
		x.mode = mDrop
	case 2:
		x.mode = mLate
	}
	return x
}

func c16Held(r *core.Run) {
	rounds := r.N(60, 800)
	parallel(r, "held", rounds, func(i int) {
		rng := r.Rand("c16h", i)
		var alive []*live
		for q := 0; q < 600; q++ {
			if len(alive) < 12 && (len(alive) == 0 || rng.Intn(2) == 0) {
				alive = append(alive, c16Make(rng, fmt.Sprintf("t%dq%d", i, q)))
				continue
			}
			k := rng.Intn(len(alive))
			x := alive[k]
			alive = append(alive[:k], alive[k+1:]...)
			c16Write(r, rng, x, fmt.Sprint(q), "held")
			r.Count("held_together", int64(len(alive)))
			r.Case(fmt.Sprint("held", i, q), len(alive) > 0 && (len(x.s.hdr) > 0 || len(x.s.cookies) > 0))
			r.Seen("alive", fmt.Sprint(len(alive)))
		}
	})
}

func c16Concurrent(r *core.Run) {
	var wg sync.WaitGroup
	per := r.N(1500, 20000)
	for g := 0; g < 12; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := r.Rand("c16c", g)
			for q := 0; q < per; q++ {
				r.Begin("concurrent")
				x := c16Make(rng, fmt.Sprintf("c%dq%d", g, q))
				if rng.Intn(2) == 0 {
					runtime.Gosched()
				}
				c16Write(r, rng, x, fmt.Sprint(q), "concurrent")
				r.Count("concurrent", 1)
				r.Case(fmt.Sprint("conc", g, q), len(x.s.hdr) > 0 || len(x.s.cookies) > 0)
			}
		}()
	}
	wg.Wait()
}

// c16Http: tagged responses through middlewares that set headers, look at them
// after the response was written by inner layers, replace and drop them.
func c16Http(r *core.Run) {
	tab := newSpecTable()
	m, _ := newMux(false)
	tagHeader := func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := next(ctx, mc)
			if err != nil {
				return nil, err
			}
			id := mc.PathVar("id")
			resp.Headers().Set("X-Tag", id)
			resp.Cookies().Add(&http.Cookie{Name: "tag", Value: id})
			return resp, nil
		}
	}
	m.CommonMiddlewares(tagHeader)
	h := tab.handler()
	m.HandleGet("/r/{id}", h, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true}))
	m.HandleGet("/dump/{id}", h, middleware.RequestDumper(func(string) {}))
	m.HandleGet("/err/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		resp, _ := h(ctx, mc)
		resp.Headers().Set("X-Lost", mc.PathVar("id"))
		return resp, errBoom
	})
	m.HandleGet("/swap/{id}", h, func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			lost, _ := next(ctx, mc)
			lost.Headers().Set("X-Lost", mc.PathVar("id"))
			return response.PlainTextHttpResponseOK("swapped " + mc.PathVar("id")), nil
		}
	})
	// adapted standard handlers, one instance for all of the requests
	own := func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := next(ctx, mc)
			if err == nil {
				id := mc.PathVar("id")
				resp.Headers().Set("X-Own-"+id, id)
				resp.Cookies().Add(&http.Cookie{Name: "own" + id, Value: id})
			}
			return resp, err
		}
	}
	std := func(w http.ResponseWriter, q *http.Request) { io.WriteString(w, "std "+q.URL.Path) }
	m.HandleGet("/std/{id}", handler.Handler2Handler(http.HandlerFunc(std)), own)
	m.HandleGet("/stdf/{id}", handler.HandlerFunc2Handler(std), own)
	for _, proto := range []string{"h1", "h2"} {
		ts := startServer(m, proto)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := r.Rand("c16x"+proto, g)
				for q := 0; q < r.N(40, 800); q++ {
					id := fmt.Sprintf("%sS%dq%d", proto, g, q)
					r.Begin("%s", id)
					kind := pick(rng, []string{"std", "stdf"})
					a := ts.get("/" + kind + "/" + id)
					r.Case("adapted"+id, true)
					r.Count("adapted_over_http", 1)
					det := map[string]any{"proto": proto, "kind": kind, "id": id, "status": a.Code, "headers": a.Header, "error": fmt.Sprint(a.Err)}
					if a.Err != nil || a.Code != 200 || string(a.Body) != "std /"+kind+"/"+id {
						r.Violate("adapted-transport", "the answer of an adapted handler was not received", det)
						continue
					}
					n := 0
					for k := range a.Header {
						if strings.HasPrefix(k, "X-Own-") {
							n++
						}
					}
					if n != 1 || a.Header.Get("X-Own-"+id) != id || a.Header.Get("X-Tag") != id {
						r.Violate("adapted-header", "an adapted handler's answer carries headers of other answers, or lost its own", det)
					}
					c := append([]string(nil), a.Header["Set-Cookie"]...)
					sort.Strings(c)
					if w := "own" + id + "=" + id + " tag=" + id; strings.Join(c, " ") != w {
						r.Violate("adapted-cookie", "an adapted handler's answer carries cookies of other answers, or lost its own", det)
					}
				}
				for q := 0; q < r.N(120, 2000); q++ {
					id := fmt.Sprintf("%sg%dq%d", proto, g, q)
					r.Begin("%s", id)
					s := genSpec(rng, specOpt{tag: id, maxH: 4, maxC: 4, noBad: true})
					tab.put(id, s)
					kind := pick(rng, []string{"r", "r", "dump", "err", "swap"})
					a := ts.get("/" + kind + "/" + id)
					tab.drop(id)
					r.Case("http"+id, true)
					r.Count("over_http", 1)
					det := func() any {
						return map[string]any{"proto": proto, "kind": kind, "spec": s.String(), "status": a.Code, "headers": a.Header, "error": fmt.Sprint(a.Err)}
					}
					if a.Err != nil {
						r.Violate("http-transport", "a response could not be received", det())
						continue
					}
					hs := headerString(a.Header)
					if kind == "err" {
						if a.Code != 500 || strings.Contains(hs, "Set-Cookie") || a.Header.Get("X-Tag") != "" || a.Header.Get("X-Lost") != "" {
							r.Violate("http-err", "the answer to an error carries headers or cookies", det())
						}
						continue
					}
					if a.Header.Get("X-Lost") != "" {
						r.Violate("http-lost", "a header of a discarded response showed up", det())
					}
					if v := a.Header["X-Tag"]; len(v) != 1 || v[0] != id {
						r.Violate("http-tag", "a header set by a middleware was lost or belongs to another response", det())
					}
					n := 0
					for _, c := range a.Header["Set-Cookie"] {
						if strings.HasPrefix(c, "tag=") {
							n++
							if c != "tag="+id {
								n = -99
							}
						}
					}
					if n != 1 {
						r.Violate("http-cookie", "a cookie set by a middleware was lost or belongs to another response", det())
					}
					if kind == "swap" {
						if string(a.Body) != "swapped "+id || len(a.Header["Set-Cookie"]) != 1 {
							r.Violate("http-swap", "a replaced response is mixed with the discarded one", det())
						}
						continue
					}
					a.Header.Del("X-Tag")
					var rest []string
					for _, c := range a.Header["Set-Cookie"] {
						if !strings.HasPrefix(c, "tag=") {
							rest = append(rest, c)
						}
					}
					if len(rest) > 0 {
						a.Header["Set-Cookie"] = rest
					} else {
						delete(a.Header, "Set-Cookie")
					}
					if kind == "r" {
						if a.Header.Get("X-Xss-Protection") == "" {
							r.Violate("http-security", "a security header was lost", det())
						}
						a.Header.Del("X-Xss-Protection")
					}
					if why := s.judge(a.Code, a.Header, a.Body, newRequest("GET", "/"+kind+"/"+id, nil), false); why != "" {
						r.Violate("http:"+sigOf(why), "a response over HTTP did not carry exactly its own headers and cookies: "+why, det())
					}
				}
			}()
		}
		wg.Wait()
		ts.stop()
	}
	r.Require("over_http", 500)
	r.Require("adapted_over_http", 400)
}
