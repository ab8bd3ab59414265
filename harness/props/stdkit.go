package props

import (
	"bufio"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"
)

// stdScript is the behaviour of a standard handler, and the request that goes
// with it.
type stdScript struct {
	kind   string
	desc   string
	method string
	hdr    http.Header // of the request
	body   []byte      // of the request
	ctype  bool        // the handler sets the content type
	panics bool
	serve  http.HandlerFunc
}

func (s *stdScript) String() string { return s.method + " " + s.kind + " " + s.desc }

type stdOpt struct {
	trailers bool
	panics   bool
	kinds    []string
}

var stdKinds = []string{"steps", "steps", "steps", "error", "not found", "redirect", "content", "content", "echo", "copy", "encoded gzip", "encoded other", "bodiless", "empty", "late headers", "two statuses", "mux", "timeout", "flush first", "length"}

// stdStore gives the scripts by number.
type stdStore struct {
	mu sync.Mutex
	m  map[string]*stdScript
}

func newStdStore() *stdStore { return &stdStore{m: map[string]*stdScript{}} }

func (t *stdStore) put(id string, s *stdScript) { t.mu.Lock(); t.m[id] = s; t.mu.Unlock() }
func (t *stdStore) drop(id string)              { t.mu.Lock(); delete(t.m, id); t.mu.Unlock() }
func (t *stdStore) get(id string) *stdScript {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.m[id]
}

// requestView is what a handler can see of a request.
func requestView(r *http.Request) map[string]any {
	b, err := io.ReadAll(r.Body)
	v := map[string]any{
		"method": r.Method, "uri": r.RequestURI, "url": r.URL.String(), "path": r.URL.Path, "rawpath": r.URL.RawPath, "query": r.URL.RawQuery,
		"proto": r.Proto, "host": r.Host, "header": r.Header, "length": r.ContentLength, "te": r.TransferEncoding, "close": r.Close,
		"body": fmt.Sprintf("%x", sha256.Sum256(b)), "bodylen": len(b), "bodyerr": fmt.Sprint(err), "trailer": r.Trailer, "tls": r.TLS != nil,
		"server": r.Context().Value(http.ServerContextKey) != nil, "local": r.Context().Value(http.LocalAddrContextKey) != nil, "ctxerr": fmt.Sprint(r.Context().Err()),
	}
	return v
}

func genStd(rng *rand.Rand, o stdOpt) *stdScript {
	s := &stdScript{hdr: http.Header{}, method: pick(rng, []string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"})}
	kinds := o.kinds
	if kinds == nil {
		kinds = stdKinds
	}
	s.kind = pick(rng, kinds)
	if s.method == "POST" || s.method == "PUT" || s.method == "PATCH" {
		s.body = genBody(rng)
	}
	body := genBody(rng)
	code := 200 + rng.Intn(400)
	if rng.Intn(3) == 0 {
		code = 200
	}
	for code == 204 || code == 304 {
		code = 200 + rng.Intn(400)
	}
	type step func(w http.ResponseWriter, r *http.Request)
	var pre []step
	hs := genHeaders(rng, "", 4)
	for k, v := range hs {
		k, v := k, v
		pre = append(pre, func(w http.ResponseWriter, r *http.Request) { w.Header().Set(k, v) })
	}
	if rng.Intn(2) == 0 {
		s.ctype = true
		ct := pick(rng, []string{"text/plain", "application/json", "image/png"})
		pre = append(pre, func(w http.ResponseWriter, r *http.Request) { w.Header().Set("Content-Type", ct) })
	}
	if rng.Intn(3) == 0 {
		pre = append(pre, func(w http.ResponseWriter, r *http.Request) {
			http.SetCookie(w, &http.Cookie{Name: "h", Value: "1"})
			http.SetCookie(w, &http.Cookie{Name: "h", Value: "2", Path: "/x"})
			w.Header().Add("X-Multi", "a")
			w.Header().Add("X-Multi", "b")
			w.Header()["x-raw-case"] = []string{"v"}
		})
	}
	all := func(w http.ResponseWriter, r *http.Request, steps []step) {
		for _, f := range steps {
			f(w, r)
		}
	}
	write := func(b []byte, sz int, flush, str bool) step {
		return func(w http.ResponseWriter, r *http.Request) { write2(w, b, sz, flush, str) }
	}
	steps := pre
	add := func(f step) { steps = append(steps, f) }
	switch s.kind {
	case "steps":
		trailers := o.trailers && rng.Intn(3) == 0
		if trailers {
			add(func(w http.ResponseWriter, r *http.Request) {
				w.Header().Add("Trailer", "X-T1, X-T2")
			})
		}
		if rng.Intn(2) == 0 {
			add(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) })
			s.desc = fmt.Sprint(code)
		}
		for k := rng.Intn(4); k >= 0; k-- {
			b := body
			if k > 0 {
				b = genBody(rng)
				if len(b) > 20000 {
					b = b[:20000]
				}
			}
			add(write(b, 1+rng.Intn(9000), rng.Intn(3) == 0, rng.Intn(3) == 0))
		}
		if trailers {
			s.desc += " trailers"
			add(func(w http.ResponseWriter, r *http.Request) {
				w.Header().Set("X-T1", "one")
				w.Header().Set("X-T2", "two")
				w.Header().Set(http.TrailerPrefix+"X-T3", "three")
			})
		}
	case "error":
		m := string(genText(rng, 100))
		add(func(w http.ResponseWriter, r *http.Request) { http.Error(w, m, code) })
		s.ctype = true
		s.desc = fmt.Sprint(code)
	case "not found":
		s.ctype = true
		add(func(w http.ResponseWriter, r *http.Request) { http.NotFound(w, r) })
	case "redirect":
		s.ctype = true
		u := pick(rng, []string{"/", "rel", "https://x.test/y?z", "/é", "../a"})
		add(func(w http.ResponseWriter, r *http.Request) { http.Redirect(w, r, u, 302) })
	case "content":
		name := pick(rng, []string{"a.txt", "a.html", "a.bin", "", "x.css"})
		mod := time.Unix(1600000000, 0)
		tag := rng.Intn(2) == 0
		if rng.Intn(4) != 0 {
			s.method = "GET"
			s.body = nil
		}
		s.ctype = true
		if len(body) > 50000 {
			body = body[:50000]
		}
		n := len(body)
		switch rng.Intn(8) {
		case 0:
			s.hdr.Set("Range", fmt.Sprintf("bytes=%d-%d", rng.Intn(n+2), rng.Intn(2*n+3)))
		case 1:
			s.hdr.Set("Range", fmt.Sprintf("bytes=-%d", rng.Intn(n+5)))
		case 2:
			s.hdr.Set("Range", fmt.Sprintf("bytes=%d-", rng.Intn(n+2)))
		case 3:
			a := rng.Intn(n + 1)
			s.hdr.Set("Range", fmt.Sprintf("bytes=0-%d,%d-", a/3, a))
		case 4:
			s.hdr.Set("If-Modified-Since", mod.Add(time.Duration(rng.Intn(3)-1)*time.Hour).UTC().Format(http.TimeFormat))
		case 5:
			s.hdr.Set("If-None-Match", pick(rng, []string{`"tag"`, `"other"`, `*`}))
		case 6:
			s.hdr.Set("If-Match", pick(rng, []string{`"tag"`, `"other"`, `*`}))
		}
		s.desc = name + " " + fmt.Sprint(s.hdr)
		add(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Del("Last-Modified")
			w.Header().Del("Etag")
			if tag {
				w.Header().Set("Etag", `"tag"`)
			}
			http.ServeContent(w, r, name, mod, bytes.NewReader(body))
		})
	case "echo":
		s.ctype = true
		s.hdr.Set("X-Sent", genHeaderValue(rng, ""))
		s.hdr.Add("X-Sent", "two")
		s.hdr.Set("Cookie", "a=b; c=d; =x; bad\"")
		s.hdr.Set("Content-Type", pick(rng, []string{"text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=zzz"}))
		add(func(w http.ResponseWriter, r *http.Request) {
			v, err := json.Marshal(requestView(r))
			if err != nil {
				v = []byte(err.Error())
			}
			w.Header().Set("Content-Type", "application/json")
			w.Write(v)
		})
	case "copy":
		add(func(w http.ResponseWriter, r *http.Request) {
			io.Copy(w, bufio.NewReaderSize(struct{ io.Reader }{bytes.NewReader(body)}, 700))
		})
	case "encoded gzip":
		s.ctype = true
		var zb bytes.Buffer
		zw := gzip.NewWriter(&zb)
		zw.Write(body)
		zw.Close()
		add(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Encoding", "gzip")
			w.Header().Set("Content-Type", "text/plain")
			w.Write(zb.Bytes())
		})
	case "encoded other":
		s.ctype = true
		e := pick(rng, []string{"br", "zstd", "x-own", "identity"})
		add(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Encoding", e)
			w.Header().Set("Content-Type", "text/plain")
			w.WriteHeader(code)
			w.Write(body)
		})
	case "bodiless":
		c := pickInt(rng, 204, 304)
		s.desc = fmt.Sprint(c)
		wr := rng.Intn(2) == 0
		add(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(c)
			if wr {
				w.Write([]byte("not allowed"))
			}
		})
	case "empty":
		switch rng.Intn(3) {
		case 0:
			add(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) })
			s.desc = fmt.Sprint(code)
		case 1:
			add(func(w http.ResponseWriter, r *http.Request) { w.Write(nil) })
		}
	case "late headers":
		add(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(code)
			w.Header().Set("X-Late", "late")
			w.Header().Set("Content-Type", "late/late")
			w.Write(body)
			w.Header().Set("X-Later", "late")
		})
	case "two statuses":
		add(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(code)
			w.Write(body)
			w.WriteHeader(201)
			w.Write([]byte("end"))
		})
	case "mux":
		mux := http.NewServeMux()
		mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
			http.StripPrefix("/s", http.HandlerFunc(echoPath)).ServeHTTP(w, r)
		})
		s.ctype = true
		add(func(w http.ResponseWriter, r *http.Request) { mux.ServeHTTP(w, r) })
	case "timeout":
		h := http.TimeoutHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-In", "1")
			w.WriteHeader(code)
			w.Write(body)
		}), time.Hour, "late")
		add(func(w http.ResponseWriter, r *http.Request) { h.ServeHTTP(w, r) })
	case "flush first":
		add(func(w http.ResponseWriter, r *http.Request) {
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			w.Header().Set("X-Late", "late")
			w.Write(body)
		})
	case "length":
		add(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Length", fmt.Sprint(len(body)))
			w.WriteHeader(code)
			w.Write(body)
		})
	default:
		panic(s.kind)
	}
	if o.panics && rng.Intn(15) == 0 {
		s.panics = true
		add(func(w http.ResponseWriter, r *http.Request) {
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			panic("a panic of the handler")
		})
	}
	final := steps
	s.serve = func(w http.ResponseWriter, r *http.Request) { all(w, r, final) }
	return s
}

func write2(w http.ResponseWriter, b []byte, sz int, flush, str bool) {
	for len(b) > 0 {
		n := min(sz, len(b))
		if str {
			io.WriteString(w, string(b[:n]))
		} else {
			w.Write(b[:n])
		}
		if f, ok := w.(http.Flusher); ok && flush {
			f.Flush()
		}
		b = b[n:]
	}
}

func echoPath(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Content-Type", "text/plain")
	fmt.Fprintf(w, "%s %s %s", r.Method, r.URL.Path, r.RequestURI)
}

// decode gives the content of an encoded body.
func decode(enc string, b []byte) ([]byte, error) {
	switch strings.ToLower(enc) {
	case "", "identity":
		return b, nil
	case "gzip":
		zr, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		out, err := io.ReadAll(zr)
		return out, err
	case "deflate":
		// clients accept both forms
		if zr, err := zlib.NewReader(bytes.NewReader(b)); err == nil {
			if out, err := io.ReadAll(zr); err == nil {
				return out, nil
			}
		}
		src := bytes.NewReader(b)
		out, err := io.ReadAll(flate.NewReader(src))
		if err == nil && src.Len() > 0 {
			err = fmt.Errorf("%d bytes after the end of the compressed data", src.Len())
		}
		return out, err
	}
	return nil, fmt.Errorf("unknown encoding %q", enc)
}

// normal drops what legitimately differs between two runs of one handler.
func normal(a *answer) {
	if ct := a.Header.Get("Content-Type"); strings.HasPrefix(ct, "multipart/byteranges; boundary=") {
		bd := strings.TrimPrefix(ct, "multipart/byteranges; boundary=")
		a.Body = bytes.ReplaceAll(a.Body, []byte(bd), []byte("BOUNDARY"))
		a.Header.Set("Content-Type", "multipart/byteranges; boundary=BOUNDARY")
	}
	a.Header.Del("Date")
}

func sortedVals(h http.Header, k string) string {
	v := append([]string(nil), h[k]...)
	if k == "Set-Cookie" {
		sort.Strings(v)
	}
	return strings.Join(v, "\n")
}

// headerDiff compares two headers, apart from some names.
func headerDiff(want, got http.Header, skip ...string) string {
	no := map[string]bool{"Date": true}
	for _, s := range skip {
		no[s] = true
	}
	for k := range want {
		if !no[k] && sortedVals(want, k) != sortedVals(got, k) {
			return fmt.Sprintf("header %s is %q instead of %q", k, got[k], want[k])
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok && !no[k] {
			return fmt.Sprintf("unexpected header %s: %q", k, got[k])
		}
	}
	return ""
}
