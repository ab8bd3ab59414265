package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre/cache"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C23", true, runC23) }

// present puts a nonce in a request in one of the ways that count.
func present(rng *rand.Rand, method, target, nonce, header, param string, how string) *http.Request {
	enc := url.Values{param: {nonce}}.Encode()
	mk := func(t, ct string, b io.Reader) *http.Request {
		q := newRequest(method, t, b)
		if ct != "" {
			q.Header.Set("Content-Type", ct)
		}
		return q
	}
	sep := "?"
	if strings.Contains(target, "?") {
		sep = "&"
	}
	switch how {
	case "header":
		q := mk(target, "", nil)
		q.Header.Set(header, nonce)
		return q
	case "header+body":
		q := mk(target, "application/x-www-form-urlencoded", strings.NewReader("a=b"))
		q.Header.Set(header, nonce)
		return q
	case "query":
		return mk(target+sep+enc, "", nil)
	case "query+json":
		return mk(target+sep+enc, "application/json", strings.NewReader("{}"))
	case "form":
		return mk(target, "application/x-www-form-urlencoded", strings.NewReader("x=1&"+enc+"&y=2"))
	case "multipart":
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		w.WriteField("x", "1")
		w.WriteField(param, nonce)
		f, _ := w.CreateFormFile("file", "f.bin")
		f.Write(make([]byte, rng.Intn(2000)))
		w.Close()
		return mk(target, w.FormDataContentType(), &b)
	}
	panic(how)
}

// misplaced puts a nonce where it does not count.
func misplaced(rng *rand.Rand, method, target, nonce, header, param string) (*http.Request, string) {
	hows := []string{"none", "cookie", "other header", "other param", "json body", "plain body", "referer", "path", "authorization", "empty header"}
	how := pick(rng, hows)
	q := newRequest(method, target, nil)
	switch how {
	case "cookie":
		q.AddCookie(&http.Cookie{Name: param, Value: nonce})
		q.AddCookie(&http.Cookie{Name: header, Value: nonce})
	case "other header":
		q.Header.Set("X-"+header, nonce)
		if header != middleware.CSRFRestNonceHeaderName {
			q.Header.Set(middleware.CSRFRestNonceHeaderName, nonce)
		}
	case "other param":
		v := url.Values{"x" + param: {nonce}, strings.ToUpper(param): {nonce}}
		if param != middleware.CSRFNonceRequestParamName {
			v.Set(middleware.CSRFNonceRequestParamName, nonce)
		}
		if strings.ToUpper(param) == param {
			v.Del(param)
		}
		q = newRequest(method, target+"?"+v.Encode(), nil)
	case "json body":
		q = newRequest(method, target, strings.NewReader(fmt.Sprintf(`{"%s":"%s"}`, param, nonce)))
		q.Header.Set("Content-Type", "application/json")
	case "plain body":
		q = newRequest(method, target, strings.NewReader(url.Values{param: {nonce}}.Encode()))
		q.Header.Set("Content-Type", "text/plain")
	case "referer":
		q.Header.Set("Referer", "http://x.test/?"+url.Values{param: {nonce}}.Encode())
	case "path":
		q = newRequest(method, strings.TrimSuffix(target, "/")+"/"+nonce, nil)
	case "authorization":
		q.Header.Set("Authorization", "Bearer "+nonce)
	case "empty header":
		q.Header.Set(header, "")
	}
	return q, how
}

// forged changes a nonce.
func forged(rng *rand.Rand, nonce string) string {
	switch rng.Intn(9) {
	case 0:
		return ""
	case 1:
		return nonce[:len(nonce)-1]
	case 2:
		return nonce + "0"
	case 3:
		if l := strings.ToLower(nonce); l != nonce {
			return l
		}
		if u := strings.ToUpper(nonce); u != nonce {
			return u
		}
		return nonce + "x"
	case 4:
		b := []byte(nonce)
		k := rng.Intn(len(b))
		if b[k] == '0' {
			b[k] = '1'
		} else {
			b[k] = '0'
		}
		return string(b)
	case 5:
		return nonce + "," + nonce
	case 6:
		return strings.Repeat("0", len(nonce))
	case 7:
		return "*"
	}
	return nonce[len(nonce)/2:] + nonce[:len(nonce)/2] + "z"
}

func runC23(r *core.Run) {
	r.Rule("histories of requests through the CSRF middleware are predicted by a model of the live nonces: every method; nonces in header, query, form and multipart body, default and custom names, misplaced, forged, used, expired; failing caches; caches shared by routes and separate ones. " +
		"Then each of many nonces is presented by several requests at once (a cache that waits between its operations; the in-memory cache; different routes), in memory and over real connections. The nonces handlers see are checked for registration, lifetime and gross predictability. " +
		"Built with the race detector. A case is one request, non-trivial when a nonce matters")
	r.Require("accepted", 2000)
	r.Require("denied", 2000)
	r.Require("replays", 2000)
	r.Require("nonces", 5000)
	r.Require("add_failures", 100)
	r.Require("http", 200)
	for _, h := range []string{"header", "query", "form", "multipart"} {
		r.Require("how_"+h, 100)
	}
	old := middleware.CSRFExpirationTime
	defer func() { middleware.CSRFExpirationTime = old }()
	for k, d := range []time.Duration{old, time.Hour * 5, 1<<63 - 1} {
		middleware.CSRFExpirationTime = d
		c23Serial(r, k, d)
	}
	middleware.CSRFExpirationTime = old
	c23Replay(r)
	c23Http(r)
	c23Random(r)
	for _, d := range []time.Duration{0, -1, -time.Hour} {
		middleware.CSRFExpirationTime = d
		c23Expired(r, d)
	}
}

var unsafeMethods = []string{"POST", "PUT", "PATCH", "DELETE", "CONNECT", "PROPFIND", "CUSTOM", "LINK"}
var safeMethods = []string{"GET", "HEAD", "TRACE", "OPTIONS"}

func c23Serial(r *core.Run, leg int, lifetime time.Duration) {
	parallel(r, "histories", r.N(700, 8000), func(i int) {
		rng := r.Rand(fmt.Sprint("c23s", leg), i)
		lc := newLogCache(nil)
		var cch cache.Cache = lc
		inmem := rng.Intn(3) == 0
		if inmem {
			cch = cache.NewInMemory()
		}
		header, param := middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName
		mk := func() middleware.Middleware { return middleware.CSRFPrevention(cch) }
		if rng.Intn(2) == 0 {
			header, param = pick(rng, []string{"X-Own", "csrf", "X-Csrf"}), pick(rng, []string{"token", "_t", "TOKEN"})
			mk = func() middleware.Middleware {
				return middleware.CSRFPreventionWithCustomParamAndHeaderName(cch, param, header)
			}
		}
		var ran int
		var nonce string
		var elsewhere bool
		var q *http.Request
		handlerErr := error(nil)
		want := response.PlainTextHttpResponseOK("x")
		live := map[string]bool{}
		var keys []string
		var inner handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran++
			nonce = middleware.GetCSRFNonceFromContext(ctx)
			if ctx.Value(ctxKey("k")) != i || mc.R != q {
				r.Violate("context", "the request or its context is lost behind the CSRF check", nil)
			}
			if elsewhere {
				// registered in the other cache
			} else if inmem {
				if !cch.Contains(nonce) {
					r.Violate("unregistered", "the nonce a handler sees is not in the cache", nil)
				}
			} else if l := lc.lifetimes(nonce); len(l) != 1 || l[0] != lifetime {
				r.Violate("unregistered", fmt.Sprintf("the nonce a handler sees was registered with the lifetimes %v instead of %v", l, lifetime), nil)
			}
			return want, handlerErr
		}
		// one middleware used twice, and another one over the same cache
		mw := mk()
		chains := []handler.Handler{mw(inner), mw(inner), mk()(inner)}
		other := middleware.CSRFPrevention(cache.NewInMemory())(inner)
		ctx := context.WithValue(context.Background(), ctxKey("k"), i)
		for step := 0; step < 25; step++ {
			method := pick(rng, unsafeMethods)
			if rng.Intn(3) == 0 || len(keys) == 0 && rng.Intn(2) == 0 {
				method = pick(rng, safeMethods)
			}
			safe := method == "GET" || method == "HEAD" || method == "TRACE" || method == "OPTIONS"
			target := pick(rng, []string{"/", "/a/b", "/a?x=1"})
			used := ""
			hows := []string{"header", "query", "header+body", "query+json"}
			if method == "POST" || method == "PUT" || method == "PATCH" {
				hows = append(hows, "form", "multipart", "form", "multipart")
			}
			how := pick(rng, hows)
			expect := safe
			kind := "safe"
			ch := chains[rng.Intn(len(chains))]
			switch k := rng.Intn(10); {
			case len(keys) == 0:
				q = present(rng, method, target, "0123456789ABCDEF0123456789ABCDEF", header, param, how)
				kind = "unknown"
			case k < 5:
				n := keys[rng.Intn(len(keys))]
				if rng.Intn(2) == 0 {
					n = keys[len(keys)-1]
				}
				q = present(rng, method, target, n, header, param, how)
				kind = "issued"
				expect = expect || live[n]
				used = n
				r.Count("how_"+strings.SplitN(how, "+", 2)[0], 1)
			case k < 7:
				q = present(rng, method, target, forged(rng, keys[len(keys)-1]), header, param, how)
				kind = "forged"
			case k < 9:
				q, how = misplaced(rng, method, strings.SplitN(target, "?", 2)[0], keys[len(keys)-1], header, param)
				kind = "misplaced"
			default:
				n := keys[len(keys)-1]
				q = present(rng, method, target, n, header, param, how)
				kind = "other cache"
				header2, param2 := middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName
				q2 := present(rng, method, target, n, header2, param2, how)
				q = q2
				ch = other
			}
			fail := kind != "other cache" && !inmem && rng.Intn(20) == 0
			if fail {
				lc.fail(errBoom)
				r.Count("add_failures", 1)
			}
			handlerErr = nil
			if rng.Intn(10) == 0 {
				handlerErr = errors.New("own")
			}
			if kind == "issued" && !inmem && rng.Intn(12) == 0 {
				lc.expire(used)
				live[used] = false
				expect = safe
			}
			ran, nonce, elsewhere = 0, "", kind == "other cache"
			var resp response.HttpResponse
			var err error
			det := func() any {
				return map[string]any{"method": q.Method, "kind": kind, "how": how, "header": q.Header, "target": q.RequestURI, "ran": ran, "error": errText(err), "cache_fails": fail, "in_memory": inmem, "step": step}
			}
			if !r.Try("csrf", det(), func() { resp, err = ch(ctx, path.MatchingContext{R: q}) }) {
				return
			}
			lc.fail(nil)
			r.Case(fmt.Sprint(leg, i, step, method, kind, how), !safe)
			if kind == "other cache" {
				// judged only for not accepting
				if !safe && ran != 0 {
					r.Violate("other-cache", "a nonce of another application is accepted", det())
				}
				continue
			}
			if used != "" && !safe && live[used] {
				live[used] = false // used now, or lost with the failing cache
			}
			if expect && fail {
				if ran != 0 || err != errBoom || resp != nil {
					r.Violate("add-failure", "the handler ran, or the error is lost, although its nonce could not be registered", det())
				}
				continue
			}
			if !expect {
				r.Count("denied", 1)
				if ran != 0 {
					r.Violate("accepted:"+kind+":"+how, "a request without a valid nonce reaches the handler", det())
					return
				}
				if err != gerrors.ErrAccessDenied || resp != nil {
					r.Violate("error", "a refused request results in "+errText(err)+" instead of access denied", det())
				}
				continue
			}
			if !safe {
				r.Count("accepted", 1)
			}
			if ran != 1 {
				r.Violate("refused:"+kind+":"+how, fmt.Sprintf("the handler of a request that passes ran %d times", ran), det())
				return
			}
			if err != handlerErr || handlerErr == nil && resp != want {
				r.Violate("result", "the result of the handler does not pass unchanged", det())
			}
			if nonce == "" {
				r.Violate("no-nonce", "the handler sees no nonce", det())
				return
			}
			for _, k := range keys {
				if k == nonce {
					r.Violate("same-nonce", "a nonce was issued twice", det())
				}
			}
			live[nonce] = true
			keys = append(keys, nonce)
			r.Count("nonces", 1)
		}
	})
}

func c23Expired(r *core.Run, d time.Duration) {
	for k := 0; k < 50; k++ {
		rng := r.Rand(fmt.Sprint("c23e", d), k)
		c := cache.NewInMemory()
		var nonce string
		ran := 0
		h := middleware.CSRFPrevention(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran++
			nonce = middleware.GetCSRFNonceFromContext(ctx)
			return response.PlainTextHttpResponseOK("x"), nil
		})
		h(context.Background(), path.MatchingContext{R: newRequest("GET", "/", nil)})
		_, err := h(context.Background(), path.MatchingContext{R: present(rng, "POST", "/", nonce, middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName, pick(rng, []string{"header", "query", "form", "multipart"}))})
		r.Case(fmt.Sprint("expired", d, k), true)
		r.Count("denied", 1)
		if ran != 1 || err != gerrors.ErrAccessDenied {
			r.Violate("expired", fmt.Sprintf("a nonce with the lifetime %v is accepted", d), map[string]any{"error": errText(err)})
		}
	}
}

// c23Replay presents each nonce many times at once.
func c23Replay(r *core.Run) {
	n := r.N(1200, 12000)
	for i := 0; i < n && !r.TooMany(); i++ {
		r.Begin("replay %d", i)
		rng := r.Rand("c23r", i)
		bar := newMeet()
		var cch cache.Cache = newLogCache(bar)
		if i%4 == 0 {
			cch = cache.NewInMemory()
		}
		var ran, own sync.Map
		mk := func() handler.Handler {
			return middleware.CSRFPrevention(cch)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				nn := middleware.GetCSRFNonceFromContext(ctx)
				if _, dup := own.LoadOrStore(nn, true); dup {
					r.Violate("same-nonce", "two concurrent handlers see the same nonce", nil)
				}
				c, _ := ran.LoadOrStore(mc.R.Header.Get("X-Key"), new(atomic.Int64))
				c.(*atomic.Int64).Add(1)
				return response.PlainTextHttpResponseOK(nn), nil
			})
		}
		chains := []handler.Handler{mk(), mk()}
		keys := make([]string, 1+rng.Intn(3))
		for k := range keys {
			keys[k] = fmt.Sprintf("KEY%d-%d-%d", i, k, r.Seed)
			if err := cch.Add(keys[k], time.Hour); err != nil {
				panic(err)
			}
		}
		per := 2 + rng.Intn(4)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var denied atomic.Int64
		for k, key := range keys {
			for j := 0; j < per; j++ {
				how := pick(rng, []string{"header", "query", "form"})
				q := present(rng, pick(rng, []string{"POST", "PUT"}), "/", key, middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName, how)
				q.Header.Set("X-Key", key)
				ch := chains[(k+j)%2]
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					_, err := ch(context.Background(), path.MatchingContext{R: q})
					if err == gerrors.ErrAccessDenied {
						denied.Add(1)
					} else if err != nil {
						r.Violate("replay-error", "a replayed request results in "+err.Error(), nil)
					}
				}()
			}
		}
		close(start)
		wg.Wait()
		for _, key := range keys {
			c, _ := ran.LoadOrStore(key, new(atomic.Int64))
			got := c.(*atomic.Int64).Load()
			r.Count("replays", int64(per))
			r.Case(key, true)
			if got > 1 {
				r.Violate("replayed", fmt.Sprintf("a nonce presented by %d requests at once was accepted %d times", per, got), map[string]any{"in_memory": i%4 == 0})
			}
			if got == 0 {
				r.Violate("none", fmt.Sprintf("a valid nonce presented by %d requests at once was not accepted at all", per), nil)
			}
			if cch.Contains(key) {
				r.Violate("kept", "a nonce is still valid after its use", nil)
			}
		}
		r.Count("denied", denied.Load())
	}
}

// c23Http runs whole browsers' exchanges.
func c23Http(r *core.Run) {
	m, l := newMux(false)
	c := newLogCache(newMeet())
	var ran sync.Map
	page := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		k := mc.R.Header.Get("X-Case")
		n, _ := ran.LoadOrStore(k, new(atomic.Int64))
		n.(*atomic.Int64).Add(1)
		return response.PlainTextHttpResponseOK(middleware.GetCSRFNonceFromContext(ctx)), nil
	}
	m.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.CSRFPrevention(c))
	for _, me := range []string{"GET", "POST", "PUT", "DELETE"} {
		m.HandleRequest(me, "/form", page)
	}
	for _, proto := range []string{"h1", "h2"} {
		ts := startServer(m, proto)
		parallel(r, "http "+proto, r.N(250, 3000), func(i int) {
			rng := r.Rand("c23h"+proto, i)
			a := ts.get("/form")
			nonce := string(a.Body)
			if a.Err != nil || a.Code != 200 || nonce == "" {
				r.Violate("page", "a page with a nonce cannot be fetched", map[string]any{"status": a.Code, "error": fmt.Sprint(a.Err)})
				return
			}
			id := fmt.Sprint(proto, i)
			times := 1 + rng.Intn(3)
			var ok, deny atomic.Int64
			var wg sync.WaitGroup
			for k := 0; k < times; k++ {
				method := pick(rng, []string{"POST", "PUT", "DELETE"})
				hows := []string{"header", "query"}
				if method != "DELETE" {
					hows = append(hows, "form", "multipart")
				}
				how := pick(rng, hows)
				p := present(rng, method, "/form", nonce, middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName, how)
				b, _ := io.ReadAll(p.Body)
				q := ts.req(method, p.RequestURI, bytes.NewReader(b))
				q.Header = p.Header.Clone()
				q.Header.Set("X-Case", id)
				wg.Add(1)
				go func() {
					defer wg.Done()
					a := ts.do(q)
					switch {
					case a.Err == nil && a.Code == 200:
						ok.Add(1)
					case a.Err == nil && a.Code == 403:
						deny.Add(1)
					default:
						r.Violate("http-status", fmt.Sprintf("a form is answered with %d %v", a.Code, a.Err), map[string]any{"how": how, "body": clip(string(a.Body))})
					}
				}()
			}
			wg.Wait()
			r.Count("http", int64(times))
			r.Case(id, true)
			n, _ := ran.LoadOrStore(id, new(atomic.Int64))
			if ok.Load() != 1 || n.(*atomic.Int64).Load() != 1 {
				r.Violate("http", fmt.Sprintf("a form sent %d times at once was accepted %d times", times, ok.Load()), nil)
			}
		})
		ts.stop()
	}
	if e := l.take(); len(e) > 0 {
		r.Violate("logged", "CSRF refusals are not handled: "+e[0].Error(), nil)
	}
}

// c23Random looks at many nonces in a row.
func c23Random(r *core.Run) {
	c := newLogCache(nil)
	var vals []string
	h := middleware.CSRFPrevention(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		vals = append(vals, middleware.GetCSRFNonceFromContext(ctx))
		return nil, nil
	})
	q := newRequest("GET", "/", nil)
	n := r.N(5000, 50000)
	for k := 0; k < n; k++ {
		h(context.Background(), path.MatchingContext{R: q})
	}
	r.Count("nonces", int64(n))
	if len(vals) != n {
		r.Violate("safe", fmt.Sprintf("of %d safe requests %d reached the handler", n, len(vals)), nil)
	}
	if why := guessable(vals, 100); why != "" {
		r.Violate("guessable", "the nonces are predictable: "+why, map[string]any{"first": vals[:5]})
	}
	if why := seedable(func(n int) []string {
		vals = nil
		for k := 0; k < n; k++ {
			h(context.Background(), path.MatchingContext{R: q})
		}
		return vals
	}); why != "" {
		r.Violate("seedable", "the nonces are predictable: "+why, nil)
	}
	if middleware.GetCSRFNonceFromContext(context.Background()) != "" {
		r.Violate("background", "a context without a nonce gives one", nil)
	}
}
