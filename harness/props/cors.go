package props

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"

	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C27", true, runC27)
	register("C28", true, runC28)
}

// plainResp is a response of the application: what it holds is compared
// before and after a middleware.
func plainResp(rng *rand.Rand, h map[string]string) response.HttpResponse {
	hh := response.NewHttpHeaders()
	for k, v := range h {
		hh[k] = v
	}
	code := pickInt(rng, 200, 200, 201, 204, 404, 500, 301, 304, 401, 403, 503)
	if rng.Intn(4) == 0 {
		code = 200 + rng.Intn(400)
	}
	switch rng.Intn(12) {
	case 6:
		x := response.StreamHttpResponse("application/octet-stream", strings.NewReader("bytes"))
		fill(x.Headers(), hh)
		return x
	case 7:
		x := response.RedirectHttpResponse("/elsewhere")
		fill(x.Headers(), hh)
		return x
	case 8:
		x := response.HandlerFuncAdaptor(func(w http.ResponseWriter, q *http.Request) {})
		fill(x.Headers(), hh)
		return x
	case 9:
		x := response.SSEHttpResponse(nil)
		fill(x.Headers(), hh)
		return x
	case 10:
		x, err := response.NewHttpCompressResponse(response.PlainTextHttpResponseWithHeaders(code, "text", hh), 3)
		if err != nil {
			panic(err)
		}
		return x
	case 11:
		return response.TemplateHttpResponseWithHeaders(response.NilTemplate{}, code, "x", nil, hh)
	case 0:
		return &response.HttpHeadersResponse{HttpStatusCode: code, HttpHeaders: hh, HttpCookies: response.NewHttpCookie(&http.Cookie{Name: "c", Value: "v"})}
	case 1:
		return response.JsonHttpResponseWithHeaders(code, map[string]any{"a": 1}, hh)
	case 2:
		return response.HtmlHttpResponseWithHeaders(code, "<p>", hh)
	}
	return response.PlainTextHttpResponseWithHeaders(code, "text", hh)
}

func fill(to response.HttpHeaders, from map[string]string) {
	for k, v := range from {
		to[k] = v
	}
}

func copyHeaders(h response.HttpHeaders) map[string]string {
	m := map[string]string{}
	for k, v := range h {
		m[http.CanonicalHeaderKey(k)] = v
	}
	return m
}

func listOf(s string) []string {
	var o []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			o = append(o, x)
		}
	}
	return o
}

func setOf(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[strings.ToLower(x)] = true
	}
	return m
}

var corsMethods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PROPFIND", "TRACE"}
var corsHeaders = []string{"X-A", "X-B", "Content-Type", "Authorization", "x-lower", "X-Requested-With", "Accept"}
var corsOrigins = []string{"http://a.test", "https://a.test", "http://a.test:8080", "http://A.test", "http://b.a.test", "https://a.test:443", "null", "file://", "http://[::1]:81", "http://127.0.0.1", "ext://abc", "http://a.tes", "http://a.testt", "http://xn--e1afmkfd.test",
	"http://" + longHost + ".good.test", "http://" + longHost + ".evil.test", "http://" + longHost + ".good.test:81", "http://x" + longHost + ".good.test"}

// longHost makes origins that differ far behind their beginning.
var longHost = strings.Repeat("a123456789.", 20) + "b"
var badOrigins = []string{"", "a.test", "/", "/a", "://a", "http://a%20b", "%", "http://%41.test", ":", "http://a\x7f.test", "a b", "//a.test", "*", "http://[::1"}

func some(rng *rand.Rand, from []string, max int) []string {
	var o []string
	n := rng.Intn(max + 1)
	for _, k := range rng.Perm(len(from))[:min(n, len(from))] {
		o = append(o, from[k])
	}
	return o
}

func genCors(rng *rand.Rand) middleware.CorsConfig {
	c := middleware.CorsConfig{
		AnyOriginAllowed:    rng.Intn(4) == 0,
		SupportsCredentials: rng.Intn(2) == 0,
		ExposedHeaders:      some(rng, []string{"X-E1", "X-E2", "ETag"}, 3),
		AllowedHttpMethods:  some(rng, corsMethods, 6),
		AllowedHttpHeaders:  some(rng, corsHeaders, 5),
		AllowedOrigins:      some(rng, corsOrigins, 5),
	}
	for k := range c.AllowedHttpMethods {
		if rng.Intn(4) == 0 {
			c.AllowedHttpMethods[k] = recase(rng, c.AllowedHttpMethods[k])
		}
	}
	c.PreflightMaxAgeSeconds = pickInt(rng, 0, 0, 1, 600, 86400, -1)
	return c
}

type corsReq struct {
	q      *http.Request
	target string // scheme://host of the request
	origin string
	has    bool // an Origin header
	kind   string
}

func genCorsReq(rng *rand.Rand, c *middleware.CorsConfig) corsReq {
	x := corsReq{}
	method := pick(rng, corsMethods)
	if rng.Intn(3) == 0 {
		method = "OPTIONS"
	}
	if len(c.AllowedHttpMethods) > 0 && rng.Intn(3) == 0 {
		method = strings.ToUpper(pick(rng, c.AllowedHttpMethods))
	}
	host := pick(rng, []string{"site.test", "site.test:8080", "site.test:80", "site.test:443", "a.test", "a.test:8080", "[::1]:81", "127.0.0.1"})
	q := newRequest(method, "/p?q=1", nil, fmt.Sprint(rng.Int63()))
	q.Host, q.TLS = host, nil
	scheme := "http"
	if rng.Intn(3) == 0 {
		scheme = "https"
		q.TLS = &tls.ConnectionState{}
	}
	if rng.Intn(5) == 0 { // an absolute request target
		q.URL.Scheme, q.URL.Host = scheme, host
	}
	x.q, x.target = q, scheme+"://"+host
	if ct := pick(rng, []string{"", "text/plain", "application/json", "multipart/form-data; boundary=x", "application/x-www-form-urlencoded", "TEXT/PLAIN;charset=utf-8", "bogus",
		"application/json; charset", "text/plain;", "application/json; a=\"", "text/plain; charset=utf-8; charset=x", " application/json", "a/b/c", "application/json;;", "text/plain ; a = b", "x y", "multipart/form-data"}); ct != "" {
		q.Header.Set("Content-Type", ct)
	}
	switch k := rng.Intn(20); {
	case k < 2:
		x.kind = "none"
	case k < 5: // the same origin, in the ways it can be written
		x.kind = "same"
		name, port := host, ""
		if i := strings.LastIndex(host, ":"); i >= 0 && !strings.HasSuffix(host, "]") {
			name, port = host[:i], host[i+1:]
		}
		def := map[string]string{"http": "80", "https": "443"}[scheme]
		if port == "" {
			port = def
		}
		x.origin = scheme + "://" + name + ":" + port
		if port == def && rng.Intn(2) == 0 {
			x.origin = scheme + "://" + name
		}
	case k < 7:
		x.kind = "malformed"
		x.origin = pick(rng, badOrigins)
	default:
		x.kind = "cross"
		x.origin = pick(rng, corsOrigins)
		if len(c.AllowedOrigins) > 0 && rng.Intn(2) == 0 {
			x.origin = pick(rng, c.AllowedOrigins)
			if rng.Intn(6) == 0 && strings.HasPrefix(x.origin, "http") && strings.Count(x.origin, ":") == 1 {
				x.origin = pick(rng, []string{x.origin + ".evil.test", recase(rng, x.origin), x.origin + ":80", x.origin + "0", strings.Replace(x.origin, "http:", "https:", 1), x.origin + "/"})
			}
		}
		if rng.Intn(5) == 0 { // the site itself with another scheme or port
			x.origin = pick(rng, []string{"http://", "https://"}) + pick(rng, []string{"site.test", "a.test", "127.0.0.1"}) + pick(rng, []string{"", ":80", ":443", ":8080", ":1"})
		}
		if isSame(x.target, x.origin) {
			x.kind = "same"
		}
	}
	if x.kind != "none" {
		x.has = true
		q.Header["Origin"] = []string{x.origin}
	}
	if method == "OPTIONS" && rng.Intn(4) > 0 || rng.Intn(10) == 0 {
		rm := pick(rng, corsMethods)
		if len(c.AllowedHttpMethods) > 0 && rng.Intn(2) == 0 {
			rm = pick(rng, c.AllowedHttpMethods)
		}
		switch rng.Intn(8) {
		case 0:
			rm = recase(rng, rm)
		case 1:
			rm = pick(rng, []string{"", "GETX", "GET,POST", "*", "G"})
		}
		q.Header["Access-Control-Request-Method"] = []string{rm}
		if rng.Intn(3) > 0 {
			var l []string
			n := rng.Intn(4)
			for k := 0; k < n; k++ {
				h := pick(rng, corsHeaders)
				if len(c.AllowedHttpHeaders) > 0 && rng.Intn(4) > 0 {
					h = pick(rng, c.AllowedHttpHeaders)
				}
				if rng.Intn(8) == 0 {
					h = pick(rng, []string{"X-Evil", h + "x", "*", "X", h[:len(h)-1]})
				}
				l = append(l, recase(rng, h))
			}
			if rng.Intn(4) == 0 && len(l) > 1 {
				k := 1 + rng.Intn(len(l)-1)
				q.Header["Access-Control-Request-Headers"] = []string{strings.Join(l[:k], ", "), strings.Join(l[k:], ",")}
			} else {
				q.Header.Set("Access-Control-Request-Headers", strings.Join(l, pick(rng, []string{",", ", ", " , ", ",,"})))
			}
		}
	}
	return x
}

// isSame compares two origins; both may leave the default port out.
func isSame(a, b string) bool {
	full := func(s string) string {
		sch, h, ok := strings.Cut(s, "://")
		if !ok {
			return s
		}
		if strings.HasSuffix(h, "]") || !strings.Contains(h, ":") {
			h += map[string]string{"http": ":80", "https": ":443"}[sch]
		}
		return sch + "://" + h
	}
	return full(a) == full(b)
}

// corsModel: pass, deny, or open.
func corsModel(c *middleware.CorsConfig, x corsReq) string {
	switch x.kind {
	case "none", "same":
		return "pass"
	case "malformed":
		return "deny"
	}
	in := func(l []string, s string, fold bool) bool {
		for _, v := range l {
			if v == s || fold && strings.EqualFold(v, s) {
				return true
			}
		}
		return false
	}
	if !c.AnyOriginAllowed && !in(c.AllowedOrigins, x.origin, false) {
		return "deny"
	}
	rm, pre := x.q.Header["Access-Control-Request-Method"]
	if x.q.Method == "OPTIONS" && pre {
		if !in(c.AllowedHttpMethods, strings.TrimSpace(rm[0]), true) {
			return "deny"
		}
		for _, line := range x.q.Header["Access-Control-Request-Headers"] {
			for _, h := range listOf(line) {
				if !in(c.AllowedHttpHeaders, h, true) {
					return "deny"
				}
			}
		}
	} else if !in(c.AllowedHttpMethods, x.q.Method, true) {
		return "deny"
	} else if x.q.Method == "POST" && x.q.Header.Get("Content-Type") == "" {
		return "open" // a POST without a content type is neither simple nor anything else
	}
	if strings.HasSuffix(x.origin, "/") {
		return "open"
	}
	return "pass"
}

// corsAnswer judges the headers of an answer that passed.
func corsAnswer(c *middleware.CorsConfig, x corsReq, before, after map[string]string) string {
	cross := x.kind == "cross"
	acao, has := after["Access-Control-Allow-Origin"]
	if cross {
		want := x.origin
		if c.AnyOriginAllowed {
			want = "*"
		}
		if acao != want {
			return fmt.Sprintf("Access-Control-Allow-Origin is %q instead of %q", acao, want)
		}
	} else if has && acao != "" && !(acao == "*" && c.AnyOriginAllowed) && acao != x.origin {
		return fmt.Sprintf("Access-Control-Allow-Origin is %q", acao)
	}
	one := func(k, want string, must bool) string {
		got, has := after[k]
		if want == "" && has {
			return fmt.Sprintf("%s is %q although it is not configured here", k, got)
		}
		if want != "" && got != want && (cross || has) {
			if strings.Join(listOf(got), ",") != want {
				return fmt.Sprintf("%s is %q instead of %q", k, got, want)
			}
		}
		return ""
	}
	cred := ""
	if c.SupportsCredentials {
		cred = "true"
	}
	maxAge, methods, headers := "", "", ""
	if x.q.Method == "OPTIONS" {
		if c.PreflightMaxAgeSeconds > 0 {
			maxAge = fmt.Sprint(c.PreflightMaxAgeSeconds)
		}
		methods, headers = strings.Join(c.AllowedHttpMethods, ","), strings.Join(c.AllowedHttpHeaders, ",")
	}
	for _, s := range []string{
		one("Access-Control-Allow-Credentials", cred, cross),
		one("Access-Control-Expose-Headers", strings.Join(c.ExposedHeaders, ","), cross),
		one("Access-Control-Max-Age", maxAge, cross),
		one("Access-Control-Allow-Methods", methods, cross),
		one("Access-Control-Allow-Headers", headers, cross),
	} {
		if s != "" {
			return s
		}
	}
	vary := setOf(listOf(after["Vary"])...)
	if !vary["*"] {
		for k := range setOf(listOf(before["Vary"])...) {
			if !vary[k] {
				return fmt.Sprintf("the Vary value %q is lost: %q", k, after["Vary"])
			}
		}
		if cross && !c.AnyOriginAllowed && !vary["origin"] {
			return fmt.Sprintf("Vary is %q", after["Vary"])
		}
	}
	for k := range vary {
		if !setOf(listOf(before["Vary"])...)[k] && k != "origin" && !strings.HasPrefix(k, "access-control-request-") {
			return fmt.Sprintf("Vary is %q", after["Vary"])
		}
	}
	for k, v := range before {
		if k != "Vary" && after[k] != v {
			return fmt.Sprintf("the header %s becomes %q", k, after[k])
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok && k != "Vary" && !strings.HasPrefix(k, "Access-Control-") {
			return fmt.Sprintf("the header %s appears", k)
		}
	}
	return ""
}

func runC27(r *core.Run) {
	r.Rule("policies (any or listed origins, methods, headers, credentials, exposed headers, max-age) meet generated requests (methods, content types, preflights with several and re-cased headers, allowed, similar, malformed, absent and same origins written in every way) through one shared middleware; a reference model decides pass or access denied and the exact headers. " +
		"Then requests run at once through shared middlewares, and over real connections (plain, TLS, HTTP/2). Built with the race detector. A case is one request; non-trivial with an Origin")
	r.Require("pass", 3000)
	r.Require("deny", 3000)
	r.Require("preflight_pass", 300)
	r.Require("same_origin", 1000)
	r.Require("http", 500)
	for _, k := range []string{"cross", "same", "none", "malformed"} {
		r.Require("kind_"+k, 300)
	}
	one := func(rng *rand.Rand, c *middleware.CorsConfig, mw middleware.Middleware, key string) {
		x := genCorsReq(rng, c)
		own := map[string]string{"X-Own": "1", "ETag": "x"}
		if v := pick(rng, []string{"", "", "Accept", "Accept, Accept-Encoding", "*", "Origin", "origin,Accept", "Accept,*",
			"X-Origin-Id", "Accept,X-Origin", "Originator", "original, accept", " Accept ,Origin ", "X-Origin , origin", "Sec-Fetch-Site,Accept-Language,Cookie", "Access-Control-Request-Method", "X-*", "Accept,,X-A", "ORIGIN"}); v != "" {
			own["Vary"] = v
		}
		if rng.Intn(20) == 0 {
			for k := rng.Intn(300); k > 0; k-- {
				own[fmt.Sprintf("X-Own-%d", k)] = "many"
			}
		}
		resp := plainResp(rng, own)
		before := copyHeaders(resp.Headers())
		code := resp.StatusCode()
		var hErr error
		if rng.Intn(12) == 0 {
			hErr = errors.New("own")
		}
		var got response.HttpResponse
		var err error
		ran := 0
		h := mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran++
			if hErr != nil {
				return nil, hErr
			}
			return resp, nil
		})
		want := corsModel(c, x)
		det := func() any {
			m := map[string]any{"policy": fmt.Sprintf("%+v", *c), "method": x.q.Method, "target": x.target, "headers": x.q.Header, "kind": x.kind, "error": errText(err)}
			if got != nil {
				m["answer"] = copyHeaders(got.Headers())
			}
			return m
		}
		if !r.Try("cors", det(), func() { got, err = h(context.Background(), path.MatchingContext{R: x.q}) }) {
			return
		}
		r.Case(fmt.Sprint(key, x.kind, x.q.Method, x.origin), x.has)
		r.Count("kind_"+x.kind, 1)
		if hErr != nil {
			if err == nil {
				r.Violate("error-lost", "the error of the handler is lost", det())
			} else if want == "pass" && err != hErr {
				r.Violate("error-changed", "the error of the handler is replaced", det())
			}
			return
		}
		if want != "open" {
			r.Count(want, 1)
		}
		if x.kind == "same" {
			r.Count("same_origin", 1)
		}
		if err != nil {
			if want == "pass" {
				r.Violate("denied:"+x.kind, "a request that the policy allows is denied", det())
			}
			if err != gerrors.ErrAccessDenied || got != nil {
				r.Violate("error", "a denied request results in "+errText(err), det())
			}
			return
		}
		if want == "deny" {
			r.Violate("granted:"+x.kind, "a request that the policy does not allow is granted", det())
			return
		}
		if ran != 1 || got != resp || got.StatusCode() != code {
			r.Violate("changed", "the response of the handler does not pass", det())
			return
		}
		if x.kind == "cross" && x.q.Method == "OPTIONS" && x.q.Header["Access-Control-Request-Method"] != nil {
			r.Count("preflight_pass", 1)
		}
		if why := corsAnswer(c, x, before, copyHeaders(got.Headers())); why != "" {
			r.Violate("headers:"+strings.Fields(why)[0], why, det())
		}
	}
	parallel(r, "policies", r.N(1500, 25000), func(i int) {
		rng := r.Rand("c27", i)
		c := genCors(rng)
		keep := fmt.Sprintf("%+v", c)
		mw := middleware.Cors(c)
		for k := 0; k < 30; k++ {
			one(rng, &c, mw, fmt.Sprint(i, ".", k))
		}
		if fmt.Sprintf("%+v", c) != keep {
			r.Violate("mutated", "the policy of the caller is changed", keep)
		}
	})
	for i, n := 0, r.N(60, 600); i < n && !r.TooMany(); i++ {
		r.Begin("shared %d", i)
		rng := r.Rand("c27p", i)
		c := genCors(rng)
		mw := middleware.Cors(c)
		burst(8, 64, func(k int) { one(r.Rand(fmt.Sprint("c27p", i), k), &c, mw, fmt.Sprint("p", i, ".", k)) })
	}
	c27Http(r)
}

func c27Http(r *core.Run) {
	for _, proto := range []string{"h1", "h1tls", "h2"} {
		for leg := 0; leg < 4; leg++ {
			rng := r.Rand("c27h"+proto, leg)
			c := genCors(rng)
			c.AnyOriginAllowed = leg == 3
			c.AllowedOrigins = []string{"http://friend.test"}
			c.AllowedHttpMethods = []string{"GET", "put"}
			m, _ := newMux(false)
			m.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.Cors(c))
			for _, me := range corsMethods {
				m.HandleRequest(me, "/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					return response.PlainTextHttpResponseWithHeaders(200, "ok", response.HttpHeaders{"Vary": "Accept"}), nil
				})
			}
			ts := startServer(m, proto)
			_, hostport, _ := strings.Cut(ts.URL, "://")
			parallel(r, "http", r.N(60, 600), func(i int) {
				rng := r.Rand(fmt.Sprint("c27h", proto, leg), i)
				method := pick(rng, []string{"GET", "PUT", "DELETE", "OPTIONS", "HEAD"})
				origin := pick(rng, []string{"", ts.URL, "http://friend.test", "https://friend.test", "http://evil.test", "http://" + strings.Split(hostport, ":")[0], strings.Replace(ts.URL, "s:", ":", 1) + "1", "garbage"})
				q := ts.req(method, "/x", nil)
				x := corsReq{q: q, origin: origin, has: origin != "", kind: "cross", target: ts.URL}
				switch {
				case origin == "":
					x.kind = "none"
				case origin == "garbage":
					x.kind = "malformed"
				case isSame(ts.URL, origin):
					x.kind = "same"
				}
				if origin != "" {
					q.Header.Set("Origin", origin)
				}
				if method == "OPTIONS" && rng.Intn(4) > 0 {
					q.Header.Set("Access-Control-Request-Method", pick(rng, []string{"GET", "PUT", "DELETE"}))
				}
				a := ts.do(q)
				r.Count("http", 1)
				r.Case(fmt.Sprint(proto, leg, i), true)
				want := corsModel(&c, x)
				det := map[string]any{"policy": fmt.Sprintf("%+v", c), "method": method, "origin": origin, "target": ts.URL, "status": a.Code, "headers": a.Header, "error": fmt.Sprint(a.Err)}
				if a.Err != nil || want == "pass" && a.Code != 200 || want == "deny" && a.Code != 403 {
					r.Violate("http:"+want+":"+x.kind, fmt.Sprintf("a request that should %s is answered with %d", want, a.Code), det)
					return
				}
				if want == "pass" {
					if why := corsAnswer(&c, x, map[string]string{"Vary": "Accept"}, pickHeaders(a.Header, "Vary", "Access-Control-")); why != "" {
						r.Violate("http-headers", why, det)
					}
				} else if v := a.Header.Get("Access-Control-Allow-Origin"); v != "" {
					r.Violate("http-leak", "a denied answer carries Access-Control-Allow-Origin", det)
				}
			})
			ts.stop()
		}
	}
}

func pickHeaders(h http.Header, pre ...string) map[string]string {
	m := map[string]string{}
	for k, v := range h {
		for _, p := range pre {
			if strings.HasPrefix(k, p) {
				m[k] = strings.Join(v, ",")
			}
		}
	}
	return m
}

// ---- C28

func genSecurity(rng *rand.Rand) middleware.SecurityHeadersConfig {
	c := middleware.SecurityHeadersConfig{BlockContentSniffingEnabled: rng.Intn(2) == 0, XSSProtectionEnabled: rng.Intn(2) == 0}
	c.STS = middleware.ShStrictTransportSecurityConfig{Enabled: rng.Intn(3) > 0, MaxAgeSeconds: pickInt(rng, 0, 1, 3600, 31536000, 1<<31-1, rng.Intn(1e6)), IncludeSubDomains: rng.Intn(2) == 0, Preload: rng.Intn(2) == 0}
	c.ClickJacking.Enabled = rng.Intn(3) > 0
	k := rng.Intn(4)
	if k < 3 {
		c.ClickJacking.XFrameOption = []middleware.XFrameOption{middleware.XFrameOptionDeny, middleware.XFrameOptionSameOrigin, middleware.XFrameOptionAllowFrom}[k]
		if rng.Intn(2) == 0 {
			c.ClickJacking.XFrameOptionHeaderValue = []string{"DENY", "SAMEORIGIN", "ALLOW-FROM"}[k]
		}
		if k == 2 || rng.Intn(4) == 0 {
			c.ClickJacking.XFrameAllowFromUri = pick(rng, []string{"https://a.test", "https://a.test/x?y=1", "http://b.test:81",
				"https://a.test/", "https://a.test/app/", "https://A.test/App/Page.HTML#Top", "https://a.test//b/./c/../", "https://a.test:443/", "http://b.test:80", "https://a.test/?", "https://u:p@a.test/%2F%41", "https://*.a.test/*", "a.test", "https://b%C3%BC.test/é"})
		}
	} else {
		c.ClickJacking.XFrameOptionHeaderValue = pick(rng, []string{"DENY", "SAMEORIGIN", "OWN"})
	}
	return c
}

// frameValue is the expected X-Frame-Options.
func frameValue(c middleware.ShClickJackingConfig) string {
	v := c.XFrameOptionHeaderValue
	switch c.XFrameOption {
	case middleware.XFrameOptionDeny:
		v = "DENY"
	case middleware.XFrameOptionSameOrigin:
		v = "SAMEORIGIN"
	case middleware.XFrameOptionAllowFrom:
		v = "ALLOW-FROM " + c.XFrameAllowFromUri
	}
	return v
}

// securityModel gives the headers after the middleware.
func securityModel(c middleware.SecurityHeadersConfig, secure bool, before map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range before {
		m[k] = v
	}
	if c.STS.Enabled && secure {
		v := fmt.Sprintf("max-age=%d", c.STS.MaxAgeSeconds)
		if c.STS.IncludeSubDomains {
			v += ";includesubdomains"
		}
		if c.STS.Preload {
			v += ";preload"
		}
		m["Strict-Transport-Security"] = v
	}
	if c.ClickJacking.Enabled {
		m["X-Frame-Options"] = frameValue(c.ClickJacking)
	}
	if c.BlockContentSniffingEnabled {
		m["X-Content-Type-Options"] = "nosniff"
	}
	if c.XSSProtectionEnabled {
		m["X-Xss-Protection"] = "1;mode=block"
	}
	return m
}

// loosely drops the freedom of writing in header values: spaces around
// semicolons, the order of directives, the case of the STS directives.
func loosely(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		switch k {
		case "Strict-Transport-Security", "X-Xss-Protection":
			l := strings.Split(strings.ToLower(v), ";")
			for i := range l {
				l[i] = strings.TrimSpace(l[i])
			}
			sort.Strings(l)
			v = strings.Join(l, ";")
		}
		o[k] = v
	}
	return o
}

func runC28(r *core.Run) {
	r.Rule("configurations of the security headers meet generated requests (secure by connection or by target, or not), responses of several kinds with own values of the same headers, and errors; the resulting headers must equal the model's. First uses of a middleware run at once from several goroutines. " +
		"Answers over plain, TLS and HTTP/2 connections are checked at the client. Built with the race detector. A case is one request")
	r.Require("secure", 2000)
	r.Require("plain", 2000)
	r.Require("first_uses", 1000)
	r.Require("http", 300)
	one := func(rng *rand.Rand, c middleware.SecurityHeadersConfig, mw middleware.Middleware, key string) {
		own := map[string]string{"X-Own": "1"}
		for _, k := range []string{"Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection", "Content-Security-Policy"} {
			if rng.Intn(6) == 0 {
				own[k] = "own"
			}
		}
		if rng.Intn(20) == 0 {
			for k := rng.Intn(300); k > 0; k-- {
				own[fmt.Sprintf("X-Own-%d", k)] = "many"
			}
		}
		resp := plainResp(rng, own)
		hijack := rng.Intn(15) == 0
		if hijack {
			resp = response.NewHttpHijackConnectionResponse(nil)
		}
		before := copyHeaders(resp.Headers())
		code := resp.StatusCode()
		q := newRequest(pick(rng, corsMethods), "/x", nil, fmt.Sprint(rng.Int63()))
		q.TLS = nil
		secure := rng.Intn(2) == 0
		if secure {
			switch rng.Intn(3) {
			case 0:
				q.URL.Scheme = "https"
			case 1:
				q.TLS = &tls.ConnectionState{}
			case 2:
				q.TLS = &tls.ConnectionState{}
				q.URL.Scheme = pick(rng, []string{"http", "https"})
			}
		} else if rng.Intn(3) == 0 {
			q.URL.Scheme = "http"
		}
		var hErr error
		if rng.Intn(10) == 0 {
			hErr = errors.New("own")
		}
		ran := 0
		var got response.HttpResponse
		var err error
		var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran++
			if hErr != nil {
				return nil, hErr
			}
			return resp, nil
		}
		det := func() any {
			m := map[string]any{"config": fmt.Sprintf("%+v", c), "secure": secure, "error": errText(err), "before": before}
			if got != nil {
				m["answer"] = copyHeaders(got.Headers())
			}
			return m
		}
		if !r.Try("security headers", det(), func() { got, err = mw(h)(context.Background(), path.MatchingContext{R: q}) }) {
			return
		}
		r.Case(key, true)
		if secure {
			r.Count("secure", 1)
		} else {
			r.Count("plain", 1)
		}
		if ran != 1 || err != hErr {
			r.Violate("error", fmt.Sprintf("the handler ran %d times, and its error %v becomes %v", ran, hErr, err), det())
			return
		}
		if hErr != nil || hijack {
			return
		}
		if got != resp || got.StatusCode() != code {
			r.Violate("changed", "the response of the handler does not pass", det())
			return
		}
		want, after := loosely(securityModel(c, secure, before)), loosely(copyHeaders(got.Headers()))
		if !reflect.DeepEqual(want, after) {
			bad := "headers"
			for k := range want {
				if want[k] != after[k] {
					bad = k
				}
			}
			for k := range after {
				if _, ok := want[k]; !ok {
					bad = k
				}
			}
			r.Violate("headers:"+bad, fmt.Sprintf("%s is %q instead of %q", bad, after[bad], want[bad]), det())
		}
	}
	parallel(r, "configurations", r.N(1500, 20000), func(i int) {
		rng := r.Rand("c28", i)
		c := genSecurity(rng)
		mw := middleware.SecurityHeaders(c)
		for k := 0; k < 12; k++ {
			one(rng, c, mw, fmt.Sprint(i, ".", k))
		}
	})
	for i, n := 0, r.N(300, 3000); i < n && !r.TooMany(); i++ {
		r.Begin("first use %d", i)
		c := genSecurity(r.Rand("c28f", i))
		mw := middleware.SecurityHeaders(c)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for k := 0; k < 8; k++ {
			rng := r.Rand(fmt.Sprint("c28f", i), k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for j := 0; j < 4; j++ {
					one(rng, c, mw, fmt.Sprint("f", i, ".", k, ".", j))
				}
			}()
		}
		close(gate)
		wg.Wait()
		r.Count("first_uses", 8)
	}
	for _, proto := range []string{"h1", "h1tls", "h2"} {
		for leg, n := 0, r.N(6, 40); leg < n; leg++ {
			c := genSecurity(r.Rand("c28h"+proto, leg))
			m, _ := newMux(false)
			m.CommonMiddlewares(middleware.SecurityHeaders(c))
			m.HandleGet("/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return response.PlainTextHttpResponseOK("x"), nil
			})
			ts := startServer(m, proto)
			burst(8, 24, func(k int) {
				a := ts.get("/x")
				r.Count("http", 1)
				want := loosely(securityModel(c, proto != "h1", map[string]string{"X-Content-Type-Options": "nosniff"}))
				got := loosely(pickHeaders(a.Header, "Strict-", "X-"))
				if a.Err != nil || a.Code != 200 || !reflect.DeepEqual(want, got) {
					r.Violate("http", fmt.Sprintf("a client sees the headers %v instead of %v", got, want), map[string]any{"config": fmt.Sprintf("%+v", c), "proto": proto, "error": fmt.Sprint(a.Err)})
				}
				r.Case(fmt.Sprint(proto, leg, k), true)
			})
			ts.stop()
		}
	}
}
