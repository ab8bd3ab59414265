package props

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/iotest"
	"text/template"
	"time"
	"unicode/utf8"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C12", false, runC12)
	register("C13", false, runC13)
	register("C14", false, runC14)
}

// ---- C12 ----

type evilStringer struct{}

func (evilStringer) String() string { panic("String panics") }

type evilError struct{ tag string }

func (evilError) Error() string { panic("Error panics") }

type evilFormat struct{}

func (evilFormat) Format(fmt.State, rune) { panic("Format panics") }

type uncomparable struct{ s []string }

func (u uncomparable) Error() string { return strings.Join(u.s, ",") }

type nilErr struct{ msg string }

func (e *nilErr) Error() string { return e.msg }

// panics are the ways to panic.
var panics = []struct {
	name string
	f    func(rng *rand.Rand)
}{
	{"string", func(rng *rand.Rand) { panic(fmt.Sprintf("boom %d", rng.Intn(100))) }},
	{"empty string", func(*rand.Rand) { panic("") }},
	{"percent string", func(*rand.Rand) { panic("%s %d %w %!") }},
	{"error", func(*rand.Rand) { panic(errors.New("boom")) }},
	{"wrapped error", func(*rand.Rand) { panic(fmt.Errorf("a: %w", io.EOF)) }},
	{"framework error", func(*rand.Rand) { panic(gerrors.ErrAccessDenied) }},
	{"nil", func(*rand.Rand) { panic(nil) }},
	{"nil error", func(*rand.Rand) { var e error; panic(e) }},
	{"typed nil", func(*rand.Rand) { var e *nilErr; panic(e) }},
	{"typed nil error", func(*rand.Rand) { var e *nilErr; panic(error(e)) }},
	{"int", func(*rand.Rand) { panic(0) }},
	{"false", func(*rand.Rand) { panic(false) }},
	{"struct", func(*rand.Rand) { panic(struct{ a, b int }{1, 2}) }},
	{"slice", func(*rand.Rand) { panic([]string{"a"}) }},
	{"map", func(*rand.Rand) { panic(map[string]int{"a": 1}) }},
	{"func", func(*rand.Rand) { panic(func() {}) }},
	{"channel", func(*rand.Rand) { panic(make(chan int)) }},
	{"uncomparable error", func(*rand.Rand) { panic(uncomparable{[]string{"a"}}) }},
	{"panicking Error", func(*rand.Rand) { panic(evilError{}) }},
	{"panicking String", func(*rand.Rand) { panic(evilStringer{}) }},
	{"panicking Format", func(*rand.Rand) { panic(evilFormat{}) }},
	{"big string", func(*rand.Rand) { panic(strings.Repeat("x", 1<<20)) }},
	{"response", func(*rand.Rand) { panic(response.PlainTextHttpResponseOK("x")) }},
	{"nil dereference", func(*rand.Rand) { var p *http.Request; _ = p.Method }},
	{"nil map write", func(*rand.Rand) { var m map[string]int; m["a"] = 1 }},
	{"index", func(rng *rand.Rand) { s := []int{1}; _ = s[rng.Intn(2)+1] }},
	{"slice bounds", func(rng *rand.Rand) { s := "abc"; _ = s[3:rng.Intn(2)] }},
	{"division", func(rng *rand.Rand) { _ = 1 / (rng.Intn(2) * 0) }},
	{"type assertion", func(*rand.Rand) { var x any = 1; _ = x.(string) }},
	{"nil function", func(*rand.Rand) { var f func(); f() }},
	{"closed channel", func(*rand.Rand) { c := make(chan int); close(c); close(c) }},
	{"make", func(rng *rand.Rand) { _ = make([]int, -1-rng.Intn(2)) }},
	{"hash", func(*rand.Rand) { m := map[any]int{}; m[[]int{1}] = 1 }},
	{"re-panic", func(*rand.Rand) {
		defer func() { panic(recover()) }()
		panic("first")
	}},
	{"panic while panicking", func(*rand.Rand) {
		defer func() { panic("second") }()
		panic("first")
	}},
	{"panic after recover", func(*rand.Rand) {
		func() {
			defer func() { _ = recover() }()
			panic("first")
		}()
		panic("second")
	}},
	{"nil while panicking", func(*rand.Rand) {
		defer func() { _ = recover(); panic(nil) }()
		panic("first")
	}},
	{"deep", func(*rand.Rand) {
		var f func(n int)
		f = func(n int) {
			if n == 0 {
				panic("deep")
			}
			defer func() { _ = n }()
			f(n - 1)
		}
		f(2000)
	}},
}

func runC12(r *core.Run) {
	r.Rule("every panic value of a list (nil in all forms, runtime errors of all kinds, values whose methods panic, re-panics, nested panics) at every position (handler, inner middleware before or after the next one, deferred) in chains with the recovery middleware once or twice, " +
		"and every non-panicking result (response and error, also both or none) by identity; one shared chain is also used concurrently with mixed outcomes, and over a real server with error middlewares outside. A case is one request; non-trivial when it panicked")
	r.Require("panics", 500)
	r.Require("panic_kinds", int64(len(panics)*4))
	r.Require("passthrough", 200)
	r.Require("client_gone", 100)
	rec := middleware.PanicRecover()
	rounds := r.N(100, 1000)
	positions := []string{"handler", "before", "after", "deferred"}
	at := func(pos string, f func()) handler.Handler {
		inner := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			switch pos {
			case "handler":
				f()
			case "deferred":
				defer f()
			}
			return response.PlainTextHttpResponseOK("half made"), nil
		}
		mw := func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				if pos == "before" {
					f()
				}
				a, b := next(ctx, mc)
				if pos == "after" {
					f()
				}
				return a, b
			}
		}
		return mw(inner)
	}
	mc := path.MatchingContext{R: newRequest("GET", "/", nil)}
	for round := 0; round < rounds && !r.TooMany(); round++ {
		rng := r.Rand("c12", round)
		for _, p := range panics {
			for _, pos := range positions {
				r.Begin("%s at %s", p.name, pos)
				p := p
				h := at(pos, func() { p.f(rng) })
				recs := 1 + rng.Intn(2)
				for k := 0; k < recs; k++ {
					h = rec(h)
				}
				// an outer middleware must see an ordinary error
				outer := 0
				var seenErr error
				h = middleware.ErrResponse(func(code int, err error) response.HttpResponse {
					outer++
					seenErr = err
					return response.PlainTextHttpResponse(code, "handled")
				})(h)
				var resp response.HttpResponse
				var err error
				pan, st := core.Guard(func() { resp, err = h(context.Background(), mc) })
				det := map[string]any{"panic": p.name, "position": pos, "recovery_middlewares": recs, "stack": st}
				r.Case(fmt.Sprint(p.name, pos, recs, round), true)
				r.Seen("panic_kinds", p.name+"@"+pos)
				r.Count("panics", 1)
				if pan != nil {
					r.Violate("escaped:"+p.name, "a panic was not recovered: "+p.name, det)
					continue
				}
				if outer != 1 || err != nil || resp == nil || resp.StatusCode() != 500 {
					r.Violate("noerror:"+p.name, "an error middleware outside did not get exactly one error for the panic: "+p.name, det)
					continue
				}
				if p2, _ := core.Guard(func() { _ = seenErr.Error() }); p2 != nil {
					r.Violate("badtext:"+p.name, "the error made from a panic cannot be printed: "+p.name, det)
				}
				// the bare result
				var r1 response.HttpResponse
				var e1 error
				h = rec(at(pos, func() { p.f(rng) }))
				gone, leave := context.WithCancel(context.Background())
				if rng.Intn(4) == 0 {
					leave()
				}
				pan, _ = core.Guard(func() { r1, e1 = h(gone, mc) })
				leave()
				if pan != nil || e1 == nil || r1 != nil {
					r.Violate("result:"+p.name, fmt.Sprintf("a panic gave response=%v error=%v instead of a nil response and an error", r1, e1 != nil), det)
				}
			}
		}
		// pass through
		resps := []response.HttpResponse{nil, response.PlainTextHttpResponseOK("x"), response.JsonHttpResponseOK(nil), response.InternalServerErrorHttpResponse(),
			response.NewHttpHijackConnectionResponse(nil), response.HandlerFuncAdaptor(nil), response.SSEHttpResponse(nil)}
		errs := []error{nil, io.EOF, gerrors.ErrAccessDenied, gerrors.NewBadRequestWithMessage("x"), &nilErr{"x"}, (*nilErr)(nil), uncomparable{[]string{"a"}}, fmt.Errorf("recover from panic: %w", io.EOF)}
		for _, rs := range resps {
			for _, e := range errs {
				type k struct{}
				ctx, leave := context.WithCancel(context.WithValue(context.Background(), k{}, round))
				left := rng.Intn(4) // the client may have gone before, or go while the handler runs
				if left == 0 {
					leave()
				}
				defer leave()
				var gotCtx context.Context
				var gotMc path.MatchingContext
				calls := 0
				var r1 response.HttpResponse
				var e1 error
				pan, _ := core.Guard(func() {
					r1, e1 = rec(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
						gotCtx, gotMc = ctx, mc
						if left == 1 {
							leave()
						}
						if left < 2 {
							r.Count("client_gone", 1)
							runtime.Gosched()
						}
						calls++
						return rs, e
					})(ctx, mc)
				})
				r.Case(fmt.Sprintf("pass %T %T %v", rs, e, round), false)
				r.Count("passthrough", 1)
				if pan != nil || calls != 1 || gotCtx != ctx || gotMc.R != mc.R || r1 != rs || !reflect.DeepEqual(e1, e) {
					r.Violate("pass", "the result of a handler that did not panic was changed", map[string]any{"response": fmt.Sprintf("%T", rs), "error": fmt.Sprintf("%#v", e),
						"got_response": fmt.Sprintf("%T", r1), "got_error": fmt.Sprintf("%#v", e1), "calls": calls, "panic": fmt.Sprint(pan)})
				}
			}
		}
	}
	c12Concurrent(r, rec)
	c12Server(r)
}

type c12Key struct{}

func c12Concurrent(r *core.Run, rec middleware.Middleware) {
	shared := rec(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		v := ctx.Value(c12Key{}).(int)
		runtime.Gosched()
		switch v % 3 {
		case 0:
			panics[v%len(panics)].f(rand.New(rand.NewSource(int64(v))))
		case 1:
			return nil, fmt.Errorf("e%d", v)
		}
		return response.PlainTextHttpResponse(200, fmt.Sprintf("r%d", v)), nil
	})
	var wg sync.WaitGroup
	per := r.N(3000, 30000)
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := 0; q < per; q++ {
				r.Begin("concurrent")
				v := g*per + q
				var resp response.HttpResponse
				var err error
				pan, _ := core.Guard(func() {
					resp, err = shared(context.WithValue(context.Background(), c12Key{}, v), path.MatchingContext{})
				})
				ok := pan == nil
				switch v % 3 {
				case 0:
					ok = ok && resp == nil && err != nil
				case 1:
					ok = ok && resp == nil && err != nil && err.Error() == fmt.Sprintf("e%d", v)
				default:
					t, is := resp.(*response.HttpTextResponse)
					ok = ok && err == nil && is && t.Payload == fmt.Sprintf("r%d", v)
				}
				r.Case(fmt.Sprint("conc", v), v%3 == 0)
				if !ok {
					r.Violate("concurrent", "concurrent requests through one recovery middleware got each other's outcome", map[string]any{"v": v, "panic": fmt.Sprint(pan), "error": fmt.Sprint(err)})
				}
			}
		}()
	}
	wg.Wait()
	r.Count("concurrent", int64(8*per))
}

func c12Server(r *core.Run) {
	m, l := newMux(false)
	for k, p := range panics {
		p := p
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			p.f(rand.New(rand.NewSource(1)))
			return response.PlainTextHttpResponseOK("half made"), nil
		}
		m.HandleGet(fmt.Sprintf("/json/%d", k), h, middleware.ErrJsonResponse(), middleware.PanicRecover())
		m.HandleGet(fmt.Sprintf("/bare/%d", k), h, middleware.PanicRecover())
	}
	m.HandleGet("/fine", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("fine"), nil
	}, middleware.ErrJsonResponse(), middleware.PanicRecover())
	for _, proto := range []string{"h1", "h2"} {
		ts := startServer(m, proto)
		for k, p := range panics {
			r.Begin("server %s %s", proto, p.name)
			l.take()
			a := ts.get(fmt.Sprintf("/json/%d", k))
			var body map[string]string
			bad := a.Err != nil || a.Code != 500 || json.Unmarshal(a.Body, &body) != nil || len(body) != 1 || body["error"] == "" || l.count() != 0
			if bad {
				r.Violate("server-json:"+p.name, "the error middleware outside of the recovery did not answer the panic: "+p.name,
					map[string]any{"proto": proto, "status": a.Code, "err": fmt.Sprint(a.Err), "body": clip(string(a.Body)), "logged": l.count()})
			}
			l.take()
			a = ts.get(fmt.Sprintf("/bare/%d", k))
			if a.Err != nil || a.Code != 500 || len(a.Body) != 0 || l.count() != 1 {
				r.Violate("server-bare:"+p.name, "a recovered panic did not become an ordinary uncaught error: "+p.name,
					map[string]any{"proto": proto, "status": a.Code, "err": fmt.Sprint(a.Err), "body": clip(string(a.Body)), "logged": l.count()})
			}
			if a := ts.get("/fine"); a.Err != nil || a.Code != 200 || string(a.Body) != "fine" {
				r.Violate("server-after", "the request after a recovered panic was affected", map[string]any{"proto": proto, "panic": p.name})
			}
			r.Case("server"+proto+p.name, true)
			r.Count("server_panics", 2)
		}
		if isPanicLog(ts.Log.String()) {
			r.Violate("server-log", "a panic reached net/http", map[string]any{"log": clip(ts.Log.String())})
		}
		ts.stop()
	}
}

// ---- C13 ----

// genText makes any valid UTF-8 text.
func genText(rng *rand.Rand, max int) string {
	var sb strings.Builder
	n := rng.Intn(max + 1)
	if rng.Intn(100) == 0 {
		n = rng.Intn(max*60 + 1)
	}
	for k := 0; k < n; k++ {
		switch rng.Intn(8) {
		case 0:
			sb.WriteString(pick(rng, []string{"\"", "\\", "<", ">", "&", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "\u2028", "\u2029", "'", "/", "%s", "{", "}", "\ufffd", "\ufeff"}))
		case 1:
			c := rune(rng.Intn(0x110000))
			if c >= 0xd800 && c < 0xe000 {
				c = 'é'
			}
			sb.WriteRune(c)
		case 2:
			sb.WriteRune(rune(0xa0 + rng.Intn(0x500)))
		default:
			sb.WriteByte(byte(' ' + rng.Intn(95)))
		}
	}
	return sb.String()
}

type embedded struct{ gerrors.ErrBadRequest }

// errCase is an error with the status it must have.
type errCase struct {
	kind string
	err  error
	code int
}

func genErrCase(rng *rand.Rand) errCase {
	msg := genText(rng, 24)
	switch rng.Intn(14) {
	case 0:
		return errCase{"bad request message", gerrors.NewBadRequestWithMessage(msg), 400}
	case 1:
		return errCase{"bad request", gerrors.NewBadRequest(pickErr(rng, msg)), 400}
	case 2:
		return errCase{"not found message", gerrors.NewObjectNotFoundWithMessage(msg), 404}
	case 3:
		return errCase{"not found", gerrors.NewObjectNotFound(pickErr(rng, msg)), 404}
	case 4:
		return errCase{"unauthorized", gerrors.ErrUnauthorizedRequest, 401}
	case 5:
		return errCase{"wrong credentials", gerrors.ErrWrongCredentials, 403}
	case 6:
		return errCase{"access denied", gerrors.ErrAccessDenied, 403}
	case 7:
		return errCase{"same text", errors.New(pick(rng, []string{"access denied", "unauthorized request", "wrong credentials", "bad request", "not found"})), 500}
	case 8:
		return errCase{"pointer error", &nilErr{msg}, 500}
	case 9:
		return errCase{"uncomparable error", uncomparable{[]string{msg}}, 500}
	case 10:
		return errCase{"context error", pick2(rng, context.Canceled, context.DeadlineExceeded), 500}
	case 11:
		return errCase{"standard error", knownErr(rng), 500}
	default:
		return errCase{"plain error", errors.New(msg), 500}
	}
}

// knownErr gives errors that programs meet, which some treat specially.
func knownErr(rng *rand.Rand) error {
	_, numErr := strconv.Atoi("x")
	_, urlErr := url.Parse("%")
	l := []error{http.ErrNoCookie, http.ErrMissingFile, http.ErrHandlerTimeout, http.ErrBodyReadAfterClose, http.ErrContentLength, http.ErrNotSupported, http.ErrServerClosed, http.ErrNoLocation, http.ErrLineTooLong,
		io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, net.ErrClosed, context.Canceled, context.DeadlineExceeded,
		os.ErrNotExist, os.ErrPermission, os.ErrExist, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrInvalid, syscall.EPIPE, syscall.ECONNRESET, syscall.ENOSPC, syscall.EAGAIN,
		&net.OpError{Op: "write", Net: "tcp", Err: &os.SyscallError{Syscall: "write", Err: syscall.EPIPE}}, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.DNSError{Err: "no such host", Name: "x.test", IsNotFound: true},
		&os.PathError{Op: "open", Path: "/x", Err: os.ErrNotExist}, &os.PathError{Op: "open", Path: "/x", Err: os.ErrPermission}, &http.MaxBytesError{Limit: 7}, &http.ProtocolError{ErrorString: "x"}, &json.SyntaxError{Offset: 3}, &json.UnsupportedValueError{Str: "x"},
		numErr, urlErr, errors.ErrUnsupported, flate.CorruptInputError(3), gzip.ErrHeader, errors.New("broken pipe"), errors.New("connection reset by peer"), errors.New("http2: stream closed"), errors.New("client disconnected"), errors.New("EOF"), errors.New("i/o timeout"), errors.New("")}
	return l[rng.Intn(len(l))]
}

func pick2(rng *rand.Rand, a, b error) error {
	if rng.Intn(2) == 0 {
		return a
	}
	return b
}

func pickErr(rng *rand.Rand, msg string) error {
	return []error{errors.New(msg), gerrors.ErrAccessDenied, gerrors.ErrUnauthorizedRequest, gerrors.NewObjectNotFoundWithMessage(msg), gerrors.NewBadRequestWithMessage(msg),
		&nilErr{msg}, uncomparable{[]string{msg, "x"}}}[rng.Intn(7)]
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		same := false
		core.Guard(func() { same = a == b })
		if same {
			return true
		}
	}
	if reflect.TypeOf(a).Kind() == reflect.Pointer {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// passing are middlewares that let errors through.
func passing(rng *rand.Rand) (middleware.Middleware, string) {
	switch rng.Intn(9) {
	case 0:
		return middleware.PanicRecover(), "PanicRecover"
	case 1:
		return middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true, BlockContentSniffingEnabled: true}), "SecurityHeaders"
	case 2:
		return middleware.CompressResponse(rng.Intn(11) - 1), "CompressResponse"
	case 3:
		return middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true}), "Cors"
	case 4:
		return middleware.RequestDumper(func(string) {}), "RequestDumper"
	case 5:
		return middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			return adminUser, nil
		}), "SecurityPrincipalSupplier"
	case 6:
		return middleware.CSRFPrevention(cache.NewInMemory()), "CSRFPrevention"
	case 7:
		return func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				type k struct{}
				return next(context.WithValue(ctx, k{}, 1), mc)
			}
		}, "custom"
	}
	return nil, "nil"
}

var adminUser = auth.User{Id: "admin", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{auth.AllPermissions()}}}}}}

func runC13(r *core.Run) {
	r.Rule("errors of every documented type with random UTF-8 messages (and other error types carrying the same texts), returned by handlers, by panics or by the library's own middlewares, through random chains of pass-through middlewares, with the JSON error middleware or a recording custom supplier as a common or own middleware; " +
		"bulk through a recorder, a part over real HTTP/1.1 and HTTP/2. A case is one request; non-trivial when it carried an error")
	for _, k := range []string{"bad request message", "bad request", "not found message", "not found", "unauthorized", "wrong credentials", "access denied", "same text", "pointer error", "plain error", "own"} {
		r.Require("kind_"+k, 30)
	}
	r.Require("real_http", 200)
	r.Require("success", 300)
	r.Require("replaced", 500)
	r.Require("replaced_late", 200)
	n := r.N(120000, 1500000)
	parallel(r, "chain", n, func(i int) {
		rng := r.Rand("c13", i)
		m, l := newMux(false)
		ec := genErrCase(rng)
		own := ""
		success := rng.Intn(6) == 0
		okResp := response.HttpResponse(response.PlainTextHttpResponse(pickInt(rng, 200, 201, 404, 400, 500), "fine"))
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			if success {
				return okResp, nil
			}
			if rng.Intn(4) == 0 {
				return response.PlainTextHttpResponseOK("half made"), ec.err
			}
			return nil, ec.err
		}
		req := newRequest("GET", "/x", nil)
		var inner []middleware.Middleware
		var names []string
		nin := rng.Intn(4)
		for k := 0; k < nin; k++ {
			mw, name := passing(rng)
			inner = append(inner, mw)
			names = append(names, name)
		}
		if !success && rng.Intn(4) == 0 {
			// an error made by the library itself
			own = pick(rng, []string{"authorize", "csrf", "cors", "principal", "panic"})
			switch own {
			case "authorize":
				inner = append(inner, middleware.AuthorizeAny())
				ec = errCase{"own", gerrors.ErrUnauthorizedRequest, 401}
			case "csrf":
				req = newRequest("POST", "/x", nil)
				inner = append(inner, middleware.CSRFPrevention(cache.NewInMemory()))
				ec = errCase{"own", gerrors.ErrAccessDenied, 403}
			case "cors":
				req.Header.Set("Origin", "https://evil.test")
				inner = []middleware.Middleware{middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://good.test"}, AllowedHttpMethods: []string{"GET"}})}
				ec = errCase{"own", gerrors.ErrAccessDenied, 403}
				success = false
				h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return okResp, nil }
			case "principal":
				e := genErrCase(rng)
				inner = append(inner, middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) { return nil, e.err }))
				ec = errCase{"own", e.err, e.code}
			case "panic":
				inner = append(inner, middleware.PanicRecover())
				h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { panic("boom") }
				ec = errCase{"own", nil, 500}
			}
			names = append(names, "own:"+own)
			if own == "csrf" {
				for k, nm := range names {
					if nm == "CSRFPrevention" {
						_ = k // either of them denies
					}
				}
			}
		}
		if own != "csrf" && req.Method != "GET" {
			panic("unexpected")
		}
		// which translation is used
		var calls []errCase
		var supplied response.HttpResponse
		custom := rng.Intn(2) == 0
		var mw middleware.Middleware
		if custom {
			mw = middleware.ErrResponse(func(code int, err error) response.HttpResponse {
				calls = append(calls, errCase{"", err, code})
				supplied = response.PlainTextHttpResponse(pickInt(rng, 200, 299, 418, code), fmt.Sprintf("supplied %d", code))
				return supplied
			})
		} else {
			mw = middleware.ErrJsonResponse()
		}
		// a second one further out must see nothing
		outerCalls := 0
		outer := middleware.ErrResponse(func(code int, err error) response.HttpResponse {
			outerCalls++
			return response.PlainTextHttpResponse(599, "outer")
		})
		chain := append([]middleware.Middleware{}, inner...)
		var out response.HttpResponse
		var outErr error
		spy := func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				out, outErr = next(ctx, mc)
				return out, outErr
			}
		}
		if rng.Intn(2) == 0 {
			m.CommonMiddlewares(outer, spy, mw)
		} else {
			chain = append([]middleware.Middleware{outer, spy, mw}, chain...)
		}
		m.HandleRequest(req.Method, "/x", h, chain...)
		w := httptest.NewRecorder()
		pan, st := core.Guard(func() { m.ServeHTTP(w, req) })
		det := func() any {
			return map[string]any{"error": fmt.Sprintf("%T %q", ec.err, errText(ec.err)), "kind": ec.kind, "chain": names, "custom": custom, "status": w.Code, "expected": ec.code,
				"body": clip(w.Body.String()), "content_type": w.Header().Get("Content-Type"), "supplier_calls": len(calls), "panic": fmt.Sprint(pan), "stack": st}
		}
		r.Case(fmt.Sprint(i), !success)
		if pan != nil {
			r.Violate("panic", fmt.Sprintf("panic: %v", pan), det())
			return
		}
		if success {
			r.Count("success", 1)
			hasCompress := false
			for _, n := range names {
				hasCompress = hasCompress || n == "CompressResponse"
			}
			if outErr != nil || len(calls) != 0 || !hasCompress && out != okResp || w.Code != okResp.StatusCode() || w.Body.String() != "fine" {
				r.Violate("success", "a result without an error was changed by the error middleware", det())
			}
			return
		}
		r.Count("kind_"+ec.kind, 1)
		if outErr != nil || outerCalls != 0 || l.count() != 0 {
			r.Violate("escaped", "an error passed the error middleware", det())
			return
		}
		if custom {
			if len(calls) != 1 {
				r.Violate("calls", "the supplier was not called exactly once for an error", det())
				return
			}
			if calls[0].code != ec.code {
				r.Violate("code:"+ec.kind, fmt.Sprintf("the supplier got status %d for a %s error, expected %d", calls[0].code, ec.kind, ec.code), det())
			}
			if ec.err != nil && !sameErr(calls[0].err, ec.err) {
				r.Violate("identity", "the supplier got another error", det())
			}
			if out != supplied || w.Code != supplied.StatusCode() || w.Body.String() != fmt.Sprintf("supplied %d", ec.code) {
				r.Violate("supplied", "the supplied response is not the one written", det())
			}
			return
		}
		checkErrJson(r, w.Code, w.Header().Get("Content-Type"), w.Body.Bytes(), ec, det)
		if i < 4 {
			r.Sample(det())
		}
	})
	c13Real(r)
	c13Replaced(r)
}

// c13Replaced gives the package another translation of errors to statuses.
func c13Replaced(r *core.Run) {
	old := middleware.Error2HttpStatusCode
	defer func() { middleware.Error2HttpStatusCode = old }()
	n := r.N(2000, 20000)
	for i := 0; i < n; i++ {
		if i%500 == 0 {
			r.Begin("replaced %d", i)
		}
		rng := r.Rand("c13rep", i)
		ec := genErrCase(rng)
		code := pickInt(rng, 400, 402, 403, 404, 409, 418, 422, 451, 500, 503, 599, 200, 299)
		var asked []error
		json := rng.Intn(2) == 0
		var mw middleware.Middleware
		var got []errCase
		build := func() {
			mw = middleware.ErrJsonResponse()
			if !json {
				mw = middleware.ErrResponse(func(c int, err error) response.HttpResponse {
					got = append(got, errCase{"", err, c})
					return response.PlainTextHttpResponse(c, "supplied")
				})
			}
		}
		late := rng.Intn(2) == 0 // the middleware may be there before the translation is replaced
		if late {
			build()
			r.Count("replaced_late", 1)
		}
		middleware.Error2HttpStatusCode = func(err error) int {
			asked = append(asked, err)
			return code
		}
		m, l := newMux(false)
		if !late {
			build()
		}
		m.HandleGet("/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, ec.err }, mw)
		m.HandleGet("/fine", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponseOK("fine"), nil
		}, mw)
		w, f := httptest.NewRecorder(), httptest.NewRecorder()
		pan, st := core.Guard(func() {
			m.ServeHTTP(w, newRequest("GET", "/x", nil))
			m.ServeHTTP(f, newRequest("GET", "/fine", nil))
		})
		r.Case(fmt.Sprint("replaced", i), true)
		r.Count("replaced", 1)
		det := map[string]any{"error": fmt.Sprintf("%T %q", ec.err, errText(ec.err)), "status": w.Code, "expected": code, "body": clip(w.Body.String()), "panic": fmt.Sprint(pan), "stack": st}
		switch {
		case pan != nil:
			r.Violate("replaced-panic", fmt.Sprintf("panic: %v", pan), det)
		case w.Code != code || l.count() != 0 || f.Code != 200 || f.Body.String() != "fine":
			r.Violate("replaced-code", fmt.Sprintf("the application's own translation gives status %d, the answer has %d", code, w.Code), det)
		case len(asked) == 0 || !sameErr(asked[0], ec.err):
			r.Violate("replaced-asked", "the application's own translation was not asked about the error", det)
		case !json && (len(got) != 1 || got[0].code != code || !sameErr(got[0].err, ec.err)):
			r.Violate("replaced-supplier", "the supplier did not get the status of the application's own translation once", det)
		case json:
			e := ec
			e.code = code
			checkErrJson(r, w.Code, w.Header().Get("Content-Type"), w.Body.Bytes(), e, func() any { return det })
		}
	}
}

func errText(e error) string {
	s := ""
	core.Guard(func() {
		if e != nil {
			s = e.Error()
		}
	})
	return s
}

func pickInt(rng *rand.Rand, v ...int) int { return v[rng.Intn(len(v))] }

func checkErrJson(r *core.Run, code int, ct string, body []byte, ec errCase, det func() any) {
	if code != ec.code {
		r.Violate("code:"+ec.kind, fmt.Sprintf("status %d for a %s error, expected %d", code, ec.kind, ec.code), det())
		return
	}
	if mt, _, _ := strings.Cut(ct, ";"); strings.TrimSpace(mt) != "application/json" {
		r.Violate("type", "the error answer is not application/json: "+ct, det())
	}
	var v map[string]any
	d := json.NewDecoder(bytes.NewReader(body))
	if err := d.Decode(&v); err != nil || d.More() || len(v) != 1 {
		r.Violate("json", "the error body is not a JSON object with the only key error", det())
		return
	}
	got, ok := v["error"].(string)
	if !ok || ec.err != nil && got != errText(ec.err) {
		r.Violate("message", fmt.Sprintf("the error body holds %q", clip(got)), det())
	}
}

func c13Real(r *core.Run) {
	m, _ := newMux(false)
	var cur atomic.Pointer[errCase]
	m.CommonMiddlewares(middleware.CompressResponse(6), middleware.ErrJsonResponse(), middleware.PanicRecover())
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, cur.Load().err
	}
	m.HandleGet("/e", h)
	m.HandlePost("/e", h)
	for _, proto := range []string{"h1", "h2"} {
		ts := startServer(m, proto)
		for k := 0; k < r.N(300, 3000); k++ {
			rng := r.Rand("c13r"+proto, k)
			ec := genErrCase(rng)
			cur.Store(&ec)
			a := ts.do(ts.req(pick(rng, []string{"GET", "POST"}), "/e", nil))
			det := func() any {
				return map[string]any{"proto": proto, "error": fmt.Sprintf("%T %q", ec.err, errText(ec.err)), "status": a.Code, "body": clip(string(a.Body)), "transport": fmt.Sprint(a.Err)}
			}
			r.Case("real"+proto+fmt.Sprint(k), true)
			r.Count("real_http", 1)
			if a.Err != nil {
				r.Violate("transport", "the error answer could not be read", det())
				continue
			}
			checkErrJson(r, a.Code, a.Header.Get("Content-Type"), a.Body, ec, det)
		}
		ts.stop()
	}
}

// ---- C14 ----

// faultWriter fails after a number of bytes.
type faultWriter struct {
	h       http.Header
	codes   []int
	b       bytes.Buffer
	left    int
	err     error
	failed  int
	flushes int
	onFail  func()
}

func (w *faultWriter) Header() http.Header { return w.h }
func (w *faultWriter) WriteHeader(c int)   { w.codes = append(w.codes, c) }
func (w *faultWriter) Write(p []byte) (int, error) {
	if len(w.codes) == 0 {
		w.codes = append(w.codes, 200)
	}
	if len(p) > w.left {
		n := w.left
		w.b.Write(p[:n])
		w.left = 0
		w.failed++
		if w.onFail != nil {
			w.onFail()
		}
		return n, w.err
	}
	w.left -= len(p)
	w.b.Write(p)
	return len(p), nil
}

// faultStringWriter takes strings as well, as the standard one does.
type faultStringWriter struct{ faultWriter }

func (w *faultStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *faultStringWriter) Flush()                            { w.flushes++ }

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

type failReader struct {
	data []byte
	err  error
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

// wrapsOriginal looks for an error in the tree of another.
func wrapsOriginal(e, orig error) bool {
	if e == nil {
		return false
	}
	if sameErr(e, orig) {
		return true
	}
	switch u := e.(type) {
	case interface{ Unwrap() error }:
		return wrapsOriginal(u.Unwrap(), orig)
	case interface{ Unwrap() []error }:
		for _, x := range u.Unwrap() {
			if wrapsOriginal(x, orig) {
				return true
			}
		}
	}
	return false
}

func genAnyErr(rng *rand.Rand) error {
	switch rng.Intn(9) {
	case 8:
		if rng.Intn(3) == 0 {
			return fmt.Errorf("outer: %w", knownErr(rng))
		}
		return knownErr(rng)
	case 0:
		return (*nilErr)(nil)
	case 1:
		return fmt.Errorf("outer: %w", io.ErrUnexpectedEOF)
	case 2:
		return errors.Join(io.EOF, errors.New("secret-detail"))
	case 3:
		return evilError{"secret-detail"}
	case 4:
		return http.ErrAbortHandler
	}
	ec := genErrCase(rng)
	return ec.err
}

var leakTpl = template.Must(template.New("t").Funcs(template.FuncMap{"fail": func() (string, error) { return "", errTemplate }}).Parse(`{{define "ok"}}{{.}}{{end}}{{define "bad"}}abc{{fail}}{{end}}`))
var errTemplate = errors.New("template function failed")

func runC14(r *core.Run) {
	r.Rule("histories of requests on one mux: handlers that fail with any error value (typed nils, joined, uncomparable, with panicking methods) after building half a response and through chains of middlewares; responses of every kind written to writers that fail after a random number of bytes (plain and compressed), " +
		"readers, templates and payloads that fail; unmatched requests and successes in between; sequential, concurrent and over real HTTP. The log calls of each request are counted. A case is one request; non-trivial when an error or a fault was provoked")
	r.Require("uncaught", 2000)
	r.Require("write_faults", 1000)
	r.Require("silent", 2000)
	r.Require("cancelled", 2000)
	r.Require("busy", 1000)
	for _, k := range []string{"text", "html", "json", "raw", "stream", "template", "compressed"} {
		r.Require("fault_"+k, 50)
	}
	n := r.N(24000, 300000)
	parallel(r, "history", n, func(i int) {
		rng := r.Rand("c14", i)
		m, l := newMux(false)
		sub := m.Clone()
		var inner []middleware.Middleware
		for k := rng.Intn(4); k > 0; k-- {
			mw, _ := passing(rng)
			inner = append(inner, mw)
		}
		var cur func() (response.HttpResponse, error)
		h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return cur() }
		plain := "/plain"
		m.HandleGet(plain, h)
		m.HandleRequest("HEAD", plain, h)
		sub.CommonMiddlewares(inner...)
		sub.HandleGet("/chain", h)
		m.HandleGet("/z", h, middleware.CompressResponse(rng.Intn(11)-1))
		for q := 0; q < 12; q++ {
			c14Step(r, rng, m, l, func(f func() (response.HttpResponse, error)) { cur = f }, fmt.Sprintf("%d/%d", i, q))
		}
	})
	c14Concurrent(r)
	c14Busy(r)
}

// c14Busy: the log function is slow and hundreds of requests fail at the same
// moment; each is logged once all the same.
func c14Busy(r *core.Run) {
	for round := 0; round < r.N(2, 10); round++ {
		var mu sync.Mutex
		logged := map[string]int{}
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) {
			time.Sleep(20 * time.Millisecond)
			_, id, _ := strings.Cut(err.Error(), "busy:")
			mu.Lock()
			logged[id]++
			mu.Unlock()
		}})
		if err != nil {
			panic(err)
		}
		m.HandleGet("/error/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return nil, errors.New("busy:" + mc.PathVar("id"))
		})
		m.HandleGet("/raw/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			id := mc.PathVar("id")
			return response.RawWriterHttpResponse("text/plain", func(io.Writer) error { return errors.New("busy:" + id) }), nil
		})
		m.HandleGet("/packed/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			id := mc.PathVar("id")
			return response.StreamHttpResponse("text/plain", iotest.ErrReader(errors.New("busy:"+id))), nil
		}, middleware.CompressResponse(1))
		const n = 600
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				kind := []string{"error", "raw", "packed"}[k%3]
				q := newRequest("GET", fmt.Sprintf("/%s/%d", kind, k), nil)
				q.Header.Set("Accept-Encoding", "gzip")
				r.Try("busy "+kind, nil, func() { m.ServeHTTP(httptest.NewRecorder(), q) })
			}()
		}
		wg.Wait()
		mu.Lock()
		for k := 0; k < n; k++ {
			r.Case(fmt.Sprint("busy", round, k), true)
			if c := logged[fmt.Sprint(k)]; c != 1 {
				r.Violate("busy", fmt.Sprintf("with a slow log function an error was logged %d times", c), map[string]any{"request": k, "errors_logged": len(logged)})
			}
		}
		mu.Unlock()
		r.Count("busy", n)
	}
}

func c14Step(r *core.Run, rng *rand.Rand, m *gofre.MuxHandler, l *errLog, set func(func() (response.HttpResponse, error)), key string) {
	l.take()
	url, method := pick(rng, []string{"/plain", "/plain", "/chain", "/z"}), "GET"
	if url == "/plain" && rng.Intn(5) == 0 {
		method = "HEAD"
	}
	var fw *faultWriter
	var w http.ResponseWriter
	fault := func(what string) error {
		switch rng.Intn(3) {
		case 0:
			return knownErr(rng)
		case 1:
			return fmt.Errorf("%s %s: %w", what, key, knownErr(rng))
		}
		return fmt.Errorf("%s %s", what, key)
	}
	injected := fault("injected")
	limit := 1 << 30
	build := func(h http.Header) {
		if rng.Intn(2) == 0 {
			x := &faultStringWriter{faultWriter{h: h, left: limit, err: injected}}
			fw, w = &x.faultWriter, x
		} else {
			fw = &faultWriter{h: h, left: limit, err: injected}
			w = fw
		}
	}
	req := newRequest(method, url, nil)
	if rng.Intn(2) == 0 {
		req.Header.Set("Accept-Encoding", pick(rng, []string{"gzip", "deflate", "br"}))
	}
	// the request may be cancelled, before it is served, by the handler or while
	// the response is written
	ctx, cancel := context.WithCancel(req.Context())
	defer cancel()
	when := rng.Intn(8)
	if when < 4 {
		r.Count("cancelled", 1)
	}
	withCtx := func(q *http.Request) *http.Request {
		switch when {
		case 0:
			cancel()
		case 1:
			var done context.CancelFunc
			ctx, done = context.WithTimeout(ctx, -1)
			done()
		case 3:
			fw.onFail = cancel
		}
		return q.WithContext(ctx)
	}
	set0 := set
	set = func(f func() (response.HttpResponse, error)) {
		set0(func() (response.HttpResponse, error) {
			if when == 2 {
				cancel()
			}
			return f()
		})
	}
	kind := ""
	hdrs := func() response.HttpHeaders {
		h := response.NewHttpHeaders()
		h.Set("X-Leak", "leak")
		return h
	}
	ck := func() response.HttpCookies {
		return response.NewHttpCookie(&http.Cookie{Name: "leak", Value: "leak"})
	}
	det := func(extra map[string]any) map[string]any {
		d := map[string]any{"request": method + " " + url, "kind": kind, "statuses": fw.codes, "body": clip(fw.b.String()), "headers": fw.h, "logged": fmt.Sprint(len(l.errs)), "cancelled": when}
		for k, v := range extra {
			d[k] = v
		}
		return d
	}
	switch rng.Intn(4) {
	case 0, 1: // an uncaught error
		build(http.Header{})
		e := genAnyErr(rng)
		half := rng.Intn(3)
		kind = fmt.Sprintf("error %T half=%d", e, half)
		set(func() (response.HttpResponse, error) {
			resp := response.JsonHttpResponseWithHeadersAndCookies(201, map[string]int{"a": 1}, hdrs(), ck())
			resp.Headers().Set("X-Late", "leak")
			switch half {
			case 0:
				return nil, e
			default:
				return resp, e
			}
		})
		pan, st := core.Guard(func() { m.ServeHTTP(w, withCtx(req)) })
		logs := l.take()
		r.Case(key, true)
		r.Count("uncaught", 1)
		d := det(map[string]any{"error": fmt.Sprintf("%T %q", e, errText(e)), "panic": fmt.Sprint(pan), "stack": st, "logs": len(logs)})
		if pan != nil {
			r.Violate("panic", fmt.Sprintf("an uncaught error made the router panic: %v", pan), d)
			return
		}
		if len(fw.codes) != 1 || fw.codes[0] != 500 {
			r.Violate("status", "an uncaught error was not answered with a single 500", d)
		}
		if fw.b.Len() != 0 || len(fw.h) != 0 {
			r.Violate("leak", "the answer to an uncaught error carries a body, headers or cookies", d)
		}
		if len(logs) != 1 {
			r.Violate("log-count", fmt.Sprintf("an uncaught error was logged %d times", len(logs)), d)
		} else if !wrapsOriginal(logs[0], e) {
			r.Violate("log-what", "what was logged does not wrap the original error", d)
		}
	case 2: // a success, a 404 or a failing response
		if rng.Intn(3) == 0 {
			build(http.Header{})
			req = newRequest(pick(rng, []string{"GET", "POST", "WEIRD"}), pick(rng, []string{"/none", "/plain/x", "/", "/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u"}), nil)
			if req.Method == "POST" && rng.Intn(2) == 0 {
				req.URL.Path = "/plain"
			}
			kind = "404"
			pan, _ := core.Guard(func() { m.ServeHTTP(w, withCtx(req)) })
			logs := l.take()
			r.Case(key, false)
			r.Count("silent", 1)
			if pan != nil || len(fw.codes) != 1 || fw.codes[0] != 404 || len(logs) != 0 {
				r.Violate("404", "an unmatched request was not answered with a silent 404", det(map[string]any{"logs": len(logs), "panic": fmt.Sprint(pan)}))
			}
			return
		}
		build(http.Header{})
		rs := genGood(rng)
		kind = rs.kind
		set(func() (response.HttpResponse, error) { return rs.build(), nil })
		pan, _ := core.Guard(func() { m.ServeHTTP(w, withCtx(req)) })
		logs := l.take()
		r.Case(key, false)
		r.Count("silent", 1)
		if pan != nil || len(logs) != 0 || len(fw.codes) == 0 || fw.codes[0] != rs.code {
			r.Violate("success", "a successful request was logged, or not answered", det(map[string]any{"logs": fmt.Sprint(logs), "panic": fmt.Sprint(pan)}))
		}
	default: // faults
		body := randBytes(rng, 1+rng.Intn(40000))
		limit = rng.Intn(len(body) + len(body)/4 + 1)
		if rng.Intn(4) == 0 {
			limit = rng.Intn(12)
		}
		build(http.Header{})
		own := fault("own")
		want := injected
		always := false
		zero := 0
		mk := map[string]func() response.HttpResponse{
			"text": func() response.HttpResponse {
				return response.PlainTextResponseWithHeadersAndCookies(200, string(body), hdrs(), ck())
			},
			"html": func() response.HttpResponse { return response.HtmlHttpResponseOK(string(body)) },
			"json": func() response.HttpResponse { return response.JsonHttpResponseOK(fmt.Sprintf("%x", body)) },
			"raw": func() response.HttpResponse {
				return response.RawWriterHttpResponse("application/octet-stream", func(w io.Writer) error {
					for b := body; len(b) > 0; {
						n := 1 + rng.Intn(5000)
						if n > len(b) {
							n = len(b)
						}
						if _, err := w.Write(b[:n]); err != nil {
							return err
						}
						b = b[n:]
					}
					return nil
				})
			},
			"stream":   func() response.HttpResponse { return response.StreamHttpResponse("x/y", bytes.NewReader(body)) },
			"template": func() response.HttpResponse { return response.TemplateHttpResponseOK(leakTpl, "ok", string(body)) },
			"raw-own": func() response.HttpResponse {
				want, always = own, true
				return response.RawWriterHttpResponse("x/y", func(w io.Writer) error { return own })
			},
			"reader-own": func() response.HttpResponse {
				want, always = own, true
				fw.left = 1 << 30
				return response.StreamHttpResponse("x/y", &failReader{body, own})
			},
			"template-own": func() response.HttpResponse {
				want, always = errTemplate, true
				fw.left = 1 << 30
				return response.TemplateHttpResponseOK(leakTpl, "bad", nil)
			},
			"template-missing": func() response.HttpResponse {
				want, always = nil, true
				fw.left = 1 << 30
				return response.TemplateHttpResponseOK(leakTpl, "missing", nil)
			},
			"json-own": func() response.HttpResponse {
				want, always = nil, true
				return response.JsonHttpResponseOK(make(chan int))
			},
			"bad-status": func() response.HttpResponse {
				want, always = nil, true
				return response.PlainTextHttpResponse(pickInt(rng, -1, 1, 99, 1000, 70000), "x")
			},
			"sse": func() response.HttpResponse {
				want, always = response.ErrNotHttp2Request, true
				return response.SSEHttpResponse(func(ctx context.Context, id string) <-chan response.ServerSentEvent {
					zero++
					c := make(chan response.ServerSentEvent)
					close(c)
					return c
				})
			},
		}
		kind = pick(rng, []string{"text", "html", "json", "raw", "stream", "template", "text", "html", "json", "raw", "stream", "template", "raw-own", "reader-own", "template-own", "template-missing", "json-own", "bad-status", "sse"})
		set(func() (response.HttpResponse, error) { return mk[kind](), nil })
		pan, st := core.Guard(func() { m.ServeHTTP(w, withCtx(req)) })
		logs := l.take()
		d := det(map[string]any{"limit": limit, "logs": fmt.Sprint(clip(fmt.Sprint(logs))), "writer_failed": fw.failed, "panic": fmt.Sprint(pan), "stack": st, "accept_encoding": req.Header.Get("Accept-Encoding")})
		provoked := always || fw.failed > 0
		r.Case(key, provoked)
		if pan != nil {
			r.Violate("fault-panic", fmt.Sprintf("a write fault made the router panic: %v", pan), d)
			return
		}
		if provoked {
			r.Count("write_faults", 1)
			r.Count("fault_"+kind, 1)
			if fw.h.Get("Content-Encoding") != "" {
				r.Count("fault_compressed", 1)
			}
			if len(logs) != 1 {
				r.Violate(fmt.Sprintf("fault-log:%s:%d", kind, len(logs)), fmt.Sprintf("a response (%s) that could not be written was logged %d times", kind, len(logs)), d)
			} else if want != nil && !always && !wrapsOriginal(logs[0], want) && !strings.Contains(errText(logs[0]), want.Error()) {
				r.Violate("fault-what", "what was logged is not the failure to write", d)
			} else if want != nil && always && !wrapsOriginal(logs[0], want) && !strings.Contains(errText(logs[0]), want.Error()) && fw.failed == 0 {
				r.Violate("fault-what", "what was logged is not the failure of the response", d)
			}
			if len(fw.codes) != 1 {
				r.Violate("fault-status", "a response that could not be written sent several statuses or none", d)
			}
			if (kind == "json-own" || kind == "bad-status" || kind == "sse") && len(fw.codes) == 1 && fw.codes[0] != 500 {
				r.Violate("fault-500", "a response that could not be made was not answered with 500", d)
			}
		} else {
			r.Count("silent", 1)
			if len(logs) != 0 {
				r.Violate("silent", "a response written without a fault was logged", d)
			}
		}
		r.Sample(map[string]any{"kind": kind, "limit": limit, "failed": provoked})
	}
}

// good is a response that can be written, with its status.
type good struct {
	kind  string
	code  int
	build func() response.HttpResponse
}

func genGood(rng *rand.Rand) good {
	body := genText(rng, 300)
	code := pickInt(rng, 200, 201, 301, 400, 404, 500, 599)
	switch rng.Intn(10) {
	case 0:
		return good{"text", code, func() response.HttpResponse { return response.PlainTextHttpResponse(code, body) }}
	case 1:
		return good{"json", code, func() response.HttpResponse { return response.JsonHttpResponse(code, body) }}
	case 2:
		return good{"raw", 200, func() response.HttpResponse {
			return response.RawWriterHttpResponse("x/y", func(w io.Writer) error { _, err := io.WriteString(w, body); return err })
		}}
	case 3:
		return good{"stream", 200, func() response.HttpResponse { return response.StreamHttpResponse("x/y", strings.NewReader(body)) }}
	case 4:
		return good{"template", 200, func() response.HttpResponse { return response.TemplateHttpResponseOK(leakTpl, "ok", body) }}
	case 5:
		return good{"redirect", 302, func() response.HttpResponse { return response.RedirectHttpResponse("/x") }}
	case 6:
		return good{"headers", 204, func() response.HttpResponse { return &response.HttpHeadersResponse{HttpStatusCode: 204} }}
	case 7:
		return good{"adaptor", code, func() response.HttpResponse {
			return response.HandlerFuncAdaptor(func(w http.ResponseWriter, req *http.Request) { w.WriteHeader(code); io.WriteString(w, body) })
		}}
	case 8:
		return good{"error", 500, func() response.HttpResponse { return response.InternalServerErrorHttpResponse() }}
	}
	return good{"json error", code, func() response.HttpResponse { return response.JsonErrorHttpResponse(code, errors.New(body)) }}
}

// c14Concurrent: every provoked error is logged once, with many in flight, over
// real connections.
func c14Concurrent(r *core.Run) {
	m, l := newMux(false)
	m.HandleGet("/e/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		id := mc.PathVar("id")
		resp := response.PlainTextHttpResponseOK("secret " + id)
		resp.Headers().Set("X-Leak", id)
		resp.Cookies().Add(&http.Cookie{Name: "leak", Value: id})
		runtime.Gosched()
		return resp, fmt.Errorf("secret:%s:", id)
	}, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true}))
	m.HandleGet("/ok/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK(mc.PathVar("id")), nil
	})
	for _, proto := range []string{"h1", "h2"} {
		ts := startServer(m, proto)
		l.take()
		per := r.N(150, 1500)
		var wg sync.WaitGroup
		var mu sync.Mutex
		provoked := map[string]bool{}
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := r.Rand("c14c"+proto, g)
				for q := 0; q < per; q++ {
					id := fmt.Sprintf("g%dq%d", g, q)
					r.Begin("%s %s", proto, id)
					switch rng.Intn(3) {
					case 0:
						a := ts.get("/ok/" + id)
						if a.Err != nil || a.Code != 200 || string(a.Body) != id {
							r.Violate("http-ok", "a successful request got a wrong answer", map[string]any{"status": a.Code, "err": fmt.Sprint(a.Err)})
						}
						r.Count("silent", 1)
					case 1:
						if a := ts.get("/none/" + id); a.Err != nil || a.Code != 404 {
							r.Violate("http-404", "an unmatched request got a wrong answer", map[string]any{"status": a.Code, "err": fmt.Sprint(a.Err)})
						}
						r.Count("silent", 1)
					default:
						a := ts.get("/e/" + id)
						mu.Lock()
						provoked[id] = true
						mu.Unlock()
						hs := headerString(a.Header)
						if a.Err != nil || a.Code != 500 || len(a.Body) != 0 || strings.Contains(hs, "eak") || strings.Contains(hs, "secret") || strings.Contains(hs, "Set-Cookie") {
							r.Violate("http-500", "an uncaught error was not answered with a bare 500", map[string]any{"status": a.Code, "err": fmt.Sprint(a.Err), "headers": hs, "body": clip(string(a.Body))})
						}
						r.Count("uncaught", 1)
					}
					r.Case(proto+id, true)
				}
			}()
		}
		wg.Wait()
		ts.stop()
		counts := map[string]int{}
		for _, e := range l.take() {
			_, rest, ok := strings.Cut(e.Error(), "secret:")
			id, _, ok2 := strings.Cut(rest, ":")
			if !ok || !ok2 {
				r.Violate("http-log", "something else was logged: "+clip(e.Error()), nil)
				continue
			}
			counts[id]++
		}
		for id := range provoked {
			if counts[id] != 1 {
				r.Violate("http-log-count", fmt.Sprintf("an uncaught error was logged %d times", counts[id]), map[string]any{"id": id, "proto": proto})
			}
		}
		if len(counts) != len(provoked) {
			r.Violate("http-log-extra", "errors were logged for requests that did not fail", map[string]any{"logged": len(counts), "provoked": len(provoked)})
		}
	}
}

var _ = utf8.ValidString
