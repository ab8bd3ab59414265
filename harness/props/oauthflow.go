package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C24", true, runC24) }

// stubIdP is a provider whose behaviour is written in the code it is given:
// "<id>", "<id>!token" (no token), "<id>!user" (no user details).
type stubIdP struct {
	name string
	mu   sync.Mutex
	init map[string]initCall // by state
	gets map[string]string   // code -> redirect URI
	user map[string]string   // token -> count
	errT error
	errU error
}

type initCall struct {
	redirect string
	userInfo bool
	n        int
}

func newStubIdP(name string) *stubIdP {
	return &stubIdP{name: name, init: map[string]initCall{}, gets: map[string]string{}, user: map[string]string{},
		errT: errors.New(name + ": no token"), errU: errors.New(name + ": no user")}
}

func (p *stubIdP) Name() string { return p.name }

func (p *stubIdP) InitiateUrl(redirectUri string, state string, userInfo bool) string {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := p.init[state]
	p.init[state] = initCall{redirectUri, userInfo, c.n + 1}
	return "https://" + p.name + ".test/authorize?" + url.Values{"r": {redirectUri}, "s": {state}, "x": {`a "b" <c> é&=+%`}}.Encode()
}

func (p *stubIdP) tokenOf(code string) oauth.AccessToken {
	return oauth.AccessToken{AccessToken: "T:" + p.name + ":" + code, TokenType: "Bearer", Scopes: []string{"a", code}, RefreshToken: "R" + code, ExpiresInSeconds: len(code)}
}

func (p *stubIdP) userOf(code string) auth.User {
	return auth.User{Id: "U:" + p.name + ":" + code, Name: "name " + code, IdentityPlatform: p.name}
}

func (p *stubIdP) FetchAccessToken(ctx context.Context, redirectUri string, code string) (oauth.AccessToken, error) {
	p.mu.Lock()
	p.gets[code] = redirectUri
	p.mu.Unlock()
	if strings.Contains(code, "!token") {
		t := oauth.AccessToken{}
		if strings.Contains(code, "!token+") {
			t = p.tokenOf(code) // an answer beside the error must not be used
		}
		return t, p.errT
	}
	return p.tokenOf(code), nil
}

func (p *stubIdP) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	code := strings.TrimPrefix(t.AccessToken, "T:"+p.name+":")
	p.mu.Lock()
	p.user[t.AccessToken] = code
	p.mu.Unlock()
	if strings.Contains(code, "!user") {
		u := auth.User{}
		if strings.Contains(code, "!user+") {
			u = p.userOf(code)
		}
		return u, p.errU
	}
	return p.userOf(code), nil
}

func (p *stubIdP) started(state string) initCall {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.init[state]
}

func (p *stubIdP) exchanged(code string) (string, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	s, ok := p.gets[code]
	return s, ok
}

// oauthRun is what the application's handler saw.
type oauthRun struct {
	token oauth.AccessToken
	who   auth.SecurityPrincipal
	r     *http.Request
}

// oauthApp is an application with an OAuth login.
type oauthApp struct {
	m        *gofre.MuxHandler
	log      *errLog
	provs    []*stubIdP
	cfg      oauth.Config
	lc       *logCache
	initPath string // full paths
	authBase string

	mu    sync.Mutex
	runs  map[string][]oauthRun // by X-Id of the request
	errs  map[string]error      // what left the login handlers
	mws   map[string]string
	hErr  error
	hResp response.HttpResponse
}

type outer struct{ auth.User }

var outsider = &outer{auth.User{Id: "outsider"}}

func genOauthApp(rng *rand.Rand, m *meet, cch string) *oauthApp {
	a := &oauthApp{runs: map[string][]oauthRun{}, errs: map[string]error{}, mws: map[string]string{}, hResp: response.PlainTextHttpResponseOK("welcome")}
	names := []string{"github", "google", "acme", "p-1", "GitHub", "x_y.z", "a"}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	n := pickInt(rng, 1, 1, 2, 2, 3, 4)
	for _, nm := range names[:n] {
		p := newStubIdP(nm)
		a.provs = append(a.provs, p)
		a.cfg.Providers = append(a.cfg.Providers, p)
	}
	a.cfg.WebsiteUrl = pick(rng, []string{"https://www.site.test", "http://localhost:8080", "https://a.b"})
	a.cfg.FetchUserDetails = rng.Intn(2) == 0
	a.cfg.KeyExpirationTime = pickDur(rng, time.Hour, 24*time.Hour, 90*time.Minute)
	switch cch {
	case "log":
		a.lc = newLogCache(m)
		a.cfg.Cache = a.lc
	case "mem":
		a.cfg.Cache = cache.NewInMemory()
	}
	mux, l := newMux(rng.Intn(2) == 0)
	a.log = l
	mux.CommonMiddlewares(middleware.ErrJsonResponse(), func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return h(context.WithValue(ctx, auth.SecurityPrincipalCtxKey, outsider), mc)
		}
	})
	prefix := ""
	for _, p := range [][]string{{}, {}, {"/app"}, {"/v1/x/"}, {"/a", "b"}, {"/é"}}[rng.Intn(6)] {
		if strings.HasSuffix(prefix, "/") || strings.HasPrefix(p, "/") {
			prefix += p
		} else {
			prefix += "/" + p
		}
		mux = mux.RouteUsingPathPrefix(p)
	}
	if rng.Intn(3) == 0 {
		mux = mux.Clone()
	}
	join := func(p string) string {
		if prefix == "" {
			return p
		}
		if strings.HasSuffix(prefix, "/") {
			return prefix + strings.TrimPrefix(p, "/")
		}
		return prefix + "/" + strings.TrimPrefix(p, "/")
	}
	note := func(what string) middleware.Middleware {
		return func(h handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				resp, err := h(ctx, mc)
				id := mc.R.Header.Get("X-Id")
				a.mu.Lock()
				a.mws[id] += what
				a.errs[id] = err
				a.mu.Unlock()
				return resp, err
			}
		}
	}
	app := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		id := mc.R.Header.Get("X-Id")
		a.mu.Lock()
		defer a.mu.Unlock()
		a.runs[id] = append(a.runs[id], oauthRun{oauth.GetAccessTokenFromContext(ctx), auth.GetSecurityPrincipalFromContext(ctx), mc.R})
		if a.hErr != nil {
			return nil, a.hErr
		}
		return a.hResp, nil
	}
	im, am := []middleware.Middleware{note("I")}, []middleware.Middleware{note("A")}
	if rng.Intn(2) == 0 {
		a.initPath, a.authBase = join("/oauth/initiate"), join("/oauth/authorize")
		mux.HandleOAUTH2(a.cfg, app, im, am)
	} else {
		ip := pick(rng, []string{"/login", "/x/y", "start/here"})
		ab := pick(rng, []string{"/back", "/login/done", "cb"})
		if prefix == "" {
			ip, ab = "/"+strings.TrimPrefix(ip, "/"), "/"+strings.TrimPrefix(ab, "/")
		}
		a.initPath, a.authBase = join(ip), join(ab)
		mux.HandleOAUTH2WithCustomPaths(ip, ab, a.cfg, app, im, am)
	}
	a.m = mux
	return a
}

// respelled gives another spelling of a path: empty segments and detours.
func respelled(rng *rand.Rand, p string) string {
	var sb strings.Builder
	for i, c := range p {
		sb.WriteRune(c)
		if c == '/' && i > 0 {
			sb.WriteString(pick(rng, []string{"", "/", "//", "x/../", "é/..//"}))
		}
	}
	return sb.String() + pick(rng, []string{"", "/", "//", "/x/.."})
}

func escPath(p string) string { return (&url.URL{Path: p}).EscapedPath() }

// result of one request
type oauthAns struct {
	code int
	loc  string
	runs []oauthRun
	err  error
	mws  string
	body string
}

func (a *oauthApp) ask(id, target string, mod func(*http.Request)) oauthAns {
	q := newRequest("GET", target, nil)
	q.Header.Set("X-Id", id)
	if mod != nil {
		mod(q)
	}
	w := recorded(a.m, q)
	a.mu.Lock()
	defer a.mu.Unlock()
	return oauthAns{w.Code, w.Header().Get("Location"), a.runs[id], a.errs[id], a.mws[id], w.Body.String()}
}

func (x oauthAns) detail() map[string]any {
	return map[string]any{"status": x.code, "location": x.loc, "handler_runs": len(x.runs), "error": errText(x.err), "body": clip(x.body)}
}

func (a *oauthApp) config() map[string]any {
	var names []string
	for _, p := range a.provs {
		names = append(names, p.name)
	}
	return map[string]any{"providers": names, "user_details": a.cfg.FetchUserDetails, "cache": fmt.Sprintf("%T", a.cfg.Cache), "initiate": a.initPath, "authorize": a.authBase}
}

// start begins a login and gives the state and where to come back.
func (a *oauthApp) start(r *core.Run, rng *rand.Rand, id string, p *stubIdP) (state string, ok bool) {
	target := escPath(a.initPath)
	if len(a.provs) > 1 || rng.Intn(3) == 0 {
		target += "?provider=" + url.QueryEscape(p.name)
	}
	x := a.ask(id, target, nil)
	det := map[string]any{"app": a.config(), "answer": x.detail(), "target": target}
	u, err := url.Parse(x.loc)
	if x.code/100 != 3 || err != nil || x.loc == "" {
		r.Violate("no-redirect", "starting a login does not redirect", det)
		return "", false
	}
	state = u.Query().Get("s")
	if u.Host != p.name+".test" {
		r.Violate("provider", "a login is started with another provider than the one requested", det)
		return "", false
	}
	c := p.started(state)
	if state == "" || c.n != 1 {
		r.Violate("state", "the state of a login is missing or was not given to the provider once", det)
		return "", false
	}
	if want := "https://" + p.name + ".test/authorize?" + u.RawQuery; x.loc != want || u.Query().Get("x") != `a "b" <c> é&=+%` {
		r.Violate("location", "the redirect does not lead to the address the provider gave", det)
	}
	if want := a.cfg.WebsiteUrl + a.authBase + "/" + p.name; c.redirect != want {
		r.Violate("redirect-uri", fmt.Sprintf("the redirect address is %q instead of %q", c.redirect, want), det)
	}
	if c.userInfo != a.cfg.FetchUserDetails {
		r.Violate("user-info", "the provider is not told correctly whether user details are wanted", det)
	}
	if x.mws != "I" {
		r.Violate("middlewares", fmt.Sprintf("the middlewares of a login start are %q", x.mws), det)
	}
	if len(x.runs) != 0 {
		r.Violate("ran-at-start", "the application handler runs when a login starts", det)
	}
	if a.lc != nil {
		if l := a.lc.lifetimes(state); len(l) != 1 || l[0] != a.cfg.KeyExpirationTime {
			r.Violate("registered", fmt.Sprintf("the state of a login was registered with the lifetimes %v", l), det)
		}
	} else if a.cfg.Cache != nil && !a.cfg.Cache.Contains(state) {
		r.Violate("registered", "the state of a login is not in the cache", det)
	}
	r.Count("started", 1)
	return state, true
}

// judgeRun checks what the application handler saw at the end of a login.
func (a *oauthApp) judgeRun(r *core.Run, p *stubIdP, code string, x oauthAns, det map[string]any) {
	if len(x.runs) != 1 {
		r.Violate("not-run", fmt.Sprintf("the application handler of a complete login ran %d times", len(x.runs)), det)
		return
	}
	run := x.runs[0]
	if fmt.Sprint(run.token) != fmt.Sprint(p.tokenOf(code)) {
		r.Violate("token", fmt.Sprintf("the handler sees the token %v instead of %v", run.token, p.tokenOf(code)), det)
	}
	if a.cfg.FetchUserDetails {
		if run.who == nil || run.who.Identity() != p.userOf(code).Id {
			r.Violate("user", fmt.Sprintf("the handler sees the user %v instead of %v", run.who, p.userOf(code)), det)
		} else if u, ok := run.who.(*auth.User); ok && (u.Name != p.userOf(code).Name || u.IdentityPlatform != p.name) {
			r.Violate("user", fmt.Sprintf("the handler sees the user %+v instead of %+v", *u, p.userOf(code)), det)
		}
	} else if run.who != outsider {
		r.Violate("user", fmt.Sprintf("the principal of the request is replaced by %v", run.who), det)
	}
	if redir, ok := p.exchanged(code); !ok || redir != a.cfg.WebsiteUrl+a.authBase+"/"+p.name {
		r.Violate("exchange", fmt.Sprintf("the code was exchanged with the redirect address %q", redir), det)
	}
}

func runC24(r *core.Run) {
	r.Rule("applications with generated configurations (1 to 4 providers, prefixes, custom paths, clones, recording, in-memory, failing or no cache, with and without user details) go through histories of login starts and callbacks that a model predicts: valid, forged, misplaced, used, expired and foreign states, unknown providers, error parameters, failing providers. " +
		"Then states are replayed by several callbacks at once (with a cache that waits between its operations), many logins run at once, and whole logins run over real connections with the real providers in front of stub endpoints. States are checked for gross predictability. Built with the race detector. " +
		"A case is one request")
	r.Require("started", 5000)
	r.Require("completed", 1000)
	r.Require("refused", 3000)
	r.Require("replays", 2000)
	r.Require("provider_failures", 300)
	r.Require("add_failures", 50)
	r.Require("respelled", 300)
	r.Require("real_logins", 100)
	r.Require("concurrent_logins", 300)
	c24Serial(r)
	c24Replay(r)
	c24Many(r)
	c24Random(r)
	c24Real(r)
}

func c24Serial(r *core.Run) {
	parallel(r, "histories", r.N(900, 12000), func(i int) {
		rng := r.Rand("c24s", i)
		a := genOauthApp(rng, nil, pick(rng, []string{"log", "log", "mem", "none"}))
		type st struct {
			s    string
			live bool
			done bool // its fate is open: not used any more
		}
		var states []*st
		seen := map[string]bool{}
		for step := 0; step < 20; step++ {
			id := fmt.Sprint(i, ".", step)
			p := a.provs[rng.Intn(len(a.provs))]
			if len(states) == 0 || rng.Intn(4) == 0 {
				switch k := rng.Intn(8); {
				case k == 0 && a.lc != nil:
					a.lc.fail(errBoom)
					x := a.ask(id, escPath(a.initPath)+"?provider="+p.name, nil)
					a.lc.fail(nil)
					r.Count("add_failures", 1)
					r.Case(id, true)
					if x.code < 400 || x.loc != "" || x.err == nil {
						r.Violate("add-failure", "a login starts although its state could not be registered", map[string]any{"app": a.config(), "answer": x.detail()})
					}
				case k == 1 && len(a.provs) > 1:
					bad := pick(rng, []string{"", "?provider=", "?provider=unknown", "?provider=" + strings.ToUpper(p.name) + "X", "?Provider=" + p.name, "?provider=" + p.name + "%20"})
					n := 0
					if a.lc != nil {
						n = a.lc.adds()
					}
					x := a.ask(id, escPath(a.initPath)+bad, nil)
					r.Case(id, true)
					r.Count("refused", 1)
					if x.code/100 != 4 || x.loc != "" || x.err == nil {
						r.Violate("unknown-start", "a login starts without a known provider", map[string]any{"app": a.config(), "answer": x.detail(), "query": bad})
					}
					if a.lc != nil && a.lc.adds() != n {
						r.Violate("unknown-add", "a state is registered for a login that does not start", nil)
					}
				default:
					s, ok := a.start(r, rng, id, p)
					r.Case(id, true)
					if !ok {
						return
					}
					if seen[s] {
						r.Violate("same-state", "a state is given out twice", map[string]any{"state": s})
					}
					seen[s] = true
					states = append(states, &st{s: s, live: true})
				}
				continue
			}
			// a callback
			cur := states[rng.Intn(len(states))]
			if rng.Intn(2) == 0 {
				cur = states[len(states)-1]
			}
			code := fmt.Sprintf("code-%s-%d", id, rng.Intn(1000))
			switch rng.Intn(6) { // the code is the provider's: any text
			case 0:
				code = pick(rng, []string{" ", "\t", "\n", "+", "%20", "%", "\u00a0", "=", "\"", "A"}) + code
			case 1:
				code += pick(rng, []string{" ", "\r\n", "+", "%2B", "&x=y", ";", "#f", "/", "==", "\x00", "\u2028", "A"})
			case 2:
				code = strings.ToUpper(code) + strings.Repeat("Zz9-_~.", rng.Intn(300))
			}
			provName, state := p.name, cur.s
			kind := "issued"
			valid := cur.live
			v := url.Values{}
			var mod func(*http.Request)
			switch k := rng.Intn(20); {
			case k < 8:
			case k < 10:
				kind, state, valid = "forged", forged(rng, cur.s), false
			case k < 12:
				kind, valid = "misplaced", false
				how := rng.Intn(4)
				mod = func(q *http.Request) {
					switch how {
					case 0:
						q.Header.Set("state", cur.s)
					case 1:
						q.AddCookie(&http.Cookie{Name: "state", Value: cur.s})
					case 2:
						q.Header.Set("Referer", "http://x/?state="+cur.s)
					}
				}
				if how == 3 {
					v.Set("State", cur.s)
				}
				state = pick(rng, []string{"", "x"})
			case k < 14:
				kind = "unknown provider"
				provName = pick(rng, []string{"unknown", p.name + "x", "x" + p.name, p.name[:len(p.name)-1] + "_"})
				for _, o := range a.provs {
					if o.name == provName {
						kind, p = "issued", o
					}
				}
			case k < 16:
				kind = "error param"
				v.Set("error", pick(rng, []string{"access_denied", "x", "0", " "}))
			case k < 17 && a.lc != nil:
				kind = "expired"
				a.lc.expire(cur.s)
				cur.live, valid = false, false
			case k < 18:
				kind = "foreign"
				valid = false
				// the state of another application
				b := genOauthApp(rng, nil, "mem")
				s, ok := b.start(r, rng, "f", b.provs[0])
				if !ok {
					return
				}
				state = s
			}
			if cur.done && state == cur.s {
				continue
			}
			noCache := a.cfg.Cache == nil
			bad := ""
			if rng.Intn(4) == 0 {
				bad = pick(rng, []string{"!token", "!token+", "!user", "!user+"})
			}
			code += bad
			if state != "" || rng.Intn(2) == 0 {
				v.Set("state", state)
			}
			v.Set("code", code)
			a.hErr = nil
			if rng.Intn(8) == 0 {
				a.hErr = pickErrNow(rng)
			}
			back := escPath(a.authBase + "/" + provName)
			if rng.Intn(4) == 0 { // the same path in another spelling
				back = respelled(rng, back)
				r.Count("respelled", 1)
			}
			x := a.ask(id, back+"?"+v.Encode(), mod)
			det := map[string]any{"app": a.config(), "answer": x.detail(), "kind": kind, "provider": provName, "query": v.Encode(), "state_live": cur.live}
			r.Case(id+kind, true)
			r.Seen("kinds", kind+bad)
			ok := kind != "unknown provider" && kind != "error param" && (noCache || valid)
			if x.mws != "" && x.mws != "A" {
				r.Violate("middlewares", fmt.Sprintf("the middlewares of a callback are %q", x.mws), det)
			}
			if state == cur.s {
				switch kind {
				case "unknown provider", "error param":
					cur.done = true // nobody says whether the state survives
				case "issued":
					cur.live = false
				}
			}
			if !ok {
				r.Count("refused", 1)
				if len(x.runs) != 0 {
					r.Violate("accepted:"+kind, "the application handler runs for a login that must be refused", det)
				}
				if x.err == nil || x.code/100 != 4 {
					r.Violate("no-error:"+kind, fmt.Sprintf("a login that must be refused results in the status %d", x.code), det)
				}
				if _, ex := p.exchanged(code); ex && kind != "error param" {
					r.Violate("exchanged:"+kind, "the code of a login that must be refused is exchanged for a token", det)
				}
				continue
			}
			if strings.HasPrefix(bad, "!token") || strings.HasPrefix(bad, "!user") && a.cfg.FetchUserDetails {
				r.Count("provider_failures", 1)
				want := p.errT
				if strings.HasPrefix(bad, "!user") {
					want = p.errU
				}
				if len(x.runs) != 0 {
					r.Violate("accepted:provider-failure", "the application handler runs although the provider refused", det)
				}
				if !errors.Is(x.err, want) || x.code < 400 {
					r.Violate("provider-error", "the error of the provider is lost", det)
				}
				continue
			}
			a.judgeRun(r, p, code, x, det)
			r.Count("completed", 1)
			if !sameErr(x.err, a.hErr) || a.hErr == nil && (x.code != 200 || x.body != "welcome") {
				r.Violate("result", "the result of the application handler does not pass unchanged", det)
			}
		}
		a.log.take()
	})
	// no cache lifetime left
	for _, d := range []time.Duration{0, -1, -time.Hour} {
		for k := 0; k < 20; k++ {
			rng := r.Rand("c24e", k)
			a := genOauthApp(rng, nil, "mem")
			mux, _ := newMux(false)
			mux.CommonMiddlewares(middleware.ErrJsonResponse())
			cfg := a.cfg
			cfg.KeyExpirationTime = d
			ran := 0
			mux.HandleOAUTH2(cfg, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				ran++
				return response.PlainTextHttpResponseOK(""), nil
			}, nil, nil)
			w := recorded(mux, newRequest("GET", "/oauth/initiate?provider="+a.provs[0].name, nil))
			u, _ := url.Parse(w.Header().Get("Location"))
			w = recorded(mux, newRequest("GET", "/oauth/authorize/"+a.provs[0].name+"?code=x&state="+u.Query().Get("s"), nil))
			r.Count("refused", 1)
			if ran != 0 || w.Code/100 != 4 {
				r.Violate("expired", fmt.Sprintf("a state with the lifetime %v is accepted", d), map[string]any{"status": w.Code})
			}
		}
	}
}

func pickErrNow(rng *rand.Rand) error { return pickErr(rng, "own error") }

// c24Replay presents each state many times at once.
func c24Replay(r *core.Run) {
	for i, n := 0, r.N(700, 8000); i < n && !r.TooMany(); i++ {
		r.Begin("replay %d", i)
		rng := r.Rand("c24r", i)
		bar := newMeet()
		a := genOauthApp(rng, bar, pick(rng, []string{"log", "log", "mem"}))
		type job struct {
			state string
			p     *stubIdP
			id    string
			code  string
		}
		var jobs []job
		per := 2 + rng.Intn(4)
		fail := rng.Intn(5) == 0
		nStates := 1 + rng.Intn(3)
		for k := 0; k < nStates; k++ {
			p := a.provs[rng.Intn(len(a.provs))]
			s, ok := a.start(r, rng, fmt.Sprint(i, ".", k), p)
			if !ok {
				return
			}
			for j := 0; j < per; j++ {
				q := p
				if rng.Intn(3) == 0 {
					q = a.provs[rng.Intn(len(a.provs))]
				}
				code := fmt.Sprintf("c%d.%d.%d", i, k, j)
				if fail && j%2 == 0 {
					code += "!token"
				}
				jobs = append(jobs, job{s, q, fmt.Sprint(i, ".", k, ".", j), code})
			}
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		ok := map[string]*atomic.Int64{}
		failed := map[string]*atomic.Int64{}
		for _, j := range jobs {
			if ok[j.state] == nil {
				ok[j.state] = new(atomic.Int64)
				failed[j.state] = new(atomic.Int64)
			}
		}
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				x := a.ask(j.id, escPath(a.authBase+"/"+j.p.name)+"?"+url.Values{"state": {j.state}, "code": {j.code}}.Encode(), nil)
				det := map[string]any{"app": a.config(), "answer": x.detail()}
				if len(x.runs) > 0 {
					a.judgeRun(r, j.p, j.code, x, det)
					ok[j.state].Add(1)
					if x.code != 200 {
						r.Violate("result", "the result of the application handler does not pass unchanged", det)
					}
					return
				}
				if x.code < 400 || x.err == nil {
					r.Violate("no-error:replay", fmt.Sprintf("a refused login results in the status %d", x.code), det)
				}
				if errors.Is(x.err, j.p.errT) {
					failed[j.state].Add(1)
				}
			}()
		}
		close(gate)
		wg.Wait()
		for s := range ok {
			r.Count("replays", int64(per))
			r.Case(s, true)
			if n := ok[s].Load() + failed[s].Load(); n > 1 {
				r.Violate("replayed", fmt.Sprintf("a state presented by %d callbacks at once was accepted %d times", per, n), map[string]any{"app": a.config()})
			} else if n == 0 {
				r.Violate("none", fmt.Sprintf("a valid state presented by %d callbacks at once was not accepted at all", per), map[string]any{"app": a.config()})
			} else {
				r.Count("completed", 1)
				r.Count("refused", int64(per)-1)
			}
			if a.cfg.Cache.Contains(s) {
				r.Violate("kept", "a state is still valid after its use", map[string]any{"app": a.config()})
			}
		}
	}
}

// c24Many runs different logins at once.
func c24Many(r *core.Run) {
	for i, n := 0, r.N(30, 300); i < n && !r.TooMany(); i++ {
		r.Begin("many %d", i)
		rng := r.Rand("c24m", i)
		a := genOauthApp(rng, newMeet(), pick(rng, []string{"log", "mem", "none"}))
		burst(8, 24, func(k int) {
			rng := r.Rand(fmt.Sprint("c24m", i), k)
			p := a.provs[rng.Intn(len(a.provs))]
			id := fmt.Sprint(i, ".", k)
			s, ok := a.start(r, rng, id, p)
			if !ok {
				return
			}
			code := "many" + id
			x := a.ask(id+"b", escPath(a.authBase+"/"+p.name)+"?"+url.Values{"state": {s}, "code": {code}}.Encode(), nil)
			a.judgeRun(r, p, code, x, map[string]any{"app": a.config(), "answer": x.detail()})
			r.Case(code, true)
			r.Count("concurrent_logins", 1)
			r.Count("completed", 1)
		})
	}
}

func c24Random(r *core.Run) {
	a := genOauthApp(r.Rand("c24g", 0), nil, "log")
	n := r.N(4000, 40000)
	for k := 0; k < n; k++ {
		a.ask("g", escPath(a.initPath)+"?provider="+a.provs[0].name, nil)
	}
	vals := a.lc.order
	if len(vals) != n {
		r.Violate("states", fmt.Sprintf("%d login starts registered %d states", n, len(vals)), nil)
	}
	if why := guessable(vals, 60); why != "" {
		r.Violate("guessable", "the states are predictable: "+why, map[string]any{"first": vals[:min(5, len(vals))]})
	}
	if why := seedable(func(n int) []string {
		from := len(a.lc.order)
		for k := 0; k < n; k++ {
			a.ask("g", escPath(a.initPath)+"?provider="+a.provs[0].name, nil)
		}
		return a.lc.order[from:]
	}); why != "" {
		r.Violate("seedable", "the states are predictable: "+why, nil)
	}
	r.Count("started", int64(n))
}

// endpoints stands for the HTTP endpoints of the providers.
type endpoints func(*http.Request) (*http.Response, error)

func (f endpoints) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

func jsonAnswer(q *http.Request, code int, v any) *http.Response {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(string(b))), Request: q}
}

// c24Real runs whole logins with the real providers.
func c24Real(r *core.Run) {
	old := oauth.HttpClient.Transport
	defer func() { oauth.HttpClient.Transport = old }()
	oauth.HttpClient.Transport = endpoints(func(q *http.Request) (*http.Response, error) {
		switch u := q.URL.Scheme + "://" + q.URL.Host + q.URL.Path; u {
		case oauth.GitHubAccessTokenEndpoint, oauth.GoogleAccessTokenEndpoint:
			b, _ := io.ReadAll(q.Body)
			var code string
			if u == oauth.GitHubAccessTokenEndpoint {
				v, _ := url.ParseQuery(string(b))
				code = v.Get("code")
			} else {
				var m map[string]string
				json.Unmarshal(b, &m)
				code = m["code"]
			}
			if strings.Contains(code, "!token") {
				return jsonAnswer(q, 400, map[string]any{"error": "bad_code"}), nil
			}
			return jsonAnswer(q, 200, map[string]any{"access_token": "T-" + code, "token_type": "bearer", "scope": "s"}), nil
		case oauth.GitHubUserInfoEndpoint, oauth.GoogleUserInfoEndpoint:
			t := strings.TrimPrefix(q.Header.Get("Authorization"), "Bearer ")
			if strings.Contains(t, "!user") {
				return jsonAnswer(q, 500, map[string]any{}), nil
			}
			return jsonAnswer(q, 200, map[string]any{"email": t + "@x.test", "login": "l", "id": "i", "name": "n"}), nil
		}
		return nil, errors.New("unexpected " + q.URL.String())
	})
	for _, proto := range []string{"h1", "h2"} {
		for _, details := range []bool{true, false} {
			m, l := newMux(false)
			m.CommonMiddlewares(middleware.ErrJsonResponse())
			var ran sync.Map
			m.HandleOAUTH2(oauth.Config{WebsiteUrl: "https://site.test", FetchUserDetails: details,
				Providers:   []oauth.Provider{oauth.GitHubProvider{ClientId: "gh", ClientSecret: "s"}, oauth.GoogleProvider{ClientId: "go", ClientSecret: "s", Scopes: []string{"x"}}},
				CacheConfig: oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}},
				func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					n, _ := ran.LoadOrStore(mc.R.URL.Query().Get("code"), new(atomic.Int64))
					n.(*atomic.Int64).Add(1)
					who := ""
					if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
						who = p.Identity()
					}
					return response.PlainTextHttpResponseOK(oauth.GetAccessTokenFromContext(ctx).AccessToken + "|" + who), nil
				}, nil, nil)
			ts := startServer(m, proto)
			parallel(r, "real "+proto, r.N(60, 600), func(i int) {
				rng := r.Rand(fmt.Sprint("c24real", proto, details), i)
				name := pick(rng, []string{"github", "google"})
				a := ts.get("/oauth/initiate?provider=" + name)
				u, err := url.Parse(a.Header.Get("Location"))
				if a.Code/100 != 3 || err != nil {
					r.Violate("real-start", fmt.Sprintf("a login start is answered with %d", a.Code), nil)
					return
				}
				ep := map[string]string{"github": oauth.GitHubAuthorizeEndpoint, "google": oauth.GoogleAuthorizeEndpoint}[name]
				if !strings.HasPrefix(u.String(), ep+"?") {
					r.Violate("real-endpoint", "a login start leads to "+u.String(), nil)
				}
				back, err := url.Parse(u.Query().Get("redirect_uri"))
				if err != nil || back.Host != "site.test" {
					r.Violate("real-redirect", "the redirect address is "+u.Query().Get("redirect_uri"), nil)
					return
				}
				code := fmt.Sprint(proto, details, i, pick(rng, []string{"", "", "", "!token", "!user"}))
				target := back.EscapedPath() + "?" + url.Values{"state": {u.Query().Get("state")}, "code": {code}}.Encode()
				times := 1 + rng.Intn(3)
				var ok, deny atomic.Int64
				burst(times, times, func(k int) {
					a := ts.get(target)
					want := "T-" + code + "|"
					if details {
						want += "T-" + code + "@x.test"
					}
					switch {
					case a.Err == nil && a.Code == 200 && string(a.Body) == want:
						ok.Add(1)
					case a.Err == nil && a.Code >= 400:
						deny.Add(1)
					default:
						r.Violate("real-answer", fmt.Sprintf("a callback is answered with %d %q %v", a.Code, clip(string(a.Body)), a.Err), nil)
					}
				})
				want := int64(1)
				if strings.Contains(code, "!token") || details && strings.Contains(code, "!user") {
					want = 0
				}
				n, _ := ran.LoadOrStore(code, new(atomic.Int64))
				if ok.Load() != want || n.(*atomic.Int64).Load() != want {
					r.Violate("real", fmt.Sprintf("%d callbacks at once with one state completed %d logins instead of %d", times, ok.Load(), want), map[string]any{"code": code})
				}
				r.Case(code, true)
				r.Count("real_logins", 1)
			})
			ts.stop()
			if e := l.take(); len(e) > 0 {
				r.Violate("logged", "login errors are not handled: "+e[0].Error(), nil)
			}
		}
	}
}
