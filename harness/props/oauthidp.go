package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"

	"verif/harness/core"
)

func init() { register("C25", true, runC25) }

// watchedBody is a response body that knows whether it was closed.
type watchedBody struct {
	data   []byte
	piece  int
	err    error // at the end, instead of EOF
	closed atomic.Int64
}

func (b *watchedBody) Read(p []byte) (int, error) {
	if b.closed.Load() > 0 {
		return 0, errors.New("read after close")
	}
	if len(b.data) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if b.piece > 0 && n > b.piece {
		n = b.piece
	}
	n = copy(p[:n], b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *watchedBody) Close() error { b.closed.Add(1); return nil }

// idpCase is one answer of a provider's endpoint.
type idpCase struct {
	key    string
	status int
	ctype  string
	body   []byte
	piece  int
	readEr error
	connEr error // no answer at all
	ctx    context.Context
	long   bool

	mu   sync.Mutex
	got  *http.Request
	sent []byte
	wb   *watchedBody
	n    int
}

func (c *idpCase) String() string {
	return fmt.Sprintf("%d %s %q piece=%d readErr=%v connErr=%v", c.status, c.ctype, clip(string(c.body)), c.piece, c.readEr, c.connEr)
}

// idpWorld answers for all the endpoints; a request finds its case by the
// code or the token it carries.
type idpWorld struct {
	cases sync.Map
	lost  atomic.Int64
}

func (w *idpWorld) RoundTrip(q *http.Request) (*http.Response, error) {
	var sent []byte
	if q.Body != nil {
		sent, _ = io.ReadAll(q.Body)
		q.Body.Close()
	}
	key := strings.TrimPrefix(q.Header.Get("Authorization"), "Bearer ")
	if key == "" {
		key = carried(sent)["code"]
	}
	v, ok := w.cases.Load(key)
	if !ok {
		w.lost.Add(1)
		return nil, errors.New("no case for " + key)
	}
	c := v.(*idpCase)
	if err := q.Context().Err(); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got, c.sent = q, sent
	c.n++
	if c.connEr != nil {
		return nil, c.connEr
	}
	c.wb = &watchedBody{data: c.body, piece: c.piece, err: c.readEr}
	return &http.Response{StatusCode: c.status, Status: fmt.Sprint(c.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {c.ctype}}, Body: c.wb, ContentLength: -1, Request: q}, nil
}

// carried reads the parameters of a request body, JSON or form.
func carried(b []byte) map[string]string {
	m := map[string]string{}
	if t := bytes.TrimSpace(b); len(t) > 0 && t[0] == '{' {
		var o map[string]any
		json.Unmarshal(b, &o)
		for k, v := range o {
			m[k] = fmt.Sprint(v)
		}
		return m
	}
	v, _ := url.ParseQuery(string(b))
	for k := range v {
		m[k] = v.Get(k)
	}
	return m
}

// verdict of the reference decoder: must, may or must not be accepted
type idpVerdict struct {
	must, may bool
	token     oauth.AccessToken
	loose     map[string]bool // fields whose value is open
	user      auth.User
}

// fields reads a JSON object; clear is false when the text is something the
// property does not speak about (trailing data, a key twice or in another
// case, ...).
func fields(b []byte) (m map[string]json.RawMessage, ok, clear bool) {
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&m); err != nil {
		return nil, false, true
	}
	if rest, _ := io.ReadAll(io.MultiReader(d.Buffered(), bytes.NewReader(nil))); len(bytes.TrimSpace(rest)) > 0 {
		return m, true, false
	}
	if !utf8.Valid(b) {
		return m, true, false
	}
	var o map[string]any // numbers out of range
	if json.Unmarshal(b, &o) != nil {
		return m, true, false
	}
	// keys twice, at the top level
	d = json.NewDecoder(bytes.NewReader(b))
	seen := map[string]bool{}
	if t, _ := d.Token(); t == json.Delim('{') {
		for d.More() {
			k, err := d.Token()
			if err != nil {
				break
			}
			s, _ := k.(string)
			if seen[strings.ToLower(s)] {
				return m, true, false
			}
			seen[strings.ToLower(s)] = true
			var skip json.RawMessage
			if d.Decode(&skip) != nil {
				break
			}
		}
	}
	return m, true, true
}

func strField(m map[string]json.RawMessage, k string) (s string, present, isStr bool) {
	raw, ok := m[k]
	if !ok {
		return "", false, false
	}
	if err := json.Unmarshal(raw, &s); err != nil || string(raw) == "null" {
		return "", string(raw) != "null", false
	}
	return s, true, true
}

func (c *idpCase) judge(prov string, token bool) idpVerdict {
	v := idpVerdict{loose: map[string]bool{}}
	if c.connEr != nil || c.status/100 != 2 || c.ctx != nil && c.ctx.Err() != nil {
		return v
	}
	m, ok, clear := fields(c.body)
	if !ok {
		return v
	}
	if c.readEr != nil {
		clear = false
	}
	for k := range m {
		for _, w := range []string{"access_token", "token_type", "scope", "refresh_token", "expires_in", "email", "login", "id", "name", "error"} {
			if k != w && strings.EqualFold(k, w) {
				clear = false
			}
		}
	}
	v.must, v.may = clear, true
	if token {
		s, _, isStr := strField(m, "access_token")
		if !isStr || s == "" {
			if clear {
				return idpVerdict{}
			}
			v.must = false
			v.loose["access_token"] = true
		}
		if _, e := m["error"]; e {
			v.must = false
		}
		v.token.AccessToken = s
		opt := func(k string, into *string) {
			s, present, isStr := strField(m, k)
			if present && !isStr {
				v.must, v.loose[k] = false, true
			}
			*into = s
		}
		opt("token_type", &v.token.TokenType)
		var scope string
		opt("scope", &scope)
		sep := ","
		if prov == "google" {
			sep = " "
			opt("refresh_token", &v.token.RefreshToken)
			if raw, ok := m["expires_in"]; ok && string(raw) != "null" {
				var n int32
				if err := json.Unmarshal(raw, &n); err != nil {
					v.must, v.loose["expires_in"] = false, true
				}
				v.token.ExpiresInSeconds = int(n)
			}
		}
		v.token.Scopes = strings.Split(scope, sep)
		if !clear {
			v.loose["token_type"], v.loose["scope"], v.loose["refresh_token"], v.loose["expires_in"] = true, true, true, true
		}
		return v
	}
	second := "login"
	if prov == "google" {
		second = "id"
	}
	a, ap, as := strField(m, "email")
	b, _, bs := strField(m, second)
	switch {
	case as && a != "":
		v.user.Id = a
		if _, p2, s2 := strField(m, second); p2 && !s2 {
			v.must = false
		}
	case bs && b != "":
		v.user.Id = b
		if ap && !as {
			v.must = false
		}
	default:
		if clear {
			return idpVerdict{}
		}
		v.must = false
		v.loose["id"] = true
	}
	n, np, ns := strField(m, "name")
	if np && !ns {
		v.must, v.loose["name"] = false, true
	}
	v.user.Name = n
	v.user.IdentityPlatform = prov
	if !clear {
		v.loose["id"], v.loose["name"] = true, true
	}
	return v
}

func sameScopes(want, got []string) bool {
	drop := func(l []string) []string {
		var o []string
		for _, s := range l {
			if s != "" {
				o = append(o, s)
			}
		}
		return o
	}
	return reflect.DeepEqual(drop(want), drop(got))
}

func genIdpString(rng *rand.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return genText(rng, 40)
	case 3:
		return "null"
	case 4:
		return strings.Repeat("x", 5000)
	}
	return fmt.Sprintf("v%d@x.test", rng.Intn(1e6))
}

func genIdpValue(rng *rand.Rand, depth int) any {
	switch rng.Intn(12) {
	case 0:
		return nil
	case 1:
		return rng.Intn(2) == 0
	case 2:
		return rng.Intn(100000)
	case 3:
		return rng.NormFloat64() * 1e20
	case 4:
		if depth > 0 {
			return []any{genIdpValue(rng, depth-1), genIdpValue(rng, depth-1)}
		}
		return []any{}
	case 5:
		if depth > 0 {
			return map[string]any{"message": genIdpValue(rng, depth-1), "x": genIdpValue(rng, depth-1)}
		}
		return map[string]any{}
	case 6:
		return json.RawMessage("1e400")
	case 7:
		return json.RawMessage("-0")
	}
	return genIdpString(rng)
}

func genIdpCase(rng *rand.Rand, key string, token bool) *idpCase {
	c := &idpCase{key: key, status: 200, ctype: "application/json"}
	if rng.Intn(4) == 0 {
		c.status = pickInt(rng, 200, 201, 202, 203, 299, 300, 302, 304, 307, 400, 401, 403, 404, 418, 422, 429, 500, 502, 503, 504, 599, 100+rng.Intn(900))
		if c.status < 200 {
			c.status = 200
		}
	}
	if rng.Intn(6) == 0 {
		c.ctype = pick(rng, []string{"", "text/html", "application/x-www-form-urlencoded", "application/json; charset=utf-8", "text/plain"})
	}
	if rng.Intn(4) == 0 {
		c.piece = 1 + rng.Intn(20)
	}
	var names []string
	if token {
		names = []string{"access_token", "token_type", "scope", "refresh_token", "expires_in", "error", "error_description", "id_token", "email"}
	} else {
		names = []string{"email", "login", "id", "name", "error", "access_token", "verified_email"}
	}
	o := map[string]any{}
	good := func(k string) any {
		switch k {
		case "expires_in":
			return pickInt(rng, 0, 1, 3599, 3600, 1<<31-1, -1)
		case "scope":
			if rng.Intn(2) == 0 {
				return pick(rng, []string{"a,b", "user", "repo,gist,user:email", "x y,z"})
			}
			return pick(rng, []string{"openid email", "a", "https://x/a https://x/b", "a b c"})
		case "id":
			return fmt.Sprint(rng.Int63())
		}
		return fmt.Sprintf("%s-%d-%s", k, rng.Intn(1e6), genText(rng, 12))
	}
	for k, n := range names {
		p := 3
		if k == 0 {
			p = 8
		}
		if n == "error" {
			p = 1
		}
		if rng.Intn(10) < p {
			o[n] = good(n)
			if rng.Intn(4) == 0 {
				o[n] = genIdpValue(rng, 2)
			}
		}
	}
	if token && rng.Intn(2) == 0 { // a plain success
		o = map[string]any{"access_token": good("access_token"), "token_type": pick(rng, []string{"bearer", "Bearer", "MAC"}), "scope": good("scope")}
		if rng.Intn(2) == 0 {
			o["refresh_token"], o["expires_in"] = good("refresh_token"), good("expires_in")
		}
	}
	if !token && rng.Intn(2) == 0 {
		o = map[string]any{"email": good("email"), "name": good("name")}
		if rng.Intn(3) == 0 {
			delete(o, "email")
			o["id"], o["login"] = good("id"), good("login")
		}
		if rng.Intn(3) == 0 {
			o["email"] = pick2any(rng, "", nil)
			o["id"], o["login"] = good("id"), good("login")
		}
	}
	if rng.Intn(12) == 0 { // a long answer
		pad := strings.Repeat("p", 1<<uint(10+rng.Intn(9)))
		o["a_bio"] = pad[:rng.Intn(len(pad))]
		if rng.Intn(4) == 0 {
			for k := rng.Intn(3000); k > 0; k-- {
				o[fmt.Sprint("a_field", k)] = k
			}
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	c.body = b
	c.long = len(b) > 1<<14
	switch rng.Intn(14) {
	case 0:
		c.body = [][]byte{nil, []byte("null"), []byte("[]"), []byte(`""`), []byte("0"), []byte("true"), []byte("{}"), []byte("{"), []byte(" "), []byte("<html>no</html>"),
			[]byte("access_token=abc&scope=user&token_type=bearer"), []byte("error=bad"), []byte("[" + string(b) + "]"), []byte("\xff\xfe"), []byte("{\"access_token\":\"a\",}"),
			[]byte(`"` + key + `"`), bytes.Repeat([]byte("["), 20000), bytes.Repeat([]byte(`{"a":`), 11000)}[rng.Intn(18)]
	case 1:
		c.body = b[:rng.Intn(len(b))]
	case 2:
		c.body = append(append([]byte("\n\t "), b...), "\n \n"...)
	case 3:
		c.body = append(b[:len(b):len(b)], pick(rng, []string{"x", "{}", "}", string(b), "null"})...)
	case 4:
		k := rng.Intn(len(b))
		c.body = append([]byte(nil), b...)
		c.body[k] = byte(rng.Intn(256))
	case 5:
		c.readEr = io.ErrUnexpectedEOF
		if rng.Intn(2) == 0 {
			c.body = b[:rng.Intn(len(b))]
			c.readEr = errBoom
		}
	case 6:
		if rng.Intn(2) == 0 {
			c.connEr = errBoom
		}
	}
	if rng.Intn(30) == 0 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		c.ctx = ctx
	}
	return c
}

func pick2any(rng *rand.Rand, a, b any) any {
	if rng.Intn(2) == 0 {
		return a
	}
	return b
}

// spare makes a slice with room behind it, filled with marks.
func spare(rng *rand.Rand, l []string) ([]string, func() bool) {
	full := make([]string, len(l)+rng.Intn(6))
	copy(full, l)
	for k := len(l); k < len(full); k++ {
		full[k] = "mark"
	}
	keep := append([]string{}, full...)
	return full[:len(l)], func() bool { return reflect.DeepEqual(full, keep) }
}

func runC25(r *core.Run) {
	r.Rule("the providers are asked for tokens and users while a stub transport answers with generated statuses, bodies (valid, missing, empty, null or wrongly typed fields, other JSON values, truncated, corrupted, not JSON, deep), broken reads and broken connections, in pieces; a reference decoder says whether the answer must, may or must not be accepted and with which values. " +
		"The requests sent are inspected, the bodies watched for being closed; the authorize addresses are parsed. Concurrent calls use the same provider. Built with the race detector. A case is one answer or one address")
	r.Require("must_accept", 2000)
	r.Require("must_refuse", 2000)
	r.Require("long_answers", 200)
	r.Require("open", 200)
	r.Require("bodies_closed", 5000)
	r.Require("addresses", 2000)
	r.Require("changed", 200)
	r.Require("silent_providers", 8)
	c25Silent(r)
	old := oauth.HttpClient.Transport
	defer func() { oauth.HttpClient.Transport = old }()
	w := &idpWorld{}
	oauth.HttpClient.Transport = w
	c25Answers(r, w)
	c25Defaults(r)
	for _, t := range []oauth.AccessToken{{}, {TokenType: "b"}, {Scopes: []string{"a"}, RefreshToken: "x", ExpiresInSeconds: 4}, {AccessToken: "x"}, {AccessToken: " "}, {AccessToken: "long token", TokenType: "x"}} {
		if t.IsEmpty() != (t.AccessToken == "") {
			r.Violate("is-empty", fmt.Sprintf("the token %+v is empty: %v", t, t.IsEmpty()), nil)
		}
		r.Case(fmt.Sprintf("empty %+v", t), true)
	}
	c25Addresses(r)
	c25Changed(r)
	if n := w.lost.Load(); n > 0 {
		r.Violate("lost", fmt.Sprintf("%d requests carry neither the code nor the token they were given", n), nil)
	}
}

func c25Answers(r *core.Run, w *idpWorld) {
	vars := func() string {
		return fmt.Sprint(oauth.GitHubAuthorizeEndpoint, oauth.GitHubAccessTokenEndpoint, oauth.GitHubUserInfoEndpoint, oauth.GitHubUserInfoProfileScopes,
			oauth.GoogleAuthorizeEndpoint, oauth.GoogleAccessTokenEndpoint, oauth.GoogleUserInfoEndpoint, oauth.GoogleUserInfoScopes)
	}
	before := vars()
	shared := map[string]oauth.Provider{
		"github": oauth.GitHubProvider{ClientId: "ghid", ClientSecret: "gh secret&=+%é", Scopes: []string{"a"}},
		"google": oauth.GoogleProvider{ClientId: "goid", ClientSecret: "go \"secret\"\\é", Scopes: []string{"b"}},
	}
	parallel(r, "answers", r.N(24000, 400000), func(i int) {
		rng := r.Rand("c25a", i)
		name := pick(rng, []string{"github", "google"})
		p := shared[name]
		id, secret := "ghid", "gh secret&=+%é"
		if name == "google" {
			id, secret = "goid", "go \"secret\"\\é"
		}
		token := rng.Intn(2) == 0
		key := fmt.Sprintf("K%d-%d", i, rng.Intn(1e9))
		if token && rng.Intn(4) == 0 {
			key += pick(rng, []string{" +&=", "%41", "/x?y", "é", "\"\\", "<>"})
		}
		c := genIdpCase(rng, key, token)
		w.cases.Store(key, c)
		defer w.cases.Delete(key)
		ctx := context.Background()
		if c.ctx != nil {
			ctx = c.ctx
		}
		v := c.judge(name, token)
		var t oauth.AccessToken
		var u auth.User
		var err error
		redirect := fmt.Sprintf("https://site.test/back/%d?x=a&b=%%20", i)
		det := func() any {
			return map[string]any{"provider": name, "answer": c.String(), "token": t, "user": u, "error": errText(err), "for_token": token}
		}
		if !r.Try(name, map[string]any{"answer": c.String(), "for_token": token}, func() {
			if token {
				t, err = p.FetchAccessToken(ctx, redirect, key)
			} else {
				u, err = p.FetchAuthenticatedUser(ctx, oauth.AccessToken{AccessToken: key, TokenType: "bearer", Scopes: []string{"x"}})
			}
		}) {
			return
		}
		r.Case(fmt.Sprint(name, token, c.status, string(c.body), c.readEr, c.connEr), true)
		switch {
		case !v.may:
			r.Count("must_refuse", 1)
			if err == nil {
				r.Violate("accepted:"+name, "an answer without a success and a token (identity) is accepted", det())
			}
		case v.must:
			r.Count("must_accept", 1)
			if c.long {
				r.Count("long_answers", 1)
			}
			if err != nil {
				r.Violate("refused:"+name, "a valid answer is refused", det())
			}
		default:
			r.Count("open", 1)
		}
		if err == nil && v.may {
			if token {
				if t.AccessToken == "" {
					r.Violate("empty:"+name, "an empty access token is returned without an error", det())
				}
				if !v.loose["access_token"] && v.must && t.AccessToken != v.token.AccessToken ||
					!v.loose["token_type"] && t.TokenType != v.token.TokenType ||
					!v.loose["scope"] && !sameScopes(v.token.Scopes, t.Scopes) ||
					name == "google" && !v.loose["refresh_token"] && t.RefreshToken != v.token.RefreshToken ||
					name == "google" && !v.loose["expires_in"] && t.ExpiresInSeconds != v.token.ExpiresInSeconds {
					r.Violate("token:"+name, fmt.Sprintf("the token is not the one of the answer, %+v", v.token), det())
				}
			} else {
				if u.Id == "" {
					r.Violate("empty-user:"+name, "an empty identity is returned without an error", det())
				}
				if !v.loose["id"] && v.must && u.Id != v.user.Id || !v.loose["name"] && u.Name != v.user.Name || u.IdentityPlatform != name || len(u.Groups) != 0 || u.Attachment != nil {
					r.Violate("user:"+name, fmt.Sprintf("the user is not the one of the answer, %+v", v.user), det())
				}
			}
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.ctx != nil {
			return
		}
		if c.n == 0 {
			r.Violate("no-request:"+name, "no request was sent", det())
			return
		}
		if c.wb != nil {
			if c.wb.closed.Load() == 0 {
				r.Violate("not-closed:"+name, "the body of the answer is not closed", det())
			}
			r.Count("bodies_closed", 1)
		}
		ep := map[string]string{"githubtrue": oauth.GitHubAccessTokenEndpoint, "githubfalse": oauth.GitHubUserInfoEndpoint,
			"googletrue": oauth.GoogleAccessTokenEndpoint, "googlefalse": oauth.GoogleUserInfoEndpoint}[fmt.Sprint(name, token)]
		if s, _, _ := strings.Cut(c.got.URL.String(), "?"); s != ep {
			r.Violate("endpoint:"+name, "the request goes to "+s+" instead of "+ep, det())
		}
		if token {
			m := carried(c.sent)
			bad := c.got.Method != "POST" || m["code"] != key || m["client_id"] != id || m["client_secret"] != secret
			if name == "google" {
				// (GitHub's endpoint does not look at the type)
				mt, _, _ := strings.Cut(c.got.Header.Get("Content-Type"), ";")
				if js := len(bytes.TrimSpace(c.sent)) > 0 && bytes.TrimSpace(c.sent)[0] == '{'; js && mt != "application/json" || !js && mt != "application/x-www-form-urlencoded" {
					r.Violate("content-type:"+name, fmt.Sprintf("the token request is declared as %q", c.got.Header.Get("Content-Type")), det())
				}
				bad = bad || m["redirect_uri"] != redirect || m["grant_type"] != "authorization_code"
			}
			if bad {
				r.Violate("request:"+name, fmt.Sprintf("the token request is %s with %v", c.got.Method, m), det())
			}
		} else if c.got.Method != "GET" || c.got.Header.Get("Authorization") != "Bearer "+key {
			r.Violate("request:"+name, fmt.Sprintf("the user request is %s with the Authorization %q", c.got.Method, c.got.Header.Get("Authorization")), det())
		}
		if !accepts(c.got.Header.Values("Accept"), "application/json") {
			r.Violate("accept:"+name, "the request does not ask for JSON", det())
		}
	})
	if vars() != before {
		r.Violate("globals", "a package variable is changed by use: "+vars(), nil)
	}
}

// accepts tells whether an Accept header names the media type, as a whole.
func accepts(header []string, media string) bool {
	for _, p := range strings.Split(strings.Join(header, ","), ",") {
		p, _, _ = strings.Cut(p, ";")
		if strings.EqualFold(strings.TrimSpace(p), media) {
			return true
		}
	}
	return false
}

// c25Silent: a provider that stops answering, at the connection as it is
// configured by default, does not hold the callers for ever.
func c25Silent(r *core.Run) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var conns []net.Conn
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns = append(conns, c)
			mu.Unlock()
			go func() {
				br := bufio.NewReader(c)
				q, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				if strings.HasPrefix(q.URL.Path, "/half") {
					io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n\r\n{\"access_token\": \"t\", \"id\": \"1\"")
				}
			}()
		}
	}()
	vars := []*string{&oauth.GitHubAccessTokenEndpoint, &oauth.GitHubUserInfoEndpoint, &oauth.GoogleAccessTokenEndpoint, &oauth.GoogleUserInfoEndpoint}
	var old []string
	for _, v := range vars {
		old = append(old, *v)
	}
	defer func() {
		for k, v := range vars {
			*v = old[k]
		}
		ln.Close()
		mu.Lock()
		for _, c := range conns {
			c.Close()
		}
		mu.Unlock()
	}()
	for _, mode := range []string{"none", "half"} {
		for _, v := range vars {
			*v = "http://" + ln.Addr().String() + "/" + mode
		}
		type end struct {
			what string
			err  error
		}
		ends := make(chan end, 4)
		for _, p := range []oauth.Provider{&oauth.GitHubProvider{ClientId: "c", ClientSecret: "s"}, &oauth.GoogleProvider{ClientId: "c", ClientSecret: "s"}} {
			p := p
			go func() {
				_, err := p.FetchAccessToken(context.Background(), "https://site.test/", "code")
				ends <- end{p.Name() + " token", err}
			}()
			go func() {
				_, err := p.FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "t"})
				ends <- end{p.Name() + " user", err}
			}()
		}
		waiting := map[string]bool{"github token": true, "github user": true, "google token": true, "google user": true}
		patience := time.After(150 * time.Second)
		for len(waiting) > 0 {
			r.Begin("silent provider %s", mode)
			select {
			case e := <-ends:
				delete(waiting, e.what)
				r.Case("silent "+mode+e.what, true)
				r.Count("silent_providers", 1)
				if e.err == nil {
					r.Violate("silent-ok", "a provider that does not answer is taken for one that does", map[string]any{"call": e.what, "answer": mode})
				}
			case <-time.After(time.Second):
			case <-patience:
				r.Violate("silent-hang", fmt.Sprintf("a provider that stops answering (%s) holds its callers for minutes: %v", mode, waiting), nil)
				return
			}
		}
	}
}

// c25Defaults checks that the addresses and scopes which are in place before anybody configures them belong to the
// provider: a code and a client secret that go anywhere else are given away.
func c25Defaults(r *core.Run) {
	for _, e := range []struct{ what, addr, hosts string }{
		{"GitHubAuthorizeEndpoint", oauth.GitHubAuthorizeEndpoint, "github.com"},
		{"GitHubAccessTokenEndpoint", oauth.GitHubAccessTokenEndpoint, "github.com"},
		{"GitHubUserInfoEndpoint", oauth.GitHubUserInfoEndpoint, "api.github.com"},
		{"GoogleAuthorizeEndpoint", oauth.GoogleAuthorizeEndpoint, "accounts.google.com"},
		{"GoogleAccessTokenEndpoint", oauth.GoogleAccessTokenEndpoint, "oauth2.googleapis.com www.googleapis.com accounts.google.com"},
		{"GoogleUserInfoEndpoint", oauth.GoogleUserInfoEndpoint, "www.googleapis.com openidconnect.googleapis.com"},
	} {
		u, err := url.Parse(e.addr)
		if err != nil || u.Scheme != "https" || u.User != nil || u.RawQuery != "" || u.Fragment != "" || !strings.Contains(" "+e.hosts+" ", " "+u.Host+" ") || len(u.Path) < 2 {
			r.Violate("default:"+e.what, "the default address is not one of the provider: "+e.addr, nil)
		}
		r.Case(e.what, true)
	}
	for _, e := range []struct {
		what   string
		scopes []string
		known  string
		need   []string
	}{
		{"github", oauth.GitHubUserInfoProfileScopes, "user read:user user:email", []string{"user read:user"}},
		{"google", oauth.GoogleUserInfoScopes, "openid email profile https://www.googleapis.com/auth/userinfo.email https://www.googleapis.com/auth/userinfo.profile",
			[]string{"email https://www.googleapis.com/auth/userinfo.email", "profile https://www.googleapis.com/auth/userinfo.profile"}},
	} {
		has := func(list string) (n int) {
			for _, s := range e.scopes {
				if strings.Contains(" "+list+" ", " "+s+" ") && s != "" {
					n++
				}
			}
			return n
		}
		if has(e.known) != len(e.scopes) {
			r.Violate("default-scope:"+e.what, "a default scope is none of the provider's: "+strings.Join(e.scopes, " "), nil)
		}
		for _, n := range e.need {
			if has(n) == 0 {
				r.Violate("default-scope:"+e.what, "the default scopes do not ask for the user's details: "+strings.Join(e.scopes, " "), nil)
			}
		}
		r.Case(e.what, true)
	}
}

// c25Changed lets the application change the addresses, the scopes and the
// client of the package; what providers do follows.
func c25Changed(r *core.Run) {
	addrs := []*string{&oauth.GitHubAuthorizeEndpoint, &oauth.GitHubAccessTokenEndpoint, &oauth.GitHubUserInfoEndpoint,
		&oauth.GoogleAuthorizeEndpoint, &oauth.GoogleAccessTokenEndpoint, &oauth.GoogleUserInfoEndpoint}
	scopes := []*[]string{&oauth.GitHubUserInfoProfileScopes, &oauth.GoogleUserInfoScopes}
	var oldA []string
	var oldS [][]string
	for _, a := range addrs {
		oldA = append(oldA, *a)
	}
	for _, s := range scopes {
		oldS = append(oldS, *s)
	}
	oldC := oauth.HttpClient
	defer func() {
		for k, a := range addrs {
			*a = oldA[k]
		}
		for k, s := range scopes {
			*s = oldS[k]
		}
		oauth.HttpClient = oldC
	}()
	// the providers are those of before
	ps := []oauth.Provider{oauth.GitHubProvider{ClientId: "id", ClientSecret: "se", Scopes: []string{"own"}}, oauth.GoogleProvider{ClientId: "id", ClientSecret: "se", Scopes: []string{"own"}}}
	n := r.N(300, 3000)
	for i := 0; i < n; i++ {
		if i%100 == 0 {
			r.Begin("changed %d", i)
		}
		rng := r.Rand("c25c", i)
		for k, a := range addrs {
			*a = fmt.Sprintf("%s://idp%d.test:%d/p%d/%s", pick(rng, []string{"http", "https"}), rng.Intn(100), 1000+rng.Intn(1000), k, pick(rng, []string{"", "a/b", "x"}))
		}
		for _, s := range scopes {
			*s = [][]string{nil, {}, {"one"}, {"one", "two", "https://x.test/three"}}[rng.Intn(4)]
		}
		var asked []string
		oauth.HttpClient = &http.Client{Transport: endpoints(func(q *http.Request) (*http.Response, error) {
			asked = append(asked, q.Method+" "+q.URL.String())
			return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Request: q,
				Body: io.NopCloser(strings.NewReader(`{"access_token":"tok","token_type":"bearer","id":"7","login":"me","email":"me@x.test","name":"Me"}`))}, nil
		})}
		for k, p := range ps {
			det := map[string]any{"provider": p.Name(), "addresses": []string{*addrs[3*k], *addrs[3*k+1], *addrs[3*k+2]}, "scopes": *scopes[k]}
			asked = nil
			raw := p.InitiateUrl("https://site.test/r", "st", true)
			u, err := url.Parse(raw)
			if err != nil || !strings.HasPrefix(raw, *addrs[3*k]+"?") {
				r.Violate("changed-authorize", "the authorize address does not use the address the application set: "+raw, det)
				continue
			}
			if got := strings.Fields(u.Query().Get("scope")); !sameSet(got, append([]string{"own"}, *scopes[k]...)) {
				r.Violate("changed-scopes", fmt.Sprintf("the authorize address asks for %q, not for the scopes the application set", got), det)
			}
			t, err := p.FetchAccessToken(context.Background(), "https://site.test/r", "code")
			if err != nil || t.AccessToken != "tok" || len(asked) != 1 || !strings.HasSuffix(asked[0], " "+*addrs[3*k+1]) {
				r.Violate("changed-token", fmt.Sprintf("the token is not asked at the address and with the client the application set: %q, %v", asked, err), det)
			}
			asked = nil
			us, err := p.FetchAuthenticatedUser(context.Background(), oauth.AccessToken{AccessToken: "tok"})
			if err != nil || us.Id == "" || len(asked) != 1 || !strings.HasPrefix(strings.SplitN(asked[0], " ", 2)[1], *addrs[3*k+2]) {
				r.Violate("changed-user", fmt.Sprintf("the user is not asked at the address and with the client the application set: %q, %v", asked, err), det)
			}
			r.Count("changed", 1)
			r.Case(fmt.Sprint("changed", i, k), true)
		}
	}
}

func sameSet(a, b []string) bool {
	x, y := map[string]bool{}, map[string]bool{}
	for _, v := range a {
		x[v] = true
	}
	for _, v := range b {
		y[v] = true
	}
	return reflect.DeepEqual(x, y)
}

func c25Addresses(r *core.Run) {
	gh, gs := append([]string(nil), oauth.GitHubUserInfoProfileScopes...), append([]string(nil), oauth.GoogleUserInfoScopes...)
	text := func(rng *rand.Rand) string {
		if rng.Intn(2) == 0 {
			return pick(rng, []string{"id", "a b", "a&b=c", "é", "%41+", "x\ty", "#?/", "\"'<>"})
		}
		return strings.ToValidUTF8(genText(rng, 20), "")
	}
	parallel(r, "addresses", r.N(4000, 60000), func(i int) {
		rng := r.Rand("c25u", i)
		var scopes []string
		for k := rng.Intn(4); k > 0; k-- {
			scopes = append(scopes, pick(rng, []string{"repo", "gist", "https://x.test/a", "user:email", "s1", "é"}))
		}
		shared, intact := spare(rng, scopes)
		prompts, intactP := spare(rng, [][]string{{}, {"consent"}, {"none", "select_account"}}[rng.Intn(3)])
		id, redirect, hint := text(rng), "https://site.test/"+text(rng), ""
		if rng.Intn(2) == 0 {
			hint = text(rng)
		}
		flags := rng.Intn(4)
		var p oauth.Provider
		want := map[string]string{}
		ep, extra := oauth.GitHubAuthorizeEndpoint, gh
		var cfgBefore string
		if rng.Intn(2) == 0 {
			g := oauth.GitHubProvider{ClientId: id, ClientSecret: "SECRET-S", Login: hint, AllowSignup: flags&1 > 0, Scopes: shared}
			p, cfgBefore = g, fmt.Sprint(g)
			want["allow_signup"] = fmt.Sprint(flags&1 > 0)
			want["login"] = hint
		} else {
			ep, extra = oauth.GoogleAuthorizeEndpoint, gs
			g := oauth.GoogleProvider{ClientId: id, ClientSecret: "SECRET-S", LoginHint: hint, Scopes: shared, AccessTypeOffline: flags&1 > 0, IncludeGrantedScopes: flags&2 > 0, Prompts: prompts}
			p, cfgBefore = g, fmt.Sprint(g)
			want["response_type"] = "code"
			want["login_hint"] = hint
			want["include_granted_scopes"] = fmt.Sprint(flags&2 > 0)
			if flags&1 > 0 {
				want["access_type"] = "offline"
			} else {
				want["access_type"] = ""
			}
			want["prompt"] = strings.Join(prompts, " ")
		}
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			info := rng.Intn(2) == 0
			state := fmt.Sprintf("st%d-%d", i, k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				raw := p.InitiateUrl(redirect, state, info)
				det := map[string]any{"provider": fmt.Sprintf("%+v", p), "address": raw}
				u, err := url.Parse(raw)
				if err != nil || !strings.HasPrefix(raw, ep+"?") || u.Fragment != "" {
					r.Violate("address", "the authorize address is "+raw, det)
					return
				}
				q, err := url.ParseQuery(u.RawQuery)
				if err != nil {
					r.Violate("address", "the authorize address is "+raw, det)
					return
				}
				exp := map[string]string{"client_id": id, "redirect_uri": redirect, "state": state}
				for k, v := range want {
					exp[k] = v
				}
				for k, v := range exp {
					if q.Get(k) != v || len(q[k]) > 1 {
						r.Violate("parameter:"+k, fmt.Sprintf("the authorize address has %s=%q instead of %q", k, q[k], v), det)
					}
				}
				all := map[string]bool{}
				for _, s := range scopes {
					all[s] = true
				}
				if info {
					for _, s := range extra {
						all[s] = true
					}
				}
				got := map[string]bool{}
				for _, s := range strings.Fields(q.Get("scope")) {
					got[s] = true
				}
				if !reflect.DeepEqual(all, got) {
					r.Violate("scope", fmt.Sprintf("the authorize address asks for the scopes %v instead of %v", got, all), det)
				}
				if strings.Contains(raw, "SECRET-S") {
					r.Violate("secret", "the authorize address contains the client secret", det)
				}
			}()
		}
		wg.Wait()
		if !intact() || !intactP() || fmt.Sprint(p) != cfgBefore {
			r.Violate("mutated", "making an authorize address changes the configuration of the caller", map[string]any{"provider": cfgBefore})
		}
		r.Count("addresses", 3)
		r.Case(fmt.Sprint("address", i), true)
	})
	if !reflect.DeepEqual(gh, oauth.GitHubUserInfoProfileScopes) || !reflect.DeepEqual(gs, oauth.GoogleUserInfoScopes) {
		r.Violate("globals", "making authorize addresses changes the scopes of the package", nil)
	}
}
