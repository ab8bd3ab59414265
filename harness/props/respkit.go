package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	htmltpl "html/template"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"
	texttpl "text/template"
	"unicode/utf8"

	"github.com/ixtendio/gofre/response"
)

// rspec is a response a handler builds and what a client must get for it.
type rspec struct {
	kind    string
	code    int
	ctype   string            // "" is not judged
	hdr     map[string]string // custom headers
	cookies []*http.Cookie    // custom cookies, after replacement by identity
	body    []byte
	json    any  // when set, the body must decode to this
	isJson  bool // json is set
	bad     bool // the answer is a bare 500 and one logged error
	build   func() response.HttpResponse
	desc    string
}

func (s *rspec) String() string {
	return fmt.Sprintf("%s code=%d type=%q headers=%d cookies=%d body=%d %s", s.kind, s.code, s.ctype, len(s.hdr), len(s.cookies), len(s.body), s.desc)
}

var specHeaderNames = []string{"X-A", "X-B", "x-lower", "X-MiXeD", "Cache-Control", "Etag", "Content-Language", "Link", "Vary", "Content-Disposition", "Server", "X-Frame-Options", "Last-Modified", "X-Content-Type-Options", "Retry-After", "Allow", "Access-Control-Allow-Origin", "Www-Authenticate"}

const headerChars = "abcXYZ0189 -_.,;:=\"'/()<>@[]{}!#$%&*+?^`|~\\"

func genHeaderValue(rng *rand.Rand, tag string) string {
	n := rng.Intn(30)
	b := make([]byte, n)
	for k := range b {
		b[k] = headerChars[rng.Intn(len(headerChars))]
	}
	v := strings.TrimSpace(string(b))
	if tag != "" {
		return tag + ";" + v
	}
	return v
}

func genHeaders(rng *rand.Rand, tag string, max int) map[string]string {
	h := map[string]string{}
	perm := rng.Perm(len(specHeaderNames))
	for k := 0; k < rng.Intn(max+1); k++ {
		h[specHeaderNames[perm[k%len(perm)]]] = strings.TrimRight(genHeaderValue(rng, tag), " ;")
	}
	if rng.Intn(300) == 0 && max > 0 {
		h["X-Big"] = tag + ";" + bigText(rng)
	}
	if rng.Intn(250) == 0 && max > 0 { // very many
		for k := rng.Intn(400); k > 0; k-- {
			h[fmt.Sprintf("X-Many-%d", k)] = tag + "n"
		}
	}
	if v, ok := h["X-Content-Type-Options"]; ok && v == "" {
		h["X-Content-Type-Options"] = "own" // an empty one asks for the default
	}
	return h
}

func genCookies(rng *rand.Rand, tag string, max int) (added []*http.Cookie, kept []*http.Cookie) {
	n := rng.Intn(max + 1)
	many := rng.Intn(250) == 0 && max > 0
	if many {
		n = rng.Intn(200)
	}
	byId := map[string]*http.Cookie{}
	for k := 0; k < n; k++ {
		name := pick(rng, []string{"a", "b", "session", "csrf_token", "x-y", "A"})
		if many {
			name += fmt.Sprint(k)
		}
		c := &http.Cookie{Name: name, Value: tag + pick(rng, []string{"", "v1", "a.b-c_d", "0123456789abcdef", "with space", "a,b", "~!#$%&'()*+-./:<=>?@[]^_`{|}"})}
		if rng.Intn(2) == 0 {
			c.Path = pick(rng, []string{"/", "/a", "/a/b"})
		}
		if rng.Intn(3) == 0 {
			c.Domain = pick(rng, []string{"x.test", "y.test"})
		}
		if rng.Intn(3) == 0 {
			c.MaxAge = rng.Intn(5000) - 1
		}
		c.HttpOnly = rng.Intn(2) == 0
		c.Secure = rng.Intn(2) == 0
		if rng.Intn(3) == 0 {
			c.SameSite = http.SameSite(1 + rng.Intn(4))
		}
		added = append(added, c)
		if rng.Intn(12) == 0 {
			added = append(added, nil)
		}
		byId[c.Name+"\x00"+c.Path+"\x00"+c.Domain] = c
	}
	for _, c := range byId {
		kept = append(kept, c)
	}
	sort.Slice(kept, func(i, j int) bool { return kept[i].String() < kept[j].String() })
	return
}

func genBody(rng *rand.Rand) []byte {
	var n int
	if rng.Intn(4000) == 0 {
		n = pickInt(rng, 1<<20-1, 1<<20, 1<<20+1, 2<<20, 4<<20, 4<<20+1, 8<<20+1, 10<<20+3)
		return bytes.Repeat([]byte(pick(rng, []string{"a", "0123456789abcdef", "lorem <ipsum> ", "\x00\xff\x7f"})), n)[:n]
	}
	switch rng.Intn(12) {
	case 0:
		return nil
	case 1, 2, 3, 4:
		n = rng.Intn(60)
	case 5, 6, 7:
		n = rng.Intn(3000)
	case 8:
		n = pickInt(rng, 511, 512, 513, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536)
	case 9:
		n = rng.Intn(40000)
	case 10:
		n = rng.Intn(8000)
	default:
		n = rng.Intn(200000)
	}
	switch rng.Intn(4) {
	case 0:
		return randBytes(rng, n)
	case 1:
		return bytes.Repeat([]byte(pick(rng, []string{"a", "<html>", "\x00", "lorem ipsum ", "é"})), n/4+1)
	case 2:
		return []byte(genText(rng, n/3))
	}
	b := make([]byte, n)
	for k := range b {
		b[k] = byte('a' + (k*k/7)%13)
	}
	return b
}

// ---- JSON payloads ----

type jsonStruct struct {
	Name  string            `json:"name"`
	Empty string            `json:"empty,omitempty"`
	List  []int             `json:"list"`
	Map   map[string]string `json:"m"`
	Inner *jsonStruct       `json:"inner,omitempty"`
	Skip  string            `json:"-"`
	F     float64
	Any   any
	Bytes []byte
}

type customMarshal struct{ v string }

func (c customMarshal) MarshalJSON() ([]byte, error) { return json.Marshal("custom:" + c.v) }

type badMarshal struct{}

func (badMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot") }

type wrongMarshal struct{}

func (wrongMarshal) MarshalJSON() ([]byte, error) { return []byte(`{"a":`), nil }

func genJson(rng *rand.Rand, depth int) any {
	k := rng.Intn(14)
	if rng.Intn(15) == 0 { // nothing, of a type: null
		return []any{[]string(nil), map[string]int(nil), (*jsonStruct)(nil), []byte(nil), [0]int{}, []int{}, struct{}{}, "", 0, false, json.RawMessage(nil), (*int)(nil), map[string]int{}}[rng.Intn(13)]
	}
	if depth <= 0 {
		k = rng.Intn(9)
	}
	switch k {
	case 0:
		return genText(rng, 20)
	case 1:
		return rng.Int63() - rng.Int63()
	case 2:
		return rng.NormFloat64() * 1e6
	case 3:
		return rng.Intn(2) == 0
	case 4:
		return nil
	case 5:
		return uint64(rng.Uint64())
	case 6:
		return json.RawMessage(`{"raw":[1,2,{"x":null}]}`)
	case 7:
		return customMarshal{genText(rng, 5)}
	case 8:
		return randBytes(rng, rng.Intn(20))
	case 9, 10:
		n := rng.Intn(6)
		s := make([]any, n)
		for i := range s {
			s[i] = genJson(rng, depth-1)
		}
		return s
	case 11, 12:
		m := map[string]any{}
		for i := rng.Intn(6); i > 0; i-- {
			m[genText(rng, 8)] = genJson(rng, depth-1)
		}
		return m
	}
	s := jsonStruct{Name: genText(rng, 10), F: rng.Float64(), Map: map[string]string{genText(rng, 4): genText(rng, 4)}, Any: genJson(rng, depth-1), Skip: "skipped"}
	if rng.Intn(2) == 0 {
		s.Inner = &jsonStruct{Name: "inner"}
		return &s
	}
	return s
}

func badJson(rng *rand.Rand) (any, string) {
	type node struct{ Next *node }
	cyc := &node{}
	cyc.Next = cyc
	all := []struct {
		v any
		n string
	}{
		{make(chan int), "channel"}, {func() {}, "func"}, {math.NaN(), "NaN"}, {math.Inf(1), "Inf"}, {map[bool]int{true: 1}, "bool keys"}, {badMarshal{}, "failing marshaler"},
		{wrongMarshal{}, "invalid marshaler"}, {map[string]any{"ok": 1, "bad": make(chan int)}, "nested channel"}, {[]any{1, 2, math.NaN()}, "nested NaN"}, {struct{ F func() }{func() {}}, "func field"},
		{complex(1, 2), "complex"}, {cyc, "cycle"}, {json.RawMessage(`{"a"`), "invalid raw"},
	}
	x := all[rng.Intn(len(all))]
	return x.v, x.n
}

// decoded gives the generic form of JSON text.
func decoded(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	var rest any
	if err := d.Decode(&rest); err != io.EOF {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}

var htmlTpl = htmltpl.Must(htmltpl.New("root").Parse(`{{define "page"}}<html><body title="{{.T}}">{{range .L}}<p>{{.}}</p>{{end}}</body></html>{{end}}{{define "empty"}}{{end}}`))
var textTpl = texttpl.Must(texttpl.New("root").Parse(`{{define "page"}}{{.T}}:{{range .L}}[{{.}}]{{end}}{{end}}{{define "empty"}}{{end}}`))

type tplData struct {
	T string
	L []string
}

type specOpt struct {
	tag     string
	maxH    int
	maxC    int
	code    int // 0: any
	noBad   bool
	noRedir bool
	kinds   []string
	size    int // 0: any; otherwise about the size of the body
}

var specKinds = []string{"text", "html", "json", "json", "json error", "raw", "stream", "template", "template text", "redirect", "headers", "internal error", "nil template"}

// genSpec makes a response by any of the constructors of the library.
func genSpec(rng *rand.Rand, o specOpt) *rspec {
	s := &rspec{}
	kinds := o.kinds
	if kinds == nil {
		kinds = specKinds
	}
	s.kind = pick(rng, kinds)
	for o.noRedir && s.kind == "redirect" {
		s.kind = pick(rng, kinds)
	}
	s.hdr = genHeaders(rng, o.tag, o.maxH)
	added, kept := genCookies(rng, o.tag, o.maxC)
	s.cookies = kept
	code := o.code
	if code == 0 {
		code = 200 + rng.Intn(400)
		switch rng.Intn(9) {
		case 0, 1, 2:
			code = 200
		case 3:
			code = 600 + rng.Intn(400)
		}
	}
	nobody := code == 204 || code == 304
	if nobody && (strings.HasPrefix(s.kind, "json") || strings.HasPrefix(s.kind, "template") || s.kind == "redirect") {
		s.kind = pick(rng, []string{"text", "raw", "headers"})
	}
	s.code = code
	body := genBody(rng)
	if o.size > 0 {
		body = make([]byte, o.size)
		seed := rng.Uint64()
		for k := range body {
			body[k] = byte(' ' + (uint64(k)*seed>>57)%90)
		}
	}
	if nobody {
		body = nil
	}
	s.body = body

	// where headers and cookies are set: in the constructor or afterwards
	how := rng.Intn(4) // 0 constructor, 1 afterwards, 2 half-half, 3 whichever constructor allows
	ownCT := ""
	if rng.Intn(8) == 0 && s.kind != "redirect" {
		ownCT = pick(rng, []string{"application/x-own", "text/html; charset=latin1", "image/png"})
	}
	badStatus := !o.noBad && rng.Intn(40) == 0
	if badStatus && s.kind != "redirect" && s.kind != "internal error" {
		code = pickInt(rng, -5, 1, 42, 99, 1000, 1001, 65536)
		s.bad = true
	}
	// drawn before, so that a response can be built again, by any goroutine
	ownHeaders, coin, cookieHow := rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(3)
	mkH := func(part int) response.HttpHeaders {
		if part == 0 {
			return nil
		}
		var h response.HttpHeaders
		if ownHeaders {
			h = response.NewHttpHeaders()
		} else {
			h = response.HttpHeaders{}
		}
		for k, v := range s.hdr {
			h.Set(k, v)
		}
		return h
	}
	mkC := func() response.HttpCookies {
		var c response.HttpCookies
		switch cookieHow {
		case 0:
			c = response.NewEmptyHttpCookie()
			for _, k := range added {
				c.Add(k)
			}
		case 1:
			c = response.NewHttpCookie(added...)
		default:
			c = response.HttpCookies{}
			c.Add(added...)
		}
		return c
	}
	finish := func(resp response.HttpResponse, hDone, cDone bool) response.HttpResponse {
		if ownCT != "" {
			resp.Headers().Set("Content-Type", ownCT)
		}
		if !hDone {
			for k, v := range s.hdr {
				resp.Headers().Set(k, v)
			}
		}
		if !cDone {
			resp.Cookies().Add(added...)
		}
		return resp
	}
	// variant picks a constructor: plain, headers, cookies, both
	variant := rng.Intn(4)
	if how == 1 {
		variant = 0
	}
	s.desc = fmt.Sprintf("variant %d", variant)
	inH, inC := variant&1 != 0, variant&2 != 0
	txt := string(body)
	switch s.kind {
	case "text":
		s.ctype = "text/plain; charset=utf-8"
		s.build = func() response.HttpResponse {
			switch {
			case inC: // there is no constructor with cookies only
				return finish(response.PlainTextResponseWithHeadersAndCookies(code, txt, mkH(1), mkC()), true, true)
			case inH:
				return finish(response.PlainTextHttpResponseWithHeaders(code, txt, mkH(1)), true, false)
			case code == 200 && coin:
				return finish(response.PlainTextHttpResponseOK(txt), false, false)
			}
			return finish(response.PlainTextHttpResponse(code, txt), false, false)
		}
	case "html":
		s.ctype = "text/html; charset=utf-8"
		s.build = func() response.HttpResponse {
			switch {
			case inC:
				return finish(response.HtmlResponseWithHeadersAndCookies(code, txt, mkH(1), mkC()), true, true)
			case inH:
				return finish(response.HtmlHttpResponseWithHeaders(code, txt, mkH(1)), true, false)
			case code == 200 && coin:
				return finish(response.HtmlHttpResponseOK(txt), false, false)
			}
			return finish(response.HtmlHttpResponse(code, txt), false, false)
		}
	case "json":
		s.ctype = "application/json"
		s.isJson = true
		var payload any
		if !o.noBad && rng.Intn(12) == 0 {
			var n string
			payload, n = badJson(rng)
			s.desc = "unencodable " + n
			s.bad = true
		} else {
			payload = genJson(rng, 3)
			if rng.Intn(20) == 0 {
				payload = strings.Repeat(genText(rng, 50), 1+rng.Intn(3000))
			}
			if o.size > 0 {
				payload = map[string]any{"text": txt, "n": 1}
			}
			b, err := json.Marshal(payload)
			if err != nil {
				panic(err)
			}
			if payload == nil {
				b = []byte("{}")
			}
			s.json, _ = decoded(b)
		}
		s.build = func() response.HttpResponse {
			switch {
			case inC && inH:
				return finish(response.JsonHttpResponseWithHeadersAndCookies(code, payload, mkH(1), mkC()), true, true)
			case inC:
				return finish(response.JsonHttpResponseWithCookies(code, payload, mkC()), false, true)
			case inH:
				return finish(response.JsonHttpResponseWithHeaders(code, payload, mkH(1)), true, false)
			case code == 200 && coin:
				return finish(response.JsonHttpResponseOK(payload), false, false)
			}
			return finish(response.JsonHttpResponse(code, payload), false, false)
		}
	case "json error":
		s.ctype = "application/json"
		s.isJson = true
		msg := genText(rng, 30)
		var err error = errors.New(msg)
		if rng.Intn(10) == 0 {
			err, msg = nil, ""
		}
		want := msg
		if msg != "" {
			_, n := utf8.DecodeRuneInString(msg)
			want = strings.ToUpper(msg[:n]) + msg[n:]
		}
		s.json = map[string]any{"error": want}
		s.build = func() response.HttpResponse {
			switch {
			case inC && inH:
				return finish(response.JsonErrorHttpResponseWithHeadersAndCookies(code, err, mkH(1), mkC()), true, true)
			case inC:
				return finish(response.JsonErrorHttpResponseWithCookies(code, err, mkC()), false, true)
			case inH:
				return finish(response.JsonErrorHttpResponseWithHeaders(code, err, mkH(1)), true, false)
			}
			return finish(response.JsonErrorHttpResponse(code, err), false, false)
		}
	case "raw":
		ct := pick(rng, []string{"application/octet-stream", "text/csv", "image/png", ""})
		s.ctype = ct
		chunk := 1 + rng.Intn(10000)
		flush := rng.Intn(4) == 0
		var wf response.RawWriterFunc = func(w io.Writer) error {
			for b := body; len(b) > 0; {
				n := min(chunk, len(b))
				if m, err := w.Write(b[:n]); err != nil || m != n {
					return fmt.Errorf("short write %d of %d: %w", m, n, err)
				}
				b = b[n:]
				if f, ok := w.(http.Flusher); ok && flush {
					f.Flush()
				}
			}
			return nil
		}
		if len(body) == 0 && rng.Intn(2) == 0 {
			wf = nil
		}
		only := variant == 0 && code == 200
		if variant == 0 && code != 200 {
			inH = true
		}
		s.build = func() response.HttpResponse {
			switch {
			case only:
				return finish(response.RawWriterHttpResponse(ct, wf), false, false)
			case inC && inH:
				return finish(response.RawWriterHttpResponseWithHeadersAndCookies(code, ct, mkH(1), mkC(), wf), true, true)
			case inC:
				return finish(response.RawWriterHttpResponseWithCookies(code, ct, mkC(), wf), false, true)
			}
			return finish(response.RawWriterHttpResponseWithHeaders(code, ct, mkH(1), wf), true, false)
		}
	case "stream":
		ct := pick(rng, []string{"application/octet-stream", "video/mp4", "text/event", ""})
		s.ctype = ct
		rk := rng.Intn(7)
		skip := 0
		if rng.Intn(2) == 0 {
			skip = 1 + rng.Intn(20)
		}
		mkR := func() io.Reader {
			switch rk {
			case 0:
				// what the handler has already read is not part of the response
				rd := bytes.NewReader(append(bytes.Repeat([]byte("#"), skip), body...))
				rd.Seek(int64(skip), io.SeekStart)
				return rd
			case 1:
				rd := strings.NewReader(strings.Repeat("#", skip) + txt)
				io.CopyN(io.Discard, rd, int64(skip))
				return rd
			case 2:
				if len(body) < 3000 {
					return iotest.OneByteReader(bytes.NewReader(body))
				}
				return iotest.HalfReader(bytes.NewReader(body))
			case 3:
				return iotest.DataErrReader(bytes.NewReader(body))
			case 4:
				h := len(body) / 3
				return io.MultiReader(bytes.NewReader(body[:h]), strings.NewReader(""), bytes.NewReader(body[h:]))
			case 5:
				return bufio.NewReaderSize(struct{ io.Reader }{bytes.NewReader(body)}, 16)
			}
			if len(body) == 0 {
				return nil
			}
			return &failReader{append([]byte(nil), body...), io.EOF}
		}
		only := variant == 0 && code == 200
		if variant == 0 && code != 200 {
			inH = true
		}
		s.build = func() response.HttpResponse {
			switch {
			case only:
				return finish(response.StreamHttpResponse(ct, mkR()), false, false)
			case inC && inH:
				return finish(response.StreamHttpResponseWithHeadersAndCookies(code, ct, mkH(1), mkC(), mkR()), true, true)
			case inC:
				return finish(response.StreamHttpResponseWithCookies(code, ct, mkC(), mkR()), false, true)
			}
			return finish(response.StreamHttpResponseWithHeaders(code, ct, mkH(1), mkR()), true, false)
		}
	case "template", "template text", "nil template":
		var t response.ExecutableTemplate = htmlTpl
		s.ctype = "text/html; charset=utf-8"
		if s.kind == "template text" {
			t = textTpl
			s.ctype = "text/plain; charset=utf-8"
		} else if s.kind == "nil template" {
			t = response.NilTemplate{}
			s.ctype = "text/plain; charset=utf-8"
		}
		data := tplData{T: genText(rng, 20)}
		for k := rng.Intn(20); k > 0; k-- {
			data.L = append(data.L, genText(rng, 40))
		}
		if o.size > 0 {
			for k := 0; k < len(txt); k += 50 {
				data.L = append(data.L, txt[k:min(k+50, len(txt))])
			}
		}
		name := pick(rng, []string{"page", "page", "page", "empty"})
		if nobody {
			name = "empty"
		}
		var sb bytes.Buffer
		if err := t.ExecuteTemplate(&sb, name, data); err != nil {
			panic(err)
		}
		s.body = sb.Bytes()
		if code == 404 && rng.Intn(2) == 0 {
			variant, inH, inC = 4, false, false
		}
		if variant == 0 && code != 200 {
			inH = true
		}
		s.build = func() response.HttpResponse {
			switch {
			case variant == 4:
				return finish(response.TemplateHttpResponseNotFound(t, name, data), false, false)
			case inC && inH:
				return finish(response.TemplateHttpResponseWithHeadersAndCookies(t, code, name, data, mkH(1), mkC()), true, true)
			case inC:
				return finish(response.TemplateHttpResponseWithCookies(t, code, name, data, mkC()), false, true)
			case inH:
				return finish(response.TemplateHttpResponseWithHeaders(t, code, name, data, mkH(1)), true, false)
			}
			return finish(response.TemplateHttpResponseOK(t, name, data), false, false)
		}
	case "redirect":
		u := pick(rng, []string{"/", "/login", "relative", "../up", "https://other.test/a?b=c&d=e#f", "//host.test/x", "/a?x=\"<>&'", "/with space", "/é", "?q=1", "https://x.test/" + strings.Repeat("y", 2000)})
		s.desc = u
		k := rng.Intn(3)
		s.code = []int{301, 302, 303}[k]
		s.bad = false
		s.ctype = ""
		s.build = func() response.HttpResponse {
			return finish([]func(string) *response.HttpRedirectResponse{response.RedirectHttpResponseMovedPermanently, response.RedirectHttpResponse, response.RedirectHttpResponseSeeOther}[k](u), false, false)
		}
	case "headers":
		s.body = nil
		ct := pick(rng, []string{"", "text/x", "application/json"})
		s.ctype = ct
		s.build = func() response.HttpResponse {
			r := &response.HttpHeadersResponse{HttpStatusCode: code, ContentType: ct}
			if code == 200 && coin {
				r.HttpStatusCode = 0
			}
			if inH {
				r.HttpHeaders = mkH(1)
			}
			if inC {
				r.HttpCookies = mkC()
			}
			return finish(r, inH, inC)
		}
	case "internal error":
		s.code = 500
		s.body = nil
		s.build = func() response.HttpResponse {
			return finish(response.InternalServerErrorHttpResponse(), false, false)
		}
	default:
		panic(s.kind)
	}
	if s.kind == "redirect" {
		delete(s.hdr, "Content-Language") // harmless, but keeps the reference simple
	}
	if ownCT != "" {
		s.ctype = ownCT
	}
	if s.bad {
		s.code = 500
	}
	return s
}

// serverHeaders are those the transport or the library adds by itself.
var serverHeaders = map[string]bool{"Date": true, "Content-Length": true, "Content-Type": true, "X-Content-Type-Options": true, "Transfer-Encoding": true, "Connection": true, "Location": true}

// judge compares what a client got with the specification.
func (s *rspec) judge(code int, h http.Header, body []byte, req *http.Request, head bool) string {
	if code != s.code {
		return fmt.Sprintf("status %d instead of %d", code, s.code)
	}
	if s.bad {
		if len(body) != 0 {
			return "a response that cannot be made has a body"
		}
		return ""
	}
	want := map[string]bool{}
	for k, v := range s.hdr {
		c := http.CanonicalHeaderKey(k)
		want[c] = true
		if len(h[c]) != 1 || h[c][0] != v {
			return fmt.Sprintf("header %s is %q instead of %q", k, h[c], v)
		}
	}
	for k := range h {
		if !want[k] && !serverHeaders[k] && k != "Set-Cookie" {
			return fmt.Sprintf("unexpected header %s: %q", k, h[k])
		}
	}
	var wc []string
	for _, c := range s.cookies {
		wc = append(wc, c.String())
	}
	gc := append([]string(nil), h["Set-Cookie"]...)
	sort.Strings(wc)
	sort.Strings(gc)
	if strings.Join(wc, "\n") != strings.Join(gc, "\n") {
		return fmt.Sprintf("cookies %q instead of %q", gc, wc)
	}
	// net/http leaves the type out of a 304
	if s.ctype != "" && code != 304 && h.Get("Content-Type") != s.ctype {
		return fmt.Sprintf("content type %q instead of %q", h.Get("Content-Type"), s.ctype)
	}
	if s.kind == "redirect" {
		ref := httptest.NewRecorder()
		http.Redirect(ref, req, s.desc, s.code)
		if g := h.Get("Location"); g != ref.Header().Get("Location") {
			return fmt.Sprintf("redirected to %q instead of %q", g, ref.Header().Get("Location"))
		}
		return ""
	}
	if head {
		if len(body) != 0 {
			return "the answer to HEAD has a body"
		}
		return ""
	}
	if s.isJson {
		v, err := decoded(body)
		if err != nil {
			return "the body is not JSON: " + err.Error()
		}
		if !reflect.DeepEqual(v, s.json) {
			return fmt.Sprintf("the JSON body does not decode to the payload: %s", clip(string(body)))
		}
		return ""
	}
	if !bytes.Equal(body, s.body) {
		return fmt.Sprintf("the body is not the one written: %d bytes instead of %d, first difference at %d", len(body), len(s.body), diffAt(body, s.body))
	}
	return ""
}

func diffAt(a, b []byte) int {
	for k := range a {
		if k >= len(b) || a[k] != b[k] {
			return k
		}
	}
	return len(a)
}
