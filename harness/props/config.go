package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"html/template"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C33", false, runC33) }

// what a caller may put where a template is expected
type cfgTemplate struct{ mark string }

func (t *cfgTemplate) Execute(w io.Writer, data any) error {
	_, err := fmt.Fprintf(w, "%s||%v", t.mark, data)
	return err
}
func (t *cfgTemplate) ExecuteTemplate(w io.Writer, name string, data any) error {
	_, err := fmt.Fprintf(w, "%s|%s|%v", t.mark, name, data)
	return err
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) take() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	l.b.Reset()
	return s
}

var cfgPieces = []string{"plain ", "<b>{{.A}}</b>", `<a href="/x?q={{.A}}">`, `<a title="{{.B}}">`, "<script>var v = {{.A}};</script>", "{{safe .B}}", `{{safe "<!-- kept -->"}}`, "<!-- dropped -->", "{{range .L}}<i>{{.}}</i>{{end}}", "{{if .A}}yes{{else}}no{{end}}", "{{len .L}}", "{{printf \"%q\" .B}}", "<p style=\"color:{{.A}}\">", "é世"}
var cfgBroken = []string{"{{.A", "{{end}}", "{{unknownFunc .A}}", "{{if .A}}", "{{range}}x{{end}}", "{{define}}"}

// cfgDir is a set of templates on the disk.
type cfgDir struct {
	pattern string
	names   []string
	broken  bool
	ref     *template.Template // what the standard library makes of it
}

func makeTemplates(rng *rand.Rand, root, rel, glob string, kind int) *cfgDir {
	d := &cfgDir{pattern: rel + "/" + glob}
	dir := filepath.Join(root, rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	put := func(n, s string) {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	// a file the pattern does not take
	put("not-taken.txt", "{{.A")
	if kind == 0 {
		d.broken = true // none to be found
		return d
	}
	ext := strings.TrimPrefix(glob, "*")
	d.ref = template.New("").Funcs(template.FuncMap{"safe": func(s string) template.HTML { return template.HTML(s) }})
	n := 1 + rng.Intn(4)
	bad := -1
	if kind == 1 {
		bad = rng.Intn(n)
	}
	for k := 0; k < n; k++ {
		name := fmt.Sprintf("%s%d%s", pick(rng, []string{"index", "p", "view-", "x y"}), k, ext)
		var sb strings.Builder
		for j := 1 + rng.Intn(4); j > 0; j-- {
			sb.WriteString(pick(rng, cfgPieces))
		}
		if rng.Intn(3) == 0 {
			fmt.Fprintf(&sb, `{{define "part%d"}}[{{.B}}]{{end}}{{template "part%d" .}}`, k, k)
			d.names = append(d.names, fmt.Sprint("part", k))
		}
		s := sb.String()
		if k == bad {
			s += pick(rng, cfgBroken)
			d.broken = true
		} else if _, err := d.ref.New(name).Parse(s); err != nil {
			panic(err)
		}
		put(name, s)
		d.names = append(d.names, name)
	}
	return d
}

func genCfgData(rng *rand.Rand) map[string]any {
	vals := []string{"", "x", "<b>", `"q'`, "a&b", "javascript:1", "</script>", "é世界", "red; x", "-->", "\x00"}
	m := map[string]any{"A": pick(rng, vals), "B": pick(rng, vals), "L": []string{pick(rng, vals), pick(rng, vals)}[:rng.Intn(3)]}
	return m
}

// cfgBuilt is a handler that was built, with what was asked for.
type cfgBuilt struct {
	m        *gofre.MuxHandler
	how      string
	ctxPath  string // as given
	ci       bool
	res      bool
	custom   response.ExecutableTemplate
	tpl      *cfgDir
	assets   string // the directory, relative to the working directory
	mapping  string
	content  map[string]string // files of the assets
	own      *errLog           // nil: the default log function
	describe map[string]any
}

func runC33(r *core.Run) {
	r.Rule("every combination of settings given and left out (context path, case sensitivity, log function, assets directory and mapping, template pattern and own template) is built over scratch working directories whose default and other template and asset directories hold generated, broken or no files; " +
		"several handlers live at a time, with clones and prefixed routers of each. Monitors compare what the handler reports and serves with the settings given or the documented defaults, templates with the standard library's rendering, and the log function (or the standard log) with the errors provoked. A case is one handler built or one request; all are non-trivial")
	r.Assume("the check changes the working directory of its own process and captures its standard log")
	for name, min := range map[string]int64{"built": 500, "refused_missing": 20, "refused_broken": 20, "renders": 1000, "assets": 300, "routers": 500, "errors_own": 300, "errors_default": 300, "own_template": 50, "combinations": 60, "derived": 500} {
		r.Require(name, min)
	}
	scratch, err := os.MkdirTemp("", "c33-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	home, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	out, flags, prefix := log.Writer(), log.Flags(), log.Prefix()
	std := &lockedBuf{}
	log.SetOutput(std)
	defer func() {
		log.SetOutput(out)
		log.SetFlags(flags)
		log.SetPrefix(prefix)
		os.Chdir(home)
	}()
	n := r.N(2500, 30000)
	for k := 0; k < n && !r.TooMany(); k++ {
		root := filepath.Join(scratch, fmt.Sprint("w", k))
		if err := os.MkdirAll(root, 0o755); err != nil {
			panic(err)
		}
		if err := os.Chdir(root); err != nil {
			panic(err)
		}
		r.Begin("working directory %d", k)
		c33Dir(r, k, root, std)
		os.Chdir(home)
		os.RemoveAll(root)
	}
}

func c33Dir(r *core.Run, k int, root string, std *lockedBuf) {
	rng := r.Rand("c33", k)
	kind := func() int { return []int{0, 1, 2, 2, 2, 2}[rng.Intn(6)] }
	dirs := map[string]*cfgDir{
		"":                     makeTemplates(rng, root, "resources/templates", "*.html", kind()),
		"views/*.html":         makeTemplates(rng, root, "views", "*.html", kind()),
		"resources/v2/*.gohtm": makeTemplates(rng, root, "resources/v2", "*.gohtm", kind()),
	}
	content := map[string]map[string]string{}
	for _, a := range []string{"resources/assets", "public", "resources/www"} {
		dir := filepath.Join(root, a)
		if err := os.MkdirAll(filepath.Join(dir, "sub"), 0o755); err != nil {
			panic(err)
		}
		content[a] = map[string]string{}
		for _, f := range []string{"a.txt", "sub/b.css", strings.ReplaceAll(a, "/", "-") + ".js"} {
			s := fmt.Sprintf("%s of %s %d", f, a, rng.Int63())
			content[a][f] = s
			if err := os.WriteFile(filepath.Join(dir, f), []byte(s), 0o644); err != nil {
				panic(err)
			}
		}
	}
	var built []*cfgBuilt
	for j := 2 + rng.Intn(3); j > 0; j-- {
		if b := c33Build(r, rng, fmt.Sprint(k, "/", j), dirs, content); b != nil {
			c33Routes(b)
			built = append(built, b)
		}
	}
	c33Router(r, rng, std)
	if len(built) == 0 {
		return
	}
	for j := 6 + rng.Intn(6); j > 0; j-- {
		c33Use(r, rng, fmt.Sprint(k, "/", j), built[rng.Intn(len(built))], std)
	}
}

func c33Build(r *core.Run, rng *rand.Rand, id string, dirs map[string]*cfgDir, content map[string]map[string]string) *cfgBuilt {
	b := &cfgBuilt{}
	combo := []string{}
	var cfg *gofre.Config
	pattern := ""
	build := func() (*gofre.MuxHandler, error) { return gofre.NewMuxHandler(cfg) }
	switch how := rng.Intn(12); how {
	case 0:
		b.how = "NewMuxHandlerWithDefaultConfig"
		build = gofre.NewMuxHandlerWithDefaultConfig
	case 1, 2:
		// the process ends when the default templates cannot be used, so only with good ones
		if dirs[""].broken {
			return nil
		}
		b.res = true
		if how == 1 {
			b.how = "NewMuxHandlerWithDefaultConfigAndTemplateSupport"
			build = gofre.NewMuxHandlerWithDefaultConfigAndTemplateSupport
		} else {
			b.how = "NewDefaultResourcesConfig"
			cfg = &gofre.Config{ResourcesConfig: gofre.NewDefaultResourcesConfig()}
		}
	default:
		b.how = "NewMuxHandler"
		cfg = &gofre.Config{}
		if rng.Intn(2) == 0 {
			cfg.ContextPath = pick(rng, []string{"/", "/ctx", "/a/b", "/App", "/My/App", "/a/B/cD", "/x/y/z/w"})
			combo = append(combo, "context")
		}
		if rng.Intn(2) == 0 {
			cfg.CaseInsensitivePathMatch = true
			combo = append(combo, "insensitive")
		}
		if rng.Intn(2) == 0 {
			b.own = &errLog{}
			cfg.ErrLogFunc = b.own.log
			combo = append(combo, "log")
		}
		if rng.Intn(4) > 0 {
			b.res = true
			cfg.ResourcesConfig = &gofre.ResourcesConfig{}
			combo = append(combo, "resources")
			if rng.Intn(2) == 0 {
				cfg.ResourcesConfig.AssetsDirPath = pick(rng, []string{"public", "./resources/www", "resources/assets"})
				combo = append(combo, "assets")
			}
			if rng.Intn(2) == 0 {
				cfg.ResourcesConfig.AssetsMappingPath = pick(rng, []string{"static", "files/v1", "as-1"})
				combo = append(combo, "mapping")
			}
			if rng.Intn(2) == 0 {
				pattern = pick(rng, []string{"views/*.html", "resources/v2/*.gohtm", "nowhere/*.html", "views/[.html"})
				cfg.ResourcesConfig.TemplatesPathPattern = pattern
				combo = append(combo, "pattern")
			}
			switch rng.Intn(5) {
			case 0:
				b.custom = &cfgTemplate{mark: "own " + id}
			case 1:
				b.custom = response.NilTemplate{}
			case 2:
				b.custom = template.Must(template.New("").Parse(`{{define "own"}}<u>{{.A}}</u>{{end}}`))
			}
			if b.custom != nil {
				cfg.ResourcesConfig.Template = b.custom
				combo = append(combo, fmt.Sprintf("template %T", b.custom))
			}
		}
		b.ctxPath, b.ci = cfg.ContextPath, cfg.CaseInsensitivePathMatch
	}
	b.assets, b.mapping = "resources/assets", "assets"
	if cfg != nil && cfg.ResourcesConfig != nil && b.how == "NewMuxHandler" {
		if v := cfg.ResourcesConfig.AssetsDirPath; v != "" {
			b.assets = filepath.Clean(v)
		}
		if v := cfg.ResourcesConfig.AssetsMappingPath; v != "" {
			b.mapping = v
		}
	}
	b.content = content[b.assets]
	if b.res && b.custom == nil {
		b.tpl = dirs[pattern]
	}
	b.describe = map[string]any{"case": id, "built_with": b.how, "given": combo, "context": b.ctxPath, "pattern": pattern, "assets": b.assets, "mapping": b.mapping}
	if b.tpl != nil {
		b.describe["templates_broken"] = b.tpl.broken
	}
	var err error
	r.Case("build "+b.how+fmt.Sprint(combo, b.ctxPath, b.assets, b.mapping, pattern), true)
	if !r.Try("building a handler", b.describe, func() { b.m, err = build() }) {
		return nil
	}
	r.Seen("combinations", fmt.Sprint(b.how, combo))
	r.Sample(b.describe)
	if b.res && b.custom == nil && (b.tpl == nil || b.tpl.broken) {
		if b.tpl == nil || b.tpl.ref == nil {
			r.Count("refused_missing", 1)
		} else {
			r.Count("refused_broken", 1)
		}
		if err == nil {
			r.Violate("templates-accepted", "a handler is built although its templates are missing or cannot be parsed", b.describe)
		}
		return nil
	}
	if err != nil || b.m == nil {
		r.Violate("config-refused", fmt.Sprintf("a valid configuration is refused: %v", err), b.describe)
		return nil
	}
	r.Count("built", 1)
	return b
}

// cfgErr is an error of a handler or of a response, with something that
// programs treat specially below it at times.
type cfgErr struct {
	s     string
	cause error
}

func (e *cfgErr) Error() string { return e.s }
func (e *cfgErr) Unwrap() error { return e.cause }

func cfgErrFor(ctx context.Context, id string) error {
	cause, _ := ctx.Value(cfgKey("cause")).(error)
	return &cfgErr{"failed <" + id + ">", cause}
}

func c33Routes(b *cfgBuilt) {
	add := func(m *gofre.MuxHandler, at string) {
		m.HandleGet(at+"/Fail/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return nil, cfgErrFor(ctx, mc.PathVar("id"))
		})
		m.HandleGet(at+"/Broken/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.JsonHttpResponseOK(cfgJson{cfgErrFor(ctx, mc.PathVar("id"))}), nil
		})
		m.HandleGet(at+"/Mixed/Case", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponseOK("mixed"), nil
		})
		m.HandlePost(at+"/tpl", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			d := ctx.Value(cfgKey("tpl")).([2]any)
			return response.TemplateHttpResponseOK(m.ExecutableTemplate(), d[0].(string), d[1]), nil
		})
	}
	add(b.m, "")
	add(b.m.Clone(), "/clone")
	add(b.m.RouteUsingPathPrefix("/pre"), "")
	add(b.m.RouteUsingPathPrefix("/pre").RouteUsingPathPrefix("two").Clone(), "")
}

var cfgWhere = []string{"", "/clone", "/pre", "/pre/two"}

type cfgKey string

// cfgJson cannot be written.
type cfgJson struct{ err error }

func (j cfgJson) MarshalJSON() ([]byte, error) {
	if errors.Is(j.err, errors.ErrUnsupported) {
		return nil, &cfgErr{j.err.Error(), nil} // that one has a meaning for encoding/json
	}
	return nil, j.err
}

func c33Use(r *core.Run, rng *rand.Rand, id string, b *cfgBuilt, std *lockedBuf) {
	where := pick(rng, cfgWhere)
	det := func(extra ...any) map[string]any {
		m := map[string]any{"handler": b.describe, "at": where}
		for k := 0; k+1 < len(extra); k += 2 {
			m[extra[k].(string)] = extra[k+1]
		}
		return m
	}
	do := func(method, p string, ctx context.Context) *httptest.ResponseRecorder {
		q := httptest.NewRequest(method, p, nil)
		if ctx != nil {
			q = q.WithContext(ctx)
		}
		w := httptest.NewRecorder()
		r.Case(id+method+p+fmt.Sprint(b.describe["given"]), true)
		r.Try("serving", det("path", p), func() { b.m.ServeHTTP(w, q) })
		return w
	}
	// what the handler, or one made of it, reports
	m := b.m
	switch rng.Intn(4) {
	case 0:
		m = m.Clone()
		r.Count("derived", 1)
	case 1:
		m = m.RouteUsingPathPrefix("/q")
		r.Count("derived", 1)
	case 2:
		m = m.Clone().RouteUsingPathPrefix("/q").Clone()
		m.CommonMiddlewares(middleware.PanicRecover())
		r.Count("derived", 1)
	}
	c := m.Config()
	wantCtx := b.ctxPath
	if wantCtx == "" {
		wantCtx = "/"
	}
	bad := func(what string) {
		r.Violate("config-"+what, "the effective configuration has another "+what, det("config", fmt.Sprintf("%+v", c)))
	}
	if c.ContextPath != wantCtx {
		bad("context path")
	}
	if c.CaseInsensitivePathMatch != b.ci {
		bad("case sensitivity")
	}
	if c.ErrLogFunc == nil {
		bad("log function")
	}
	if (c.ResourcesConfig != nil) != b.res {
		bad("resources configuration")
	} else if b.res {
		rc := *c.ResourcesConfig
		if filepath.Clean(rc.AssetsDirPath) != b.assets {
			bad("assets directory")
		}
		if rc.AssetsMappingPath != b.mapping {
			bad("assets mapping")
		}
		if b.tpl != nil && rc.TemplatesPathPattern != b.tpl.pattern {
			bad("templates pattern")
		}
		if rc.Template == nil || rc.Template != m.ExecutableTemplate() {
			bad("template")
		}
		if b.custom != nil && rc.Template != b.custom {
			bad("own template")
		}
	} else if m.ExecutableTemplate() != nil {
		r.Violate("template-of-none", "a handler without resources has templates", det())
	}
	// the configuration reported is a copy
	c.ContextPath, c.CaseInsensitivePathMatch, c.ErrLogFunc, c.ResourcesConfig = "/zz", !c.CaseInsensitivePathMatch, nil, nil
	if d := b.m.Config(); d.ContextPath != wantCtx || d.CaseInsensitivePathMatch != b.ci || d.ErrLogFunc == nil || (d.ResourcesConfig != nil) != b.res {
		r.Violate("config-copy", "changing the configuration reported changes the handler's", det())
	}
	// errors
	std.take()
	mark := fmt.Sprint("e", rng.Int63())
	if b.own != nil {
		b.own.take()
	}
	fail := pick(rng, []string{"/Fail/", "/Broken/"})
	ectx := context.Background()
	if rng.Intn(2) == 0 {
		ectx = context.WithValue(ectx, cfgKey("cause"), knownErr(rng))
	}
	if rng.Intn(4) == 0 {
		var cancel func()
		ectx, cancel = context.WithCancel(ectx)
		cancel()
	}
	times := 1 + rng.Intn(8)/7
	for k := 0; k < times; k++ {
		w := do("GET", where+fail+mark, ectx)
		if fail == "/Fail/" && w.Code != 500 {
			r.Violate("error-status", fmt.Sprintf("an error of the handler gives %d", w.Code), det())
		}
	}
	got := std.take()
	want := "failed <" + mark + ">"
	if b.own != nil {
		r.Count("errors_own", 1)
		n, errs := 0, b.own.take()
		for _, e := range errs {
			var ce *cfgErr
			if errors.As(e, &ce) && ce.s == want {
				n++
			}
		}
		if n != times || len(errs) != times {
			r.Violate("own-log", fmt.Sprintf("%d errors were left, the log function given got %d of them, %d calls in all", times, n, len(errs)), det("want", want, "errors", fmt.Sprint(errs)))
		}
		if strings.Contains(got, mark) {
			r.Violate("own-log-and-default", "the error goes to the standard log although a log function is given", det("log", got))
		}
	} else {
		r.Count("errors_default", 1)
		if n := strings.Count(got, want); n != times {
			r.Violate("default-log", fmt.Sprintf("%d errors were left, the default log function reported %d", times, n), det("log", got, "want", want))
		}
	}
	// case
	for _, p := range []string{"/Mixed/Case", "/mixed/cASE"} {
		want := 200
		if p != "/Mixed/Case" && !b.ci {
			want = 404
		}
		if w := do("GET", where+p, nil); w.Code != want {
			r.Violate("case-sensitivity", fmt.Sprintf("%s gives %d instead of %d", p, w.Code, want), det())
		}
	}
	// assets: only under the effective mapping (which paths are taken
	// without regard to case is left to others)
	if b.res && !b.ci {
		prefix := strings.TrimSuffix(wantCtx, "/")
		for f, s := range b.content {
			r.Count("assets", 1)
			w := do("GET", prefix+"/"+b.mapping+"/"+f, nil)
			if w.Code != 200 || w.Body.String() != s {
				r.Violate("assets", fmt.Sprintf("a static resource gives %d", w.Code), det("file", f, "body", clip(w.Body.String())))
			}
			if b.mapping != "assets" {
				if w := do("GET", prefix+"/assets/"+f, nil); w.Code != 404 {
					r.Violate("assets-default-too", fmt.Sprintf("the resources are served under the default mapping although another is given: %d", w.Code), det("file", f))
				}
			}
			if prefix != "" {
				if w := do("GET", "/"+b.mapping+"/"+f, nil); w.Code != 404 {
					r.Violate("assets-context", fmt.Sprintf("the resources are served outside of the context path: %d", w.Code), det("file", f))
				}
			}
		}
	} else if !b.res {
		if w := do("GET", strings.TrimSuffix(wantCtx, "/")+"/assets/a.txt", nil); w.Code != 404 {
			r.Violate("assets-without-resources", fmt.Sprintf("a handler without resources serves a static file: %d", w.Code), det())
		}
	}
	// templates
	if !b.res {
		return
	}
	data := genCfgData(rng)
	var name string
	want = ""
	wantType := "text/plain; charset=utf-8"
	switch t := b.custom.(type) {
	case *cfgTemplate:
		r.Count("own_template", 1)
		name = "any"
		want = fmt.Sprintf("%s|%s|%v", t.mark, name, data)
	case response.NilTemplate:
		r.Count("own_template", 1)
		name = "any"
	case *template.Template:
		r.Count("own_template", 1)
		name, wantType = "own", "text/html; charset=utf-8"
		want = "<u>" + template.HTMLEscapeString(data["A"].(string)) + "</u>"
	case nil:
		name, wantType = pick(rng, b.tpl.names), "text/html; charset=utf-8"
		var sb strings.Builder
		ref, err := b.tpl.ref.Clone()
		if err != nil {
			ref = b.tpl.ref
		}
		if err := ref.ExecuteTemplate(&sb, name, data); err != nil {
			return // a combination of pieces that the standard library refuses
		}
		want = sb.String()
	}
	r.Count("renders", 1)
	w := do("POST", where+"/tpl", context.WithValue(context.Background(), cfgKey("tpl"), [2]any{name, data}))
	if w.Code != 200 || w.Body.String() != want {
		r.Violate("rendering", fmt.Sprintf("a template is rendered otherwise: %d", w.Code), det("name", name, "data", fmt.Sprint(data), "got", clip(w.Body.String()), "want", clip(want)))
	}
	if ct := w.Header().Get("Content-Type"); ct != wantType {
		r.Violate("rendering-type", "a template is rendered as "+ct, det("name", name))
	}
}

// c33Router: the routers that applications build themselves.
func c33Router(r *core.Run, rng *rand.Rand, std *lockedBuf) {
	own := &errLog{}
	for k, rt := range []*router.Router{router.NewRouterWithDefaultConfig(), router.NewRouter(true, nil), router.NewRouter(false, own.log)} {
		rt.Handle(http.MethodGet, "/Fail/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return nil, &cfgErr{"failed <" + mc.PathVar("id") + ">", nil}
		})
		std.take()
		mark := fmt.Sprint("r", rng.Int63())
		w := httptest.NewRecorder()
		q := httptest.NewRequest("GET", "/Fail/"+mark, nil)
		r.Case(fmt.Sprint("router", k, mark), true)
		r.Try("serving", k, func() { rt.ServeHTTP(w, q) })
		got := std.take()
		n := strings.Count(got, "failed <"+mark+">")
		if k == 2 {
			if errs := own.take(); len(errs) != 1 || n != 0 {
				r.Violate("router-own-log", fmt.Sprintf("the router's log function got %d errors, the standard log %d", len(errs), n), nil)
			}
		} else if n != 1 {
			r.Violate("router-default-log", fmt.Sprintf("a router without a log function reported the error %d times", n), map[string]any{"router": k, "log": got})
		}
		r.Count("routers", 1)
		w = httptest.NewRecorder()
		r.Try("serving", k, func() { rt.ServeHTTP(w, httptest.NewRequest("GET", "/fAIL/"+mark, nil)) })
		if (w.Code == 500) != (k == 1) {
			r.Violate("router-case", fmt.Sprintf("a path in another case gives %d", w.Code), map[string]any{"router": k})
		}
		std.take()
	}
}
