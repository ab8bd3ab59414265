package props

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() { register("C30", false, runC30) }

// outsideMark stands in the names and in the bytes of everything that lies
// outside of the directories served.
const outsideMark = "zz-0uts1de-secret"

// fileTree is a directory of static resources, inside of a directory with
// other things.
type fileTree struct {
	base  string            // the scratch directory
	dir   string            // the directory served
	files map[string][]byte // by slash path under dir
	dirs  map[string]bool
	index map[string]bool // directories with an index page
}

var fileNames = []string{"a.txt", "b.css", "app.js", "with space.txt", "é.txt", "plus+name.txt", "per%cent.txt", "%41.txt", "hash#.txt", "q?.txt", "semi;colon.txt", "amp&.txt", ".hidden", "..dots", "dots..txt", "...", "a", "UPPER.TXT", "no_ext", "quote'.txt", "dq\".txt", "colon:.txt", "star*.txt", "{curly}.txt", "tilde~", "at@.png", "comma,.txt", "back\\slash.txt", "%2e%2e", "page.html", "**", "eq=.txt", "$dollar", "[b].txt"}
var dirNames = []string{"css", "img", "d e", "ü", "a.b", "..x", "deep", "**dir", "%2f", "x+y"}

func makeTree(rng *rand.Rand, base, rel string) *fileTree {
	t := &fileTree{base: base, dir: filepath.Join(base, rel), files: map[string][]byte{}, dirs: map[string]bool{"": true}, index: map[string]bool{}}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	put := func(p string, b []byte) {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, b, 0o644))
	}
	must(os.MkdirAll(t.dir, 0o755))
	var fill func(at string, depth int)
	fill = func(at string, depth int) {
		used := map[string]bool{}
		for k := 3 + rng.Intn(10); k > 0; k-- {
			n := pick(rng, fileNames)
			if used[n] {
				continue
			}
			used[n] = true
			b := genBody(rng)
			put(filepath.Join(t.dir, filepath.FromSlash(at), n), b)
			t.files[at+n] = b
		}
		if rng.Intn(4) == 0 {
			b := []byte("index of " + at)
			put(filepath.Join(t.dir, filepath.FromSlash(at), "index.html"), b)
			t.index[at] = true
		}
		if depth > 0 {
			for k := 1 + rng.Intn(3); k > 0; k-- {
				n := pick(rng, dirNames)
				if used[n] {
					continue
				}
				used[n] = true
				must(os.MkdirAll(filepath.Join(t.dir, filepath.FromSlash(at), n), 0o755))
				t.dirs[at+n] = true
				fill(at+n+"/", depth-1)
			}
		}
	}
	fill("", 3)
	// things that must not be seen
	secret := []byte("content of " + outsideMark + "\n")
	for p := t.dir; len(p) > len(base); p = filepath.Dir(p) {
		put(p+"-"+outsideMark+".txt", secret)
		put(p+"s/"+outsideMark+".txt", secret)
		put(filepath.Join(filepath.Dir(p), outsideMark+".txt"), secret)
		put(filepath.Join(filepath.Dir(p), outsideMark, "in.txt"), secret)
	}
	return t
}

func escapePath(p string) string {
	segs := strings.Split(p, "/")
	for k := range segs {
		segs[k] = url.PathEscape(segs[k])
	}
	return strings.Join(segs, "/")
}

// escapeMuch also encodes what needs no encoding.
func escapeMuch(rng *rand.Rand, p string) string {
	var sb strings.Builder
	for _, c := range []byte(p) {
		switch {
		case c == '/':
			sb.WriteByte(c)
		case rng.Intn(2) == 0 || !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.'):
			if rng.Intn(2) == 0 {
				fmt.Fprintf(&sb, "%%%02X", c)
			} else {
				fmt.Fprintf(&sb, "%%%02x", c)
			}
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

func runC30(r *core.Run) {
	r.Rule("scratch trees of files (names with spaces, dots, percent signs, letters of other alphabets, ..) are served under generated mapping and context paths, at a real HTTP/1.1 server and in memory: every file is requested in several encodings and with ranges, names that do not exist too; " +
		"hostile paths mix every encoding of dots, slashes and backslashes with the names of marked files that lie beside and above the directory. Monitors compare bytes and search each answer for the mark. A case is one request; all are non-trivial")
	r.Require("files", 3000)
	r.Require("ranges", 1500)
	r.Require("missing", 1000)
	r.Require("hostile", 20000)
	r.Require("hostile_raw", 5000)
	r.Require("hostile_served", 50)
	r.Require("configs", 20)
	r.Require("changes", 200)
	r.Require("large_files", 10)
	scratch, err := os.MkdirTemp("", "c30-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	n := r.N(40, 300)
	for k := 0; k < n && !r.TooMany(); k++ {
		c30Config(r, k, scratch)
	}
}

func c30Config(r *core.Run, k int, scratch string) {
	rng := r.Rand("c30", k)
	base := filepath.Join(scratch, fmt.Sprint("t", k))
	rel := pick(rng, []string{"assets", "resources/assets", "x/public", "www.d"})
	mapping := pick(rng, []string{"assets", "static", "a/b", "s-1", "files/v1/x", "Assets", "as.sets"})
	ctxPath := pick(rng, []string{"", "/", "/ctx", "/a/b", "/app.v1", "/My/App", "/a/B/cD", "/X", "/v1.2-x_y~z"})
	if k == 0 {
		rel, mapping, ctxPath = "resources/assets", "", ""
	}
	tree := makeTree(rng, base, rel)
	tplDir := filepath.Join(base, "resources", "templates")
	if err := os.MkdirAll(tplDir, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(tplDir, "p.html"), []byte(`{{define "p"}}<b>{{.}}</b>{{safe "<!-- `+outsideMark[:2]+`x -->"}}{{end}}`), 0o644); err != nil {
		panic(err)
	}
	el := &errLog{}
	ci := rng.Intn(5) == 0
	cfg := &gofre.Config{ContextPath: ctxPath, CaseInsensitivePathMatch: ci, ErrLogFunc: el.log, ResourcesConfig: &gofre.ResourcesConfig{
		TemplatesPathPattern: filepath.Join(tplDir, "*.html"), AssetsDirPath: tree.dir, AssetsMappingPath: mapping}}
	m, err := gofre.NewMuxHandler(cfg)
	if err != nil {
		r.Violate("config", "a configuration with static resources is refused: "+err.Error(), map[string]any{"context": ctxPath, "mapping": mapping})
		return
	}
	if mapping == "" {
		mapping = "assets"
	}
	prefix := ctxPath
	if prefix == "/" {
		prefix = ""
	}
	prefix += "/" + mapping + "/"
	// routes of the application beside
	m.HandleGet("/app/{id}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.PlainTextHttpResponseOK("app " + mc.PathVar("id")), nil
	})
	m.HandleGet("/tpl", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return response.TemplateHttpResponseOK(m.ExecutableTemplate(), "p", "<x>"), nil
	})
	r.Seen("configs", fmt.Sprint(rel, mapping, ctxPath, ci))
	conf := map[string]any{"directory": rel, "mapping": mapping, "context": ctxPath, "case_insensitive": ci}
	for _, proto := range []string{"h1", "h2"} {
		ts := startServer(m, proto)
		if a := ts.get("/tpl"); a.Err != nil || a.Code != 200 || string(a.Body) != "<b>&lt;x&gt;</b><!-- zzx -->" {
			r.Violate("template", fmt.Sprintf("a template of the resources is not rendered: %d %q %v", a.Code, a.Body, a.Err), conf)
		}
		if !ci {
			c30Files(r, k, ts, tree, prefix, proto, conf)
			c30Changes(r, k, ts, tree, prefix, proto, conf)
		}
		if proto == "h1" {
			c30Raw(r, k, ts, tree, prefix, conf)
		}
		if isPanicLog(ts.Log.String()) {
			r.Violate("server-panic", "a request for a static resource made the server panic", map[string]any{"log": clip(ts.Log.String()), "config": conf})
		}
		ts.stop()
	}
	c30Memory(r, k, m, tree, prefix, conf)
}

func c30Files(r *core.Run, k int, ts *testServer, tree *fileTree, prefix, proto string, conf any) {
	var names []string
	for n := range tree.files {
		names = append(names, n)
	}
	sortStrings(names)
	reps := r.N(6, 20)
	parallel(r, "files "+proto, len(names)*reps, func(i int) {
		n := names[i/reps]
		rng := r.Rand(fmt.Sprintf("c30f%d%s", k, proto), i)
		want := tree.files[n]
		p := escapePath(n)
		if rng.Intn(2) == 0 {
			p = escapeMuch(rng, n)
		}
		q := ts.req("GET", "/", nil)
		u, err := url.Parse(ts.URL + prefix + p + pick(rng, []string{"", "", "?v=1", "?../../x"}))
		if err != nil {
			panic(err)
		}
		q.URL = u
		from, to, ranged := 0, len(want)-1, false
		size := len(want)
		code := 200
		if rng.Intn(3) == 0 && size > 0 {
			ranged = true
			code = 206
			switch rng.Intn(4) {
			case 0:
				from = rng.Intn(size)
				to = from + rng.Intn(size-from)
				q.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", from, to))
			case 1:
				from = rng.Intn(size)
				q.Header.Set("Range", fmt.Sprintf("bytes=%d-", from))
			case 2:
				l := 1 + rng.Intn(size)
				from = size - l
				q.Header.Set("Range", fmt.Sprintf("bytes=-%d", l))
			case 3:
				q.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", size+rng.Intn(10), size+50))
				code = 416
			}
			r.Count("ranges", 1)
		}
		a := ts.do(q)
		r.Count("files", 1)
		r.Case(fmt.Sprint(k, proto, p, q.Header), true)
		det := func() any {
			return map[string]any{"config": conf, "file": n, "url": u.String(), "range": q.Header.Get("Range"), "status": a.Code, "headers": a.Header, "body": clip(string(a.Body)), "error": fmt.Sprint(a.Err)}
		}
		if a.Err != nil {
			r.Violate("file-transport", "a file cannot be received: "+a.Err.Error(), det())
			return
		}
		if a.Code != code {
			r.Violate(fmt.Sprintf("file-status-%d", a.Code), fmt.Sprintf("an existing file gives %d instead of %d", a.Code, code), det())
			return
		}
		if code != 416 {
			if !bytes.Equal(a.Body, want[from:to+1]) {
				r.Violate("file-bytes", fmt.Sprintf("the bytes are not those of the file: %d instead of %d, first difference at %d", len(a.Body), to+1-from, diffAt(a.Body, want[from:to+1])), det())
			}
			if ranged && a.Header.Get("Content-Range") != fmt.Sprintf("bytes %d-%d/%d", from, to, size) {
				r.Violate("file-range", "the range announced is not the one asked for", det())
			}
		}
		// a name that is none
		miss := n + pick(rng, []string{"x", ".bak", "/x", "/" + outsideMark + ".txt", "%", "~"})
		switch rng.Intn(4) {
		case 0:
			miss = "missing/" + n
		case 1:
			miss = strings.ToUpper(n) + "Q"
		}
		if _, ok := tree.files[miss]; ok || tree.dirs[miss] {
			return
		}
		r.Count("missing", 1)
		u2, err := url.Parse(ts.URL + prefix + escapePath(miss))
		if err != nil {
			panic(err)
		}
		q = ts.req("GET", "/", nil)
		q.URL = u2
		b := ts.do(q)
		r.Case(fmt.Sprint(k, proto, u2), true)
		if b.Err != nil || b.Code != 404 {
			r.Violate("missing", fmt.Sprintf("a name that is no file gives %d instead of 404", b.Code), map[string]any{"config": conf, "url": u2.String(), "status": b.Code, "body": clip(string(b.Body)), "error": fmt.Sprint(b.Err)})
		}
	})
}

var climbing = []string{"..", "..", "..", ".", "", "%2e%2e", "%2E%2e", ".%2e", "%2e.", "..%2f..", "..%2F", "%2f..", "..%5c..", "..\\..", "\\..", "%5c..", "%252e%252e", "..;", "..;x=y", "..%00", "%00..", "..%3b", "%c0%ae%c0%ae", "..%c0%af..", "...", "....", "%2e", "//..", "..//", "..%20", "%20..", "~", "%2e%2e%2f", "..?", "..#"}

// genHostile makes a path that climbs out of the directory if it can.
func genHostile(rng *rand.Rand, tree *fileTree, prefix string) string {
	var segs []string
	var dirs []string
	for d := range tree.dirs {
		dirs = append(dirs, d)
	}
	sortStrings(dirs)
	if rng.Intn(2) == 0 {
		segs = append(segs, escapePath(pick(rng, dirs)))
	}
	style := pick(rng, climbing)
	for k := 1 + rng.Intn(6); k > 0; k-- {
		if rng.Intn(3) == 0 {
			segs = append(segs, pick(rng, climbing))
		} else {
			segs = append(segs, style)
		}
	}
	var goal string
	relDir := strings.TrimPrefix(tree.dir, tree.base)
	last := relDir[strings.LastIndexByte(relDir, '/')+1:]
	switch rng.Intn(8) {
	case 0, 1, 2:
		goal = outsideMark + ".txt"
	case 3:
		goal = last + "-" + outsideMark + ".txt"
	case 4:
		goal = last + "s/" + outsideMark + ".txt"
	case 5:
		goal = outsideMark + "/in.txt"
	case 6:
		goal = "" // a listing
	case 7:
		goal = strings.TrimPrefix(tree.base, "/") + "/" + outsideMark + ".txt"
	}
	segs = append(segs, goal)
	sep := "/"
	if rng.Intn(5) == 0 {
		sep = pick(rng, []string{"%2f", "%2F", "\\", "%5c", "//", "/./", "%2f%2f"})
	}
	p := strings.Join(segs, sep)
	switch rng.Intn(6) {
	case 0:
		return strings.TrimSuffix(prefix, "/") + p // the suffix glued to the prefix: /assets-secret, /assets../
	case 1:
		return strings.TrimSuffix(prefix, "/") + pick(rng, []string{"..", "%2e%2e", ".", "s", "-", "//", "/%2f", "%2f", "/\\"}) + "/" + p
	case 2:
		return "/" + pick(rng, climbing) + prefix + p
	}
	return prefix + p
}

func judgeHostile(tree *fileTree, code int, h http.Header, body []byte, p string) string {
	if bytes.Contains(body, []byte(outsideMark)) {
		// the name itself may come back where the request is repeated in the answer
		if bytes.Contains(body, []byte("content of "+outsideMark)) {
			return "the answer contains a file from outside of the directory"
		}
		if code == 200 {
			return "the answer lists what lies outside of the directory"
		}
	}
	if code == 200 && (bytes.Contains(body, []byte("root:x:0")) || bytes.Contains(body, []byte("<a href=\"bin/\">"))) {
		return "the answer comes from the file system of the server"
	}
	if code == 200 && !bytes.HasPrefix(body, []byte("<!doctype html>")) && !bytes.HasPrefix(body, []byte("<pre>")) && !bytes.HasPrefix(body, []byte("index of ")) && !bytes.HasPrefix(body, []byte("app ")) && !bytes.HasPrefix(body, []byte("<b>&lt;x")) {
		for _, b := range tree.files {
			if bytes.Equal(b, body) {
				return ""
			}
		}
		return "the answer is none of the files of the directory"
	}
	return ""
}

// c30Changes changes files while the application runs: what is served is what
// is there now. Some are large.
func c30Changes(r *core.Run, k int, ts *testServer, tree *fileTree, prefix, proto string, conf any) {
	rng := r.Rand("c30ch"+proto, k)
	dir := filepath.Join(tree.dir, "changing")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var old []string
	seen := time.Now().Add(-48 * time.Hour)
	for step := 0; step < 12; step++ {
		name := fmt.Sprintf("f%d.txt", rng.Intn(3))
		p := filepath.Join(dir, name)
		var want []byte
		what := pick(rng, []string{"write", "write", "same size", "replace", "remove", "none"})
		if step == 5 && rng.Intn(3) == 0 {
			what = "large"
		}
		cur, err := os.ReadFile(p)
		there := err == nil
		want = cur
		switch what {
		case "write":
			want, there = genBody(rng), true
		case "same size":
			want, there = randBytes(rng, len(cur)+1)[:len(cur)], true
		case "large":
			want, there = bytes.Repeat([]byte("large file "), pickInt(rng, 100000, 400000, 1000000, 1700000)), true
			r.Count("large_files", 1)
		case "replace":
			want, there = genBody(rng), true
			if err := os.WriteFile(p+".new", want, 0o644); err != nil {
				panic(err)
			}
			if err := os.Rename(p+".new", p); err != nil {
				panic(err)
			}
		case "remove":
			os.Remove(p)
			there = false
		}
		if what == "write" || what == "same size" || what == "large" {
			if err := os.WriteFile(p, want, 0o644); err != nil {
				panic(err)
			}
		}
		if there && what != "none" {
			// (the times of the files need not tell them apart)
			seen = seen.Add(time.Duration(1+rng.Intn(3)) * time.Hour)
			if rng.Intn(2) == 0 {
				os.Chtimes(p, seen, seen)
			}
		}
		old = append(old, what+" "+name)
		a := ts.get(prefix + "changing/" + name)
		r.Count("changes", 1)
		r.Case(fmt.Sprint("change", k, proto, step), true)
		if there && (a.Err != nil || a.Code != 200 || !bytes.Equal(a.Body, want)) || !there && (a.Err != nil || a.Code != 404) {
			r.Violate("changed-file", fmt.Sprintf("after a file was changed (%s) the answer is not what is there: %d with %d bytes of %d (%v)", what, a.Code, len(a.Body), len(want), a.Err), map[string]any{"config": conf, "history": old, "proto": proto})
			return
		}
	}
}

// c30Raw writes hostile request lines to real connections.
func c30Raw(r *core.Run, k int, ts *testServer, tree *fileTree, prefix string, conf any) {
	addr := ts.Listener.Addr().String()
	n := r.N(1500, 10000)
	lanes := 8
	parallel(r, "raw", lanes, func(lane int) {
		var c net.Conn
		var br *bufio.Reader
		defer func() {
			if c != nil {
				c.Close()
			}
		}()
		for i := lane; i < n && !r.TooMany(); i += lanes {
			rng := r.Rand(fmt.Sprintf("c30r%d", k), i)
			p := genHostile(rng, tree, prefix)
			line := p
			switch rng.Intn(10) {
			case 0:
				line = "http://x.test" + p
			case 1:
				line = strings.ReplaceAll(p, "//", "/")
			}
			if strings.ContainsAny(line, " \r\n") {
				continue
			}
			r.Begin("raw %d/%d %q", k, i, line)
			if c == nil {
				var err error
				if c, err = net.Dial("tcp", addr); err != nil {
					panic(err)
				}
				br = bufio.NewReader(c)
			}
			c.SetDeadline(time.Now().Add(60 * time.Second))
			fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x.test\r\n\r\n", line)
			resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
			if err != nil {
				c.Close()
				c = nil
				r.Count("hostile_refused", 1)
				continue
			}
			body, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.Close || err != nil || resp.StatusCode == 400 {
				c.Close()
				c = nil
			}
			r.Count("hostile", 1)
			r.Count("hostile_raw", 1)
			if resp.StatusCode == 200 {
				r.Count("hostile_served", 1)
			}
			r.Case(fmt.Sprint(k, line), true)
			if why := judgeHostile(tree, resp.StatusCode, resp.Header, body, p); why != "" {
				r.Violate("outside:"+sigOf(why), why, map[string]any{"config": conf, "request_line": "GET " + line + " HTTP/1.1", "status": resp.StatusCode, "body": clip(string(body))})
			}
		}
	})
}

// c30Memory passes URLs that no client would send.
func c30Memory(r *core.Run, k int, m handlerOnly, tree *fileTree, prefix string, conf any) {
	parallel(r, "memory", r.N(2500, 20000), func(i int) {
		rng := r.Rand(fmt.Sprintf("c30m%d", k), i)
		p := genHostile(rng, tree, prefix)
		u := &url.URL{Path: p}
		raw := "raw"
		switch rng.Intn(3) {
		case 0: // decoded as a server would
			if d, err := url.PathUnescape(p); err == nil {
				u.Path, u.RawPath = d, p
				raw = "decoded"
			}
		case 1: // decoded twice, as a careless proxy would
			if d, err := url.PathUnescape(p); err == nil {
				if e, err := url.PathUnescape(d); err == nil {
					u.Path = e
					raw = "decoded twice"
				}
			}
		}
		q := &http.Request{Method: "GET", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "x.test", RequestURI: p, Body: http.NoBody, RemoteAddr: "192.0.2.1:1"}
		noise(q.Header, p)
		q = q.WithContext(context.Background())
		w := &faultWriter{h: http.Header{}, left: 1 << 30}
		pan, st := core.Guard(func() { m.ServeHTTP(w, q) })
		code := 200
		if len(w.codes) > 0 {
			code = w.codes[0]
		}
		r.Count("hostile", 1)
		if code == 200 && w.b.Len() > 0 {
			r.Count("hostile_served", 1)
		}
		r.Case(fmt.Sprint("m", k, raw, p), true)
		det := map[string]any{"config": conf, "path": u.Path, "raw_path": u.RawPath, "made": raw, "status": code, "body": clip(w.b.String()), "stack": st}
		if pan != nil {
			r.Violate("panic", fmt.Sprintf("a path made the server panic: %v", pan), det)
			return
		}
		if why := judgeHostile(tree, code, w.h, w.b.Bytes(), p); why != "" && w.b.Len() > 0 {
			r.Violate("outside:"+sigOf(why), why, det)
		}
	})
}

type handlerOnly interface {
	ServeHTTP(w http.ResponseWriter, r *http.Request)
}

func sortStrings(s []string) { sort.Strings(s) }
