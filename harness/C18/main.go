// C18: static file serving maps paths faithfully and never leaves its root.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

// files below the root, by relative path
var files = map[string]string{
	"a.html":         "<a>",
	"b":              "no extension",
	"sub/c.css":      "c{}",
	"sub/a.html":     "another a",
	"sub/deep/d.js":  "d()",
	"empty.json":     "",
	".hidden":        "hidden",
	"a..b":           "dots",
	"x y%z.png":      "spaces",
	"big.pdf":        strings.Repeat("0123456789abcdef", 5000),
	"static/in.svg":  "the prefix again",
	"sub.d/e.tar.gz": "two extensions",
	"unknown.ext":    "unknown",
}

// files that must never be served
var secrets = []string{"a.html", "secret", "b", "rootx/a.html", "root.html", "roota.html", "rootb"}

// the media types of the extensions which are known; parameters may follow
var types = map[string]string{".avif": "image/avif", ".css": "text/css", ".gif": "image/gif", ".htm": "text/html", ".html": "text/html", ".jpeg": "image/jpeg", ".jpg": "image/jpeg",
	".js": "text/javascript", ".json": "application/json", ".mjs": "text/javascript", ".pdf": "application/pdf", ".png": "image/png", ".svg": "image/svg+xml", ".wasm": "application/wasm",
	".webp": "image/webp", ".xml": "text/xml", ".gz": "application/gzip", ".sql": "application/sql", ".tzif": "application/tzif", ".yaml": "application/yaml", ".xfdf": "application/xfdf",
	".zip": "application/zip", ".zlib": "application/zlib", ".zstd": "application/zstd", ".ico": "image/vnd.microsoft.icon"}

// texts are the types whose encoding is told, as without that clients would guess it
var texts = map[string]bool{"text/css": true, "text/html": true, "text/javascript": true, "text/xml": true}

// large are sizes of files, kept below the directory "large"
var large []int

var root string

// prepare makes the tree in the scratch directory of the check, which is removed by run.sh.
func prepare() error {
	for ext := range types {
		files["types/f"+ext] = "the file of " + ext
		files["types/two"+ext+ext] = "another one"
		files["types/x"+ext+".ext"] = "unknown"
		files["types"+ext+"/f"] = "no extension below " + ext
	}
	pattern := make([]byte, 3<<20)
	for i := range pattern {
		pattern[i] = byte(i) ^ byte(i>>8) ^ byte(i>>16)
	}
	large = mc.Ladder(1<<20 + 1)
	for _, n := range large {
		files[fmt.Sprintf("large/%d.zip", n)] = string(pattern[n%251 : n%251+n])
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "static")
	if err != nil {
		return err
	}
	base := filepath.Join(dir, "1", "2", "3")
	root = filepath.Join(base, "root")
	write := func(p, s string) {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	for p, s := range files {
		write(filepath.Join(root, p), s)
	}
	for _, p := range secrets {
		write(filepath.Join(base, p), "SECRET "+p)
		write(filepath.Join(base, "..", p), "SECRET upper "+p)
	}
	return os.Chdir(base)
}

// feed is a connection that makes each request when it is asked for it.
type feed struct {
	*srv.Conn
	n, at int
	next  func(i int) []byte
}

func (f *feed) Read(b []byte) (int, error) {
	if f.at == f.n {
		return 0, io.EOF
	}
	f.at++
	return copy(b, f.next(f.at-1)), nil
}

func unhex(c byte) int { return strings.IndexByte("0123456789abcdef", c|0x20) }

func decode(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b = append(b, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		b = append(b, byte(unhex(s[i+1])<<4|unhex(s[i+2])))
		i += 2
	}
	return string(b), true
}

// reference finds the file a path below the prefix denotes. free tells that both serving and refusing is fine.
func reference(rel string) (name string, ok, free bool) {
	free = strings.Contains(rel, "..")
	if strings.ContainsRune(rel, 0) {
		return "", false, false
	}
	var segs []string
	for _, s := range strings.Split(rel, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) == 0 {
				return "", false, false
			}
			// the directory must exist
			if st, err := os.Stat(filepath.Join(root, strings.Join(segs, "/"))); err != nil || !st.IsDir() {
				return "", false, false
			}
			segs = segs[:len(segs)-1]
		default:
			segs = append(segs, s)
		}
	}
	name = strings.Join(segs, "/")
	_, ok = files[name]
	if strings.HasSuffix(rel, "/.") && ok {
		// a file is no directory
		return "", false, false
	}
	// a file may not be used as a directory
	return name, ok, free
}

type site struct {
	name   string
	prefix string // the whole prefix, without a trailing slash
	rt     router.Router
}

// sites are ways of declaring static files.
func sites() (out []site) {
	add := func(name, prefix string, f func(r *inbuilt.Router)) {
		r := inbuilt.New()
		r.Get("/page", func(q *http.Request) *http.Response { return q.Respond().Code(299) })
		f(r)
		out = append(out, site{name, prefix, r.Initialize()})
	}
	add("absolute root", "/static", func(r *inbuilt.Router) { r.Static("/static", root) })
	add("at the root path", "", func(r *inbuilt.Router) { r.Static("/", root) })
	add("relative root", "/static", func(r *inbuilt.Router) { r.Static("/static", "./root") })
	add("root with slash", "/static", func(r *inbuilt.Router) { r.Static("/static/", root+"/") })
	add("short root, long prefix", "/a/very/long/prefix/for/a/short/root", func(r *inbuilt.Router) { r.Static("/a/very/long/prefix/for/a/short/root", "root") })
	add("group", "/g/h", func(r *inbuilt.Router) { r.Group("/g").Static("/h", root) })
	add("resource", "/res/s", func(r *inbuilt.Router) { r.Resource("/res").Static("/s", root) })
	add("dynamic", "/static", func(r *inbuilt.Router) {
		r.Static("/static", "root/").Get("/dyn/{x}", func(q *http.Request) *http.Response { return q.Respond() })
	})
	add("two", "/static", func(r *inbuilt.Router) {
		r.Static("/static", root).Static("/static2", root+"/sub").Static("/sta", root+"/sub")
	})
	return out
}

// fetch asks for raw (the encoded path) with GET or HEAD.
func fetch(c *mc.C, key string, s site, raw, method string) (*srv.Response, error) {
	conn := srv.NewConn([]byte(method + " " + raw + " HTTP/1.1\r\n\r\n"))
	if err := srv.Serve(srv.Config(), conn, 0, s.rt); err != nil {
		return nil, mc.Failf(key, "%v", err)
	}
	c.Step()
	if strings.Contains(conn.Out.String(), "SECRET") {
		return nil, mc.Failf(key, "a file outside of the root is served: %q", conn.Out.String())
	}
	rs, err := srv.ParseAll(conn.Out.Bytes(), method == "HEAD")
	if err != nil || len(rs) != 1 {
		return nil, mc.Failf(key, "%d responses (%v): %q", len(rs), err, conn.Out.String())
	}
	return rs[0], nil
}

func check(c *mc.C, s site, tail, method string) error {
	raw := s.prefix + "/" + tail
	key := fmt.Sprintf("%s: %s %s", s.name, method, raw)
	c.Note("%s", key)
	got, err := fetch(c, key, s, raw, method)
	if err != nil {
		return err
	}
	c.State(fmt.Sprintf("%s %d %d", s.name, got.Code, len(got.Body)))
	target, _, _ := strings.Cut(raw, "?")
	path, ok := decode(target)
	if !ok {
		if got.Code != 400 {
			return mc.Failf(key, "%d instead of 400", got.Code)
		}
		return nil
	}
	for len(path) > 1 && strings.HasSuffix(path, "/") {
		path = path[:len(path)-1]
	}
	if len(path) <= len(s.prefix) {
		if got.Code != 404 {
			return mc.Failf(key, "%d for the root directory", got.Code)
		}
		return nil
	}
	name, exists, free := reference(path[len(s.prefix)+1:])
	if got.Code == 404 {
		if exists && !free {
			return mc.Failf(key, "404, and the file %s exists", name)
		}
		return nil
	}
	if got.Code != 200 || !exists {
		return mc.Failf(key, "%d with %d bytes, and the file exists: %v", got.Code, len(got.Body), exists)
	}
	want := files[name]
	if method == "HEAD" {
		want = ""
		if n := len(files[name]); n > 0 && got.Value("Content-Length") != fmt.Sprint(n) {
			return mc.Failf(key, "the length is %q, not %d", got.Value("Content-Length"), n)
		}
	}
	if got.Body != want {
		return mc.Failf(key, "%d bytes that are not those of %s", len(got.Body), name)
	}
	typ := types[filepath.Ext(name)]
	if typ == "" {
		typ = "application/octet-stream"
	}
	ct, params, _ := strings.Cut(got.Value("Content-Type"), ";")
	if ct != typ || texts[typ] && strings.ToLower(strings.TrimSpace(params)) != "charset=utf-8" || !texts[typ] && params != "" && typ != "application/octet-stream" {
		return mc.Failf(key, "the media type of %s is %q", name, ct)
	}
	return nil
}

func main() {
	if err := prepare(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	mc.Main("C18", func(r *mc.R) {
		r.Assume("names with two dots in a row may be refused although the file exists; the tree has no symbolic links and no special files")
		all := sites()
		tokens := []string{"/", "..", ".", "a.html", "sub", "b", "%2e", "%2F", "%2E%2e/", "secret", "root", "../", "x", "a..b"}
		depth := mc.Bound(r, 5, 6)
		r.Space("paths", func(c *mc.C) error {
			s := mc.Pick(c, all[:3])
			var b strings.Builder
			for n := c.Choose(depth + 1); n > 0; n-- {
				b.WriteString(mc.Pick(c, tokens))
			}
			return check(c, s, b.String(), "GET")
		})
		r.Space("sites", func(c *mc.C) error {
			s := mc.Pick(c, all)
			var b strings.Builder
			for n := c.Choose(4); n > 0; n-- {
				b.WriteString(mc.Pick(c, tokens))
			}
			return check(c, s, b.String(), mc.Pick(c, []string{"GET", "HEAD"}))
		})
		var names []string
		for p := range files {
			names = append(names, p)
		}
		sortStrings(names)
		r.Space("files", func(c *mc.C) error {
			s := mc.Pick(c, all)
			name := mc.Pick(c, names)
			var b strings.Builder
			how := c.Choose(4)
			for i := 0; i < len(name); i++ {
				switch {
				case name[i] == ' ' || name[i] == '%' || how == 1:
					fmt.Fprintf(&b, "%%%02X", name[i])
				case how == 2 && name[i] == '/':
					b.WriteString("//")
				case how == 3 && name[i] == '/':
					b.WriteString("/./")
				default:
					b.WriteByte(name[i])
				}
			}
			return check(c, s, b.String()+mc.Pick(c, []string{"", "/", "x", "%00", "%00.html", "/x", "?q=../../secret"})[:], mc.Pick(c, []string{"GET", "HEAD"}))
		})
		var exts []string
		for e := range types {
			exts = append(exts, e)
		}
		sortStrings(exts)
		r.Space("media types", func(c *mc.C) error {
			e := mc.Pick(c, exts)
			return check(c, mc.Pick(c, all), mc.Pick(c, []string{"types/f" + e, "types/two" + e + e, "types/x" + e + ".ext", "types" + e + "/f", "types/f%2" + fmt.Sprintf("E%s", e[1:])}), mc.Pick(c, []string{"GET", "HEAD"}))
		})
		// files of every order of magnitude, several on a connection, sent through buffers of several sizes
		r.Space("large files", func(c *mc.C) error {
			n := mc.Pick(c, large)
			then := mc.Pick(c, []string{"/static/a.html", "/static/large/0.zip", "/static/large/70.zip", fmt.Sprintf("/static/large/%d.zip", n), "/page", "/none"})
			cfg := srv.Config()
			cfg.HTTP.FileBuffSize = mc.Pick(c, []int{cfg.HTTP.FileBuffSize, 16, 1000, 1 << 16, 1 << 21})
			if cfg.HTTP.FileBuffSize == 16 && n > 70000 {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("a file of %d bytes through a buffer of %d, then %s", n, cfg.HTTP.FileBuffSize, then)
			c.Note("%s", key)
			conn := srv.NewConn([]byte(fmt.Sprintf("GET /static/large/%d.zip HTTP/1.1\r\n\r\nGET %s HTTP/1.1\r\n\r\nHEAD /static/large/%d.zip HTTP/1.1\r\n\r\n", n, then, n)))
			if err := srv.Serve(cfg, conn, 0, all[0].rt); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(3)
			c.State(key)
			rs, err := srv.ParseAll(conn.Out.Bytes(), false, false, true)
			if err != nil || len(rs) != 3 {
				return mc.Failf(key, "%d responses, %v", len(rs), err)
			}
			want := files[fmt.Sprintf("large/%d.zip", n)]
			if rs[0].Code != 200 || rs[0].Body != want || rs[0].Value("Content-Type") != "application/zip" {
				return mc.Failf(key, "%d with %d bytes as %q", rs[0].Code, len(rs[0].Body), rs[0].Value("Content-Type"))
			}
			body, exists := files[strings.TrimPrefix(then, "/static/")]
			code := 200
			if then == "/page" {
				code = 299
			} else if !exists {
				code = 404
			}
			if rs[1].Code != code || exists && rs[1].Body != body {
				return mc.Failf(key, "the next one is %d with %d bytes", rs[1].Code, len(rs[1].Body))
			}
			if rs[2].Code != 200 || rs[2].Body != "" || n > 0 && rs[2].Value("Content-Length") != fmt.Sprint(n) {
				return mc.Failf(key, "HEAD is answered with %d, %d bytes, a length of %q", rs[2].Code, len(rs[2].Body), rs[2].Value("Content-Length"))
			}
			return nil
		})
		r.Space("every byte", func(c *mc.C) error {
			s := mc.Pick(c, all[:2])
			x := fmt.Sprintf("%%%02x", c.Choose(256))
			return check(c, s, mc.Pick(c, []string{x, x + x + "/secret", "sub/" + x + "/a.html", "." + x + "/secret", "a.html" + x, ".." + x + "secret", x + "a.html"}), "GET")
		})
		// the prefix consists of whole segments, and other paths are not affected
		r.Space("other paths", func(c *mc.C) error {
			s := mc.Pick(c, all)
			p := mc.Pick(c, []string{"/page", "/staticx/a.html", "/statica.html", "/static.html", "/static..", "/static../secret", "/static2/../secret", "/stat/a.html", "/", "/../secret", "/%2e%2e/secret",
				"/stati%63/a.html", "/STATIC/a.html", "/g/ha.html", "/g/h..", "/g/static/a.html", "/h/a.html", "/res/a.html", "/res/s/../a.html", "/static2a.html", "/sta/a.html", "/sta/c.css", "/static2/c.css"})
			key := fmt.Sprintf("%s: %s", s.name, p)
			c.Note("%s", key)
			got, err := fetch(c, key, s, p, "GET")
			if err != nil {
				return err
			}
			want := ""
			switch {
			case p == "/page":
				if got.Code != 299 {
					return mc.Failf(key, "%d instead of the handler's answer", got.Code)
				}
				return nil
			case s.name == "two" && p == "/sta/a.html":
				want = "another a"
			case s.name == "two" && (p == "/sta/c.css" || p == "/static2/c.css"):
				want = "c{}"
			case s.prefix == "/static" && p == "/stati%63/a.html":
				want = "<a>"
			}
			if want == "" && got.Code != 404 || want != "" && (got.Code != 200 || got.Body != want) {
				return mc.Failf(key, "%d with %d bytes", got.Code, len(got.Body))
			}
			return nil
		})
		// a byte in place of the slash behind the prefix
		r.Space("beside the prefix", func(c *mc.C) error {
			s := mc.Pick(c, all)
			b := byte(c.Choose(256))
			tail := mc.Pick(c, []string{"a.html", "sub/b", "b", "sub/a.html", ""})
			if b == '/' || b == 0 || s.prefix == "" {
				return mc.ErrSkip
			}
			p := s.prefix + fmt.Sprintf("%%%02x", b) + tail
			key := fmt.Sprintf("%s: %s", s.name, p)
			c.Note("%s", key)
			got, err := fetch(c, key, s, p, mc.Pick(c, []string{"GET", "HEAD"}))
			if err != nil {
				return err
			}
			if s.name == "two" && b == '2' && tail == "" {
				return nil
			}
			if got.Code != 404 {
				return mc.Failf(key, "%d with %d bytes", got.Code, len(got.Body))
			}
			return nil
		})
		// files change while the server runs: what is served is what the file has by then
		r.Space("changing files", func(c *mc.C) error {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "changing")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			path := filepath.Join(dir, "f.css")
			rt := inbuilt.New().Static("/static", dir).Initialize()
			type step struct {
				do   int
				head bool
			}
			var steps []step
			var heads []bool
			for n := 1 + c.Choose(mc.Bound(r, 3, 4)); n > 0; n-- {
				st := step{c.Choose(8), c.Bool()}
				steps = append(steps, st)
				heads = append(heads, st.head)
			}
			var contents []string
			var exist []bool
			change := func(i int) {
				content, exists := "", true
				_ = os.RemoveAll(path)
				switch do := steps[i].do; do {
				case 0:
					exists = false
				case 1:
					exists = false
					if err := os.Mkdir(path, 0o755); err != nil {
						panic(err)
					}
				default:
					content = strings.Repeat(string(rune('a'+i)), []int{0, 1, 5, 5, 100, 70000}[do-2])
					if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
						panic(err)
					}
					if do >= 4 {
						// the time tells nothing
						_ = os.Chtimes(path, time.Unix(1e9, 0), time.Unix(1e9, 0))
					}
				}
				contents, exist = append(contents, content), append(exist, exists)
			}
			// the requests share a connection, or each has one of its own
			shared := c.Bool()
			key := fmt.Sprintf("%v, one connection: %v", steps, shared)
			c.Note("%s", key)
			c.Steps(len(steps))
			c.State(key)
			request := func(i int) []byte {
				return []byte(map[bool]string{false: "GET", true: "HEAD"}[heads[i]] + " /static/f.css HTTP/1.1\r\n\r\n")
			}
			var rs []*srv.Response
			if shared {
				conn := &feed{Conn: srv.NewConn(), n: len(steps), next: func(i int) []byte { change(i); return request(i) }}
				if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
					return mc.Failf(key, "%v", err)
				}
				if rs, err = srv.ParseAll(conn.Out.Bytes(), heads...); err != nil {
					return mc.Failf(key, "%v", err)
				}
			} else {
				for i := range steps {
					change(i)
					conn := srv.NewConn(request(i))
					if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
						return mc.Failf(key, "%v", err)
					}
					r1, err := srv.ParseAll(conn.Out.Bytes(), heads[i])
					if err != nil || len(r1) != 1 {
						return mc.Failf(key, "request %d: %d responses, %v", i, len(r1), err)
					}
					rs = append(rs, r1[0])
				}
			}
			if len(rs) != len(steps) {
				return mc.Failf(key, "%d responses", len(rs))
			}
			for i, got := range rs {
				if !exist[i] {
					if got.Code != 404 {
						return mc.Failf(key, "request %d: %d, and there is no file", i, got.Code)
					}
					continue
				}
				n := len(contents[i])
				if got.Code != 200 || !heads[i] && got.Body != contents[i] || heads[i] && n > 0 && got.Value("Content-Length") != fmt.Sprint(n) {
					return mc.Failf(key, "request %d: %d with %d bytes, length %q; the file has %d", i, got.Code, len(got.Body), got.Value("Content-Length"), n)
				}
			}
			return nil
		})
		// descriptors are not kept
		r.Space("descriptors", func(c *mc.C) error {
			s := all[0]
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			count := func() int {
				d, _ := os.ReadDir("/proc/self/fd")
				return len(d)
			}
			before := count()
			for i := 0; i < 20; i++ {
				for _, t := range []string{"a.html", "sub", "sub/", "none", "big.pdf", "empty.json", "sub/deep"} {
					for _, m := range []string{"GET", "HEAD"} {
						if err := check(c, s, t, m); err != nil {
							return err
						}
					}
				}
			}
			if after := count(); after > before+5 {
				return mc.Failf("descriptors", "%d descriptors are open after the requests, %d were before", after, before)
			}
			return nil
		})
	})
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}
