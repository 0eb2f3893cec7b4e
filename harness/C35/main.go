// C35: JSON goes through requests and responses unchanged.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

var scalars = []string{`null`, `true`, `0`, `-1.5e3`, `""`, `"a\n\"\u00e9\\/"`, `"é "`, `12345678901`}

var keys = []string{`a`, `B`, ``, `k\n`}

// doc generates every document of the grammar up to a depth.
func doc(c *mc.C, depth int, sp string) string {
	n := len(scalars)
	if depth == 0 {
		return mc.Pick(c, scalars)
	}
	switch k := c.Choose(n + 5); {
	case k < n:
		return scalars[k]
	case k == n:
		return "[" + sp + "]"
	case k == n+1:
		return "{" + sp + "}"
	case k == n+2:
		return "[" + sp + doc(c, depth-1, sp) + sp + "]"
	case k == n+3:
		return "[" + doc(c, depth-1, sp) + sp + "," + sp + mc.Pick(c, scalars) + "]"
	default:
		return "{" + sp + `"` + mc.Pick(c, keys) + `"` + sp + ":" + sp + doc(c, depth-1, sp) + sp + `,"z":1}`
	}
}

func framed(body, ctype, framing string) string {
	h := "POST /j HTTP/1.1\r\n"
	if ctype != "" {
		h += "Content-Type: " + ctype + "\r\n"
	}
	if framing == "length" {
		return h + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
	}
	h += "Transfer-Encoding: chunked\r\n\r\n"
	half := len(body)/2 + 1
	for len(body) > 0 {
		if half > len(body) {
			half = len(body)
		}
		h += fmt.Sprintf("%x\r\n%s\r\n", half, body[:half])
		body = body[half:]
	}
	return h + "0\r\n\r\n"
}

type inner struct {
	X int
	S []string
}

type typed struct {
	N   int64             `json:"n"`
	S   string            `json:"s"`
	L   []int             `json:"l"`
	M   map[string]string `json:"m,omitempty"`
	P   *bool             `json:"p"`
	I   inner
	F   float64
	Any any
	b   int
}

func value(c *mc.C) typed {
	yes := true
	v := typed{
		N:   mc.Pick(c, []int64{0, -1, 1 << 53}),
		S:   mc.Pick(c, []string{"", "a\"\\\n\x01", "é<>&"}),
		L:   mc.Pick(c, [][]int{nil, {}, {1, -2}}),
		M:   mc.Pick(c, []map[string]string{nil, {"k": "v"}}),
		P:   mc.Pick(c, []*bool{nil, &yes}),
		I:   mc.Pick(c, []inner{{}, {3, []string{"x", ""}}}),
		F:   mc.Pick(c, []float64{0, 1.25}),
		Any: mc.Pick(c, []any{nil, "s", []any{1.0, nil}}),
	}
	return v
}

type failing struct{}

func (failing) MarshalJSON() ([]byte, error) { return nil, errors.New("can't be encoded") }

func decodeAny(s string) (v any) {
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic("mc: " + err.Error() + " in " + s)
	}
	return v
}

func main() {
	mc.Main("C35", func(r *mc.R) {
		r.Assume("encoding/json is the reference; documents both packages may treat differently (duplicate keys, invalid UTF-8, numbers beyond float64) are left out")
		r.Space("requests", func(c *mc.C) error {
			sp := mc.Pick(c, []string{"", " \r\n\t"})
			d := doc(c, mc.Bound(r, 2, 3), sp)
			framing := mc.Pick(c, []string{"length", "chunked"})
			ctype := mc.Pick(c, []string{"", "application/json"})
			before := mc.Pick(c, []string{"", "broken", "other"})
			var raw string
			switch before {
			case "broken":
				raw = framed(`{"a":[1,`, "", "length")
			case "other":
				raw = framed(`{"other":{"x":"`+strings.Repeat("y", 20)+`"}}`, "", "chunked")
			}
			n := len(raw)
			raw += framed(d, ctype, framing)
			body := strings.Index(raw[n:], "\r\n\r\n") + 4 + n
			var conn *srv.Conn
			switch k := c.Choose(4); k {
			case 0:
				conn = srv.NewConn([]byte(raw))
			case 1:
				conn = srv.NewConn(srv.Bytewise([]byte(raw))...)
			case 2:
				conn = srv.NewConn(srv.Split([]byte(raw), body)...)
			case 3:
				conn = srv.NewConn(srv.Split([]byte(raw), (body+len(raw))/2)...)
			}
			key := fmt.Sprintf("request %q by %s after %q", d, framing, before)
			c.Note("%s type %q", key, ctype)
			var got any
			var err error
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					got = nil
					err = req.JSON(&got)
					return http.String(req, "ok")
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			if e := srv.Serve(srv.Config(), conn, 0, rt); e != nil {
				return mc.Failf("panic:"+key, "%v", e)
			}
			c.Step()
			c.State(key)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			if want := decodeAny(d); !reflect.DeepEqual(got, want) {
				return mc.Failf(key, "decoded %#v, want %#v", got, want)
			}
			return nil
		})
		r.Space("cut documents", func(c *mc.C) error {
			d := doc(c, mc.Bound(r, 2, 3), "")
			if d[0] != '[' && d[0] != '{' {
				return mc.ErrSkip
			}
			d = d[:c.Choose(len(d))]
			framing := mc.Pick(c, []string{"length", "chunked"})
			key := fmt.Sprintf("cut %q by %s", d, framing)
			c.Note("%s", key)
			var got any
			var err error
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					err = req.JSON(&got)
					return http.String(req, "ok")
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			if e := srv.Serve(srv.Config(), srv.NewConn([]byte(framed(d, "", framing))), 0, rt); e != nil {
				return mc.Failf("panic:"+key, "%v", e)
			}
			c.Step()
			c.State(key)
			if err == nil {
				return mc.Failf(key, "a document that is cut off is accepted as %#v", got)
			}
			return nil
		})
		r.Space("data behind documents", func(c *mc.C) error {
			d := doc(c, mc.Bound(r, 1, 2), "")
			tail := mc.Pick(c, []string{" ", "\r\n\t", "x", " 1", "}", "]", "{}", ",", "\"", "null"})
			framing := mc.Pick(c, []string{"length", "chunked"})
			key := fmt.Sprintf("document %q and %q by %s", d, tail, framing)
			c.Note("%s", key)
			if strings.IndexByte("0123456789", d[len(d)-1]) >= 0 && tail == "1" {
				return mc.ErrSkip
			}
			var got any
			var err error
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					err = req.JSON(&got)
					return http.String(req, "ok")
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			if e := srv.Serve(srv.Config(), srv.NewConn([]byte(framed(d+tail, "", framing))), 0, rt); e != nil {
				return mc.Failf("panic:"+key, "%v", e)
			}
			c.Step()
			c.State(key)
			if blank := strings.TrimSpace(tail) == ""; blank != (err == nil) {
				return mc.Failf(key, "%v, decoded %#v", err, got)
			}
			return nil
		})
		r.Space("typed models and content types", func(c *mc.C) error {
			v := value(c)
			ctype := mc.Pick(c, []string{"", "application/json", "text/html", "application/x-www-form-urlencoded", "application/jsonx", "application/jso",
				"application/json-patch+json", "xapplication/json", "text/json", "application/", "a", "application/xml"})
			framing := mc.Pick(c, []string{"length", "chunked"})
			d, e := json.Marshal(v)
			if e != nil {
				panic("mc: " + e.Error())
			}
			key := fmt.Sprintf("typed %s as %q by %s", d, ctype, framing)
			c.Note("%s", key)
			got := typed{b: 7}
			var err error
			var resp *http.Response
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					err = req.JSON(&got)
					resp = http.JSON(req, got)
					return resp
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			conn := srv.NewConn([]byte(framed(string(d), ctype, framing)))
			if e := srv.Serve(srv.Config(), conn, 0, rt); e != nil {
				return mc.Failf("panic:"+key, "%v", e)
			}
			c.Steps(2)
			c.State(key)
			if ctype != "" && ctype != "application/json" {
				if !errors.Is(err, status.ErrUnsupportedMediaType) || !reflect.DeepEqual(got, typed{b: 7}) {
					return mc.Failf(key, "%v and %+v, want an unsupported media type", err, got)
				}
				return nil
			}
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			var want typed
			if e := json.Unmarshal(d, &want); e != nil {
				panic("mc: " + e.Error())
			}
			want.b = 7
			if !reflect.DeepEqual(got, want) {
				return mc.Failf(key, "decoded %+v, want %+v", got, want)
			}
			rs, e := srv.ParseAll(conn.Out.Bytes())
			if e != nil || len(rs) != 1 {
				return mc.Failf(key, "%v in %q", e, conn.Out.String())
			}
			if rs[0].Code != 200 || rs[0].Value("Content-Type") != "application/json" {
				return mc.Failf(key, "not a JSON response: %q", conn.Out.String())
			}
			var back typed
			if e := json.Unmarshal([]byte(rs[0].Body), &back); e != nil {
				return mc.Failf(key, "the response is malformed: %v in %q", e, rs[0].Body)
			}
			want.b = 0
			if !reflect.DeepEqual(back, want) {
				return mc.Failf(key, "the response has %+v, want %+v", back, want)
			}
			return nil
		})
		r.Space("responses", func(c *mc.C) error {
			n := 1 + c.Choose(mc.Bound(r, 2, 3))
			var docs []string
			var models []any
			raw := ""
			for i := 0; i < n; i++ {
				raw += "GET / HTTP/1.1\r\n\r\n"
				switch c.Choose(4) {
				case 0:
					docs, models = append(docs, ""), append(models, make(chan int))
				case 1:
					docs, models = append(docs, ""), append(models, map[string]any{"a": 1, "b": failing{}, "c": strings.Repeat("x", 30)})
				default:
					d := doc(c, 1, "")
					docs, models = append(docs, d), append(models, decodeAny(d))
				}
			}
			before := mc.Pick(c, []string{"", "string", "json"})
			try := c.Bool()
			key := fmt.Sprintf("responses %q over %q try %v", docs, before, try)
			c.Note("%s", key)
			i := 0
			var tryErrs []error
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					m := models[i]
					i++
					resp := req.Respond()
					switch before {
					case "string":
						resp.String("a body that is replaced")
					case "json":
						resp.JSON(map[string]string{"replaced": "yes"})
					}
					if try {
						got, err := resp.TryJSON(m)
						tryErrs = append(tryErrs, err)
						if err != nil {
							return req.Respond().Code(500)
						}
						return got
					}
					return resp.JSON(m)
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			conn := srv.NewConn([]byte(raw))
			if e := srv.Serve(srv.Config(), conn, 0, rt); e != nil {
				return mc.Failf("panic:"+key, "%v", e)
			}
			c.Steps(n)
			c.State(key)
			rs, e := srv.ParseAll(conn.Out.Bytes())
			if e != nil || len(rs) != n {
				return mc.Failf(key, "%v in %q", e, conn.Out.String())
			}
			for k, resp := range rs {
				if try && (tryErrs[k] == nil) != (docs[k] != "") {
					return mc.Failf(key, "TryJSON of model %d says %v", k+1, tryErrs[k])
				}
				if docs[k] == "" {
					if resp.Code != 500 || strings.Contains(resp.Body, "xxx") {
						return mc.Failf(key, "a model which can't be encoded is answered with %q", conn.Out.String())
					}
					continue
				}
				if resp.Code != 200 || resp.Value("Content-Type") != "application/json" {
					return mc.Failf(key, "response %d isn't JSON: %q", k+1, conn.Out.String())
				}
				var got any
				if err := json.Unmarshal([]byte(resp.Body), &got); err != nil || !reflect.DeepEqual(got, decodeAny(docs[k])) {
					return mc.Failf(key, "response %d: %q (%v), want %q", k+1, resp.Body, err, docs[k])
				}
			}
			return nil
		})
		// other connections are served between building a response and writing it
		r.Space("responses between each other", func(c *mc.C) error {
			depth := 2 + c.Choose(mc.Bound(r, 2, 3))
			var docs []string
			for i := 0; i < depth; i++ {
				docs = append(docs, mc.Pick(c, []string{`{"a":"first"}`, `[1,2,3]`, `"` + strings.Repeat("x", 600) + `"`, `null`, `{"b":[{"c":7}]}`}))
			}
			parse, twice := c.Bool(), c.Bool()
			key := fmt.Sprintf("responses %q between each other, requests parsed %v, twice %v", docs, parse, twice)
			c.Note("%s", key)
			var run func(level int) error
			run = func(level int) error {
				if level == depth {
					return nil
				}
				body := docs[level]
				raw := fmt.Sprintf("POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
				n := 1
				if twice {
					raw, n = raw+raw, 2
				}
				var bad error
				rt := srv.Funcs{
					Request: func(req *http.Request) *http.Response {
						var model any = decodeAny(docs[level])
						if parse {
							var got any
							if err := req.JSON(&got); err != nil {
								bad = mc.Failf(key, "level %d: %v", level, err)
							}
							model = got
						}
						resp := http.JSON(req, model)
						if err := run(level + 1); err != nil {
							bad = err
						}
						return resp
					},
					Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
				}
				conn := srv.NewConn([]byte(raw))
				if e := srv.Serve(srv.Config(), conn, 0, rt); e != nil {
					return mc.Failf("panic:"+key, "%v", e)
				}
				c.Steps(n)
				if bad != nil {
					return bad
				}
				rs, e := srv.ParseAll(conn.Out.Bytes())
				if e != nil || len(rs) != n {
					return mc.Failf(key, "%v in %q", e, conn.Out.String())
				}
				for _, resp := range rs {
					var got any
					if err := json.Unmarshal([]byte(resp.Body), &got); err != nil || !reflect.DeepEqual(got, decodeAny(docs[level])) {
						return mc.Failf(key, "level %d: %q (%v), want %q", level, resp.Body, err, docs[level])
					}
				}
				return nil
			}
			c.State(key)
			return run(0)
		})
		// documents of every order of magnitude, in both directions
		r.Space("large documents", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 1<<18, 1<<20)+1))
			shape := mc.Pick(c, []string{"string", "list", "deep", "map"})
			framing := mc.Pick(c, []string{"length", "chunked"})
			buffer := mc.Pick(c, []int{512, 100000, 1 << 21})
			cut := mc.Pick(c, []string{"", "cut", "followed"})
			key := fmt.Sprintf("a large document: %s of %d by %s, a buffer of %d %s", shape, n, framing, buffer, cut)
			c.Note("%s", key)
			var model any
			switch shape {
			case "string":
				b := make([]byte, n)
				for i := range b {
					b[i] = 'a' + byte(i^i>>8^i>>16)&15
				}
				model = string(b)
			case "list":
				l := make([]any, 0, n/6)
				for i := 0; i < n/6; i++ {
					l = append(l, float64(i*37%100000))
				}
				model = l
			case "deep":
				if n > 2000 {
					return mc.ErrSkip
				}
				model = "x"
				for i := 0; i < n; i++ {
					model = []any{model}
				}
			case "map":
				m := map[string]any{}
				for i := 0; i < n/20; i++ {
					m[fmt.Sprint("key", i)] = fmt.Sprint("value", i)
				}
				model = m
			}
			d, e := json.Marshal(model)
			if e != nil {
				panic("mc: " + e.Error())
			}
			body := string(d)
			switch cut {
			case "cut":
				body = body[:len(body)-1]
			case "followed":
				body += " x"
			}
			var got, other any
			var err, otherErr error
			served := 0
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					served++
					if served == 1 {
						err = req.JSON(&got)
						return http.JSON(req, model)
					}
					otherErr = req.JSON(&other)
					return http.JSON(req, []int{served})
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			cfg := srv.Config()
			cfg.TCP.ReadBufferSize = buffer
			cfg.Body.MaxSize = uint(len(body)) + 10
			cfg.Body.MaxChunkSize = int64(len(body)) + 10
			conn := srv.NewConn([]byte(framed(body, "application/json", framing) + framed(`{"a":2}`, "", framing)))
			if e := srv.Serve(cfg, conn, 0, rt); e != nil {
				return mc.Failf("panic:"+key, "%v", e)
			}
			c.Steps(2)
			c.State(key)
			if cut != "" {
				if err == nil {
					return mc.Failf(key, "the document is accepted")
				}
			} else if err != nil || !reflect.DeepEqual(got, model) {
				return mc.Failf(key, "%v, or other data", err)
			}
			if otherErr != nil || !reflect.DeepEqual(other, map[string]any{"a": 2.0}) {
				return mc.Failf(key, "the next document is %v, %v", other, otherErr)
			}
			rs, e := srv.ParseAll(conn.Out.Bytes())
			if e != nil || len(rs) != 2 {
				return mc.Failf(key, "%d responses, %v", len(rs), e)
			}
			var back any
			if e := json.Unmarshal([]byte(rs[0].Body), &back); e != nil || !reflect.DeepEqual(back, model) || rs[0].Value("Content-Type") != "application/json" {
				return mc.Failf(key, "the response of %d bytes is something else (%v)", len(rs[0].Body), e)
			}
			if rs[1].Body != "[2]" {
				return mc.Failf(key, "the next response is %.100q", rs[1].Body)
			}
			return nil
		})
	})
}
