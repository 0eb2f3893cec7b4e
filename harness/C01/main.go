// C01: how the network splits the bytes never changes what the server does.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

// streams are what a client may send: well-formed, pipelined, malformed, cut short.
var streams = []string{
	"GET / HTTP/1.1\r\n\r\n",
	"GET /a%20b?x=%31&y HTTP/1.0\nHost: h\nX:1\n\n",
	"GET /p HTTP/1.1\r\nHost: a\r\n\r\nGET /q HTTP/1.1\r\nHost: b\r\n\r\nHEAD /r HTTP/1.1\r\n\r\n",
	"POST /p HTTP/1.1\r\nContent-Length: 5\r\n\r\nhelloGET /n HTTP/1.1\r\n\r\n",
	"POST /p HTTP/1.1\r\nContent-Length:  11  \r\nA: b\r\n\r\nGET / HTTP/\nGET /n HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\na\r\n0123456789\r\n0\r\n\r\nGET /n HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: T\r\n\r\n2\r\nab\r\n0\r\nT: v\r\n\r\nGET /n HTTP/1.1\r\n\r\n",
	"PUT /x HTTP/1.1\r\nTRANSFER-encoding: gzip\r\nTransfer-Encoding: CHUNKED\r\n\r\n1\r\nz\r\n0\r\n\r\nPOST /y HTTP/1.0\r\nContent-Length: 1\r\n\r\nq",
	"GET / HTTP/1.1\r\nConnection: close\r\nContent-Type: a/b;c=d\r\n\r\nGET /never HTTP/1.1\r\n\r\n",
	"GET / HTTP/1.0\r\nConnection: keep-alive\r\n\r\nGET /2 HTTP/1.0\r\n\r\nGET /never HTTP/1.1\r\n\r\n",
	"GET / HTTP/1.1\r\nUpgrade: foo, HTTP/1.1\r\nConnection: upgrade\r\n\r\nGET /2 HTTP/1.1\r\n\r\n",
	"GET / HTTP/1.1\r\nContent-Encoding: gzip, br\r\nEmpty:\r\nSpaces:   a b  \r\nDup: 1\r\nDup: 2\r\n\r\n",
	"OPTIONS * HTTP/1.1\r\n\r\nDELETE /d?q HTTP/1.1\r\nContent-Length: 0\r\n\r\nPATCH /? HTTP/1.1\r\n\r\n",
	// malformed
	"GET / HTTP/1.1\r\nBroken\r\nA: b\r\n\r\nGET /never HTTP/1.1\r\n\r\n",
	"GET / HTTP/1.1\r\nA : b\r\n\r\n",
	"GET / HTTP/1.1\r\n A: b\r\n\r\n",
	"GET / HTTP/1.1\r\n: b\r\n\r\n",
	"GET / HTTP/1.1\r\nA: b\rc\r\n\r\n",
	"GET / HTTP/1.1\r\nA: b\r\n\rX\r\n\r\n",
	"GET / HTTP/1.1\rX\n\r\n",
	"GET /%zz HTTP/1.1\r\n\r\n",
	"GET /%4 HTTP/1.1\r\n\r\n",
	"GET  HTTP/1.1\r\n\r\n",
	"GET /\r\n\r\n",
	"GET\r\n\r\n",
	" / HTTP/1.1\r\n\r\n",
	"BREW / HTTP/1.1\r\n\r\n",
	"GET / HTTP/2.0\r\n\r\n",
	"GET / HTTP/3.7\r\n\r\n",
	"GET / FTP\r\n\r\n",
	"\r\nGET / HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\nContent-Length: 1 2\r\n\r\nab",
	"POST / HTTP/1.1\r\nContent-Length: 5x\r\n\r\nab",
	"POST / HTTP/1.1\r\nContent-Length: 5\rx\n\r\nab",
	"POST / HTTP/1.1\r\nContent-Length:\r\n\r\nab",
	"POST / HTTP/1.1\r\nContent-Length: 1\r\nContent-Length: 1\r\n\r\nab",
	"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\nab",
	"POST / HTTP/1.1\r\nTransfer-Encoding: a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,chunked\r\n\r\n0\r\n\r\n",
	"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nxyz\r\nab\r\n0\r\n\r\nGET /never HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nabX\r\n0\r\n\r\nGET /never HTTP/1.1\r\n\r\n",
	// cut short
	"POST / HTTP/1.1\r\nContent-Length: 9\r\n\r\nhello",
	"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n9\r\nhello",
	"GET / HTTP/1.1\r\nA: b\r\n\r",
	"GET / HTTP/1.1\r\nA: b",
	"GET / HT",
}

// tight are configurations whose limits the streams below meet, or just do not.
type tight struct {
	name string
	mod  func(cfg *config.Config, n int)
	gen  func() string
	from int
	to   int
}

var tights = []tight{
	{"url", func(c *config.Config, n int) { c.URL.BufferSize = config.URLBufferSize{Default: 4, Maximal: n} },
		func() string { return "GET /abcd?ef HTTP/1.1\r\n\r\nOPTIONS /abcd?ef HTTP/1.1\r\n\r\n" }, 3, 24},
	{"keyspace", func(c *config.Config, n int) {
		c.Headers.KeySpace.Default, c.Headers.KeySpace.Maximal = 1, n
	}, func() string {
		return "GET / HTTP/1.1\r\nAbc: d\r\nEfghi: j\r\n\r\nGET / HTTP/1.1\r\nAbc: d\r\nEfghi: j\r\n\r\n"
	}, 1, 11},
	{"valuespace", func(c *config.Config, n int) {
		c.Headers.ValueSpace.Default, c.Headers.ValueSpace.Maximal = 1, n
	}, func() string {
		return "GET / HTTP/1.1\r\nAbc: def\r\nE: ghij\r\n\r\nGET / HTTP/1.1\r\nAbc: def\r\nE: ghij\r\n\r\n"
	}, 1, 16},
	{"maxkey", func(c *config.Config, n int) { c.Headers.MaxKeyLength = n },
		func() string {
			return "GET / HTTP/1.1\r\nAbc: def\r\nEfghi: j\r\nContent-Length: 1\r\n\r\nxGET /n HTTP/1.1\r\nX: y\r\n\r\n"
		}, 1, 16},
	{"maxvalue", func(c *config.Config, n int) { c.Headers.MaxValueLength = n },
		func() string { return "GET / HTTP/1.1\r\nAbc: def\r\nE:  ghijk\r\n\r\nGET /n HTTP/1.1\r\nX: y\r\n\r\n" }, 1, 10},
	{"number", func(c *config.Config, n int) { c.Headers.Number.Maximal = n },
		func() string {
			return "GET / HTTP/1.1\r\nA: b\r\nC: d\r\nContent-Length: 0\r\nE: f\r\n\r\nGET /n HTTP/1.1\r\nX: y\r\n\r\n"
		}, 1, 5},
	{"body", func(c *config.Config, n int) { c.Body.MaxSize = uint(n) },
		func() string { return "POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\nabcdGET /n HTTP/1.1\r\n\r\n" }, 1, 6},
	{"chunks", func(c *config.Config, n int) { c.Body.MaxSize = uint(n) },
		func() string {
			return "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n2\r\nde\r\n0\r\n\r\nGET /n HTTP/1.1\r\n\r\n"
		}, 1, 7},
	{"encodings", func(c *config.Config, n int) { c.Headers.MaxEncodingTokens = n },
		func() string {
			return "POST / HTTP/1.1\r\nContent-Encoding: a,b\r\nTransfer-Encoding: c\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\nGET /n HTTP/1.1\r\n\r\n"
		}, 1, 4},
}

func config0() config.Config {
	cfg := srv.Config()
	cfg.TCP.ReadBufferSize = 1024
	return cfg
}

// ref is the behaviour for the stream at once, and the output by every prefix of it.
type ref struct {
	obs srv.Observation
	out map[int]int
}

type cache map[string]*ref

func refOf(c *mc.C, key string, cfg config.Config, stream, mode string, end error) (*ref, error) {
	m, _ := c.Scratch.(cache)
	if m == nil || len(m) > 4096 {
		m = cache{}
		c.Scratch = m
	}
	key = key + "\x00" + mode + "\x00" + stream + "\x00" + end.Error()
	if r := m[key]; r != nil {
		return r, nil
	}
	conn := srv.NewConn([]byte(stream))
	conn.End = end
	obs, err := srv.Observe(cfg, conn, &srv.Rec{Mode: mode})
	if err != nil {
		return nil, mc.Failf("panic:"+stream, "%v", err)
	}
	conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
	conn.End = end
	byByte, err := srv.Observe(cfg, conn, &srv.Rec{Mode: mode})
	if err != nil {
		return nil, mc.Failf("panic:"+stream, "%v", err)
	}
	if !obs.Equal(byByte) {
		return nil, mc.Failf("bytewise:"+stream, "mode %s\nat once:\n%s\nbyte by byte:\n%s", mode, obs, byByte)
	}
	r := &ref{obs, map[int]int{}}
	for i, in := range conn.InReads {
		r.out[in] = conn.OutReads[i]
	}
	m[key] = r
	return r, nil
}

func compare(c *mc.C, cfgKey string, cfg config.Config, stream, mode string, conn *srv.Conn, how string) error {
	r, err := refOf(c, cfgKey, config0With(cfg), stream, mode, conn.End)
	if err != nil {
		return err
	}
	c.Note("%q mode %s %s", stream, mode, how)
	got, err := srv.Observe(cfg, conn, &srv.Rec{Mode: mode})
	c.Steps(len(conn.InReads))
	if err != nil {
		return mc.Failf("panic:"+stream, "%s: %v", how, err)
	}
	if !got.Equal(r.obs) {
		return mc.Failf("split:"+stream, "%s mode %s\nat once:\n%s\nsplit:\n%s", how, mode, r.obs, got)
	}
	if !conn.EndWithData {
		for i, in := range conn.InReads {
			if want, ok := r.out[in]; ok && want != conn.OutReads[i] {
				return mc.Failf("prompt:"+stream, "%s mode %s: when asking for more behind byte %d, %d bytes are written, byte by byte %d", how, mode, in, conn.OutReads[i], want)
			}
		}
	}
	c.State(cfgKey + mode + stream + got.Out)
	return nil
}

func config0With(cfg config.Config) config.Config {
	cfg.TCP.ReadBufferSize = 1024
	return cfg
}

func hasBody(s string) bool {
	return strings.Contains(strings.ToLower(s), "ontent-length") || strings.Contains(strings.ToLower(s), "chunked")
}

func modesOf(s string) []string {
	if hasBody(s) {
		return srv.Modes
	}
	return srv.Modes[:2]
}

// chooseCuts picks n ascending positions.
func chooseCuts(c *mc.C, length, n int) (at []int) {
	prev := 0
	for i := 0; i < n; i++ {
		left := length - 1 - prev - (n - 1 - i)
		if left < 1 {
			return at
		}
		prev += 1 + c.Choose(left)
		at = append(at, prev)
	}
	return at
}

func main() {
	mc.Main("C01", func(r *mc.R) {
		r.Assume("the chunked-body and buffer modules are stand-ins written from their documented behaviour")
		r.Assume("how many bytes of a body precede an error reported while reading it is not compared")

		r.Space("uniform", func(c *mc.C) error {
			stream := mc.Pick(c, streams)
			mode := mc.Pick(c, modesOf(stream))
			n := 1 + c.Choose(16)
			byBuffer := c.Bool()
			withEnd := c.Bool()
			cfg := config0()
			var conn *srv.Conn
			if byBuffer {
				cfg.TCP.ReadBufferSize = n
				conn = srv.NewConn([]byte(stream))
			} else {
				var at []int
				for p := n; p < len(stream); p += n {
					at = append(at, p)
				}
				conn = srv.NewConn(srv.Split([]byte(stream), at...)...)
			}
			conn.EndWithData = withEnd
			return compare(c, "", cfg, stream, mode, conn, fmt.Sprintf("in pieces of %d (by buffer %v), end with data %v", n, byBuffer, withEnd))
		})
		cuts := func(name string, list []string, n int, modes func(string) []string) {
			r.Space(name, func(c *mc.C) error {
				stream := mc.Pick(c, list)
				mode := mc.Pick(c, modes(stream))
				at := chooseCuts(c, len(stream), n)
				conn := srv.NewConn(srv.Split([]byte(stream), at...)...)
				return compare(c, "", config0(), stream, mode, conn, fmt.Sprintf("cut at %v", at))
			})
		}
		cuts("one-cut", streams, 1, modesOf)
		few := func(s string) []string {
			if hasBody(s) {
				return []string{"none", "read3", "retrieve"}
			}
			return []string{"none"}
		}
		cuts("two-cuts", streams, 2, modesOf)
		r.Space("error-end", func(c *mc.C) error {
			// every prefix, then a broken connection instead of its end
			stream := mc.Pick(c, streams[:13])
			n := c.Choose(len(stream) + 1)
			mode := mc.Pick(c, few(stream))
			stream = stream[:n]
			if n == 0 {
				return mc.ErrSkip
			}
			at := chooseCuts(c, len(stream), 1)
			conn := srv.NewConn(srv.Split([]byte(stream), at...)...)
			conn.End = []error{io.EOF, srv.ErrRead}[c.Choose(2)]
			conn.EndWithData = c.Bool()
			return compare(c, "", config0(), stream, mode, conn, fmt.Sprintf("cut at %v, then %v", at, conn.End))
		})
		r.Space("limits", func(c *mc.C) error {
			t := tights[c.Choose(len(tights))]
			n := t.from + c.Choose(t.to-t.from+1)
			cfg := config0()
			t.mod(&cfg, n)
			stream := t.gen()
			mode := mc.Pick(c, []string{"none", "retrieve", "bytes"})
			at := chooseCuts(c, len(stream), 1+c.Choose(2))
			conn := srv.NewConn(srv.Split([]byte(stream), at...)...)
			return compare(c, fmt.Sprint(t.name, n), cfg, stream, mode, conn, fmt.Sprintf("%s limited to %d, cut at %v", t.name, n, at))
		})
		corrupt := []string{"\r", "\n", " ", ":", "%", "?", "0", "x", "\t", ",", ";", "\x00", "\xff", "/", "\r\n", ""}
		bases := []string{streams[1], streams[3], streams[5], streams[6], streams[11], streams[8]}
		r.Space("corruptions", func(c *mc.C) error {
			base := mc.Pick(c, bases)
			p := c.Choose(len(base))
			by := mc.Pick(c, corrupt)
			insert := c.Bool()
			rest := base[p:]
			if !insert {
				rest = base[p+1:]
			} else if by == "" {
				return mc.ErrSkip
			}
			stream := base[:p] + by + rest
			mode := "none"
			if hasBody(base) {
				mode = mc.Pick(c, []string{"none", "retrieve", "read3"})
			}
			at := chooseCuts(c, len(stream), 1)
			conn := srv.NewConn(srv.Split([]byte(stream), at...)...)
			return compare(c, "", config0(), stream, mode, conn, fmt.Sprintf("cut at %v", at))
		})
		lines := []string{"A: b", "Content-Length: 3", "content-length:03 ", "Transfer-Encoding: chunked", "Connection: close",
			"Connection: keep-alive", "Upgrade: HTTP/1.1", "Trailer: x", "Content-Encoding: gzip", "X:", "X:  y ", "Content-Type: t", "bad", "b d: x"}
		gen := func(name string, ncuts int, nheads int) {
			r.Space(name, func(c *mc.C) error {
				eol := mc.Pick(c, []string{"\r\n", "\n"})
				var b strings.Builder
				b.WriteString(mc.Pick(c, []string{"GET", "POST"}) + " " + mc.Pick(c, []string{"/", "/%41?b=c"}) + " " + mc.Pick(c, []string{"HTTP/1.1", "HTTP/1.0"}) + eol)
				for i := 0; i < nheads; i++ {
					k := c.Choose(len(lines) + 1)
					if k == 0 {
						break
					}
					b.WriteString(lines[k-1] + eol)
				}
				b.WriteString(eol)
				if strings.Contains(b.String(), "chunked") {
					b.WriteString("2\r\nab\r\n0\r\n\r\n")
				} else if strings.Contains(strings.ToLower(b.String()), "content-length") {
					b.WriteString("abc")
				}
				b.WriteString("GET /n HTTP/1.1\r\nN: m\r\n\r\n")
				stream := b.String()
				mode := "bytes"
				at := chooseCuts(c, len(stream), ncuts)
				conn := srv.NewConn(srv.Split([]byte(stream), at...)...)
				return compare(c, "", config0(), stream, mode, conn, fmt.Sprintf("cut at %v", at))
			})
		}
		gen("generated-one-cut", 1, mc.Bound(r, 2, 3))
		gen("generated-two-cuts", 2, mc.Bound(r, 1, 2))
		// long elements and long connections, in pieces and by buffers of every order of magnitude
		type long struct {
			name  string
			max   int
			build func(n int) string
		}
		fill := func(n int) string { return strings.Repeat("abcdefghijk", n/11+1)[:n] }
		longs := []long{
			{"path", 1 << 12, func(n int) string { return "GET /" + fill(n) + " HTTP/1.1\r\nA: b\r\n\r\n" }},
			{"escaped path", 1 << 10, func(n int) string {
				return "GET /" + strings.Repeat("%41", n) + "x?" + strings.Repeat("%42", n) + " HTTP/1.1\r\n\r\n"
			}},
			{"query", 1 << 12, func(n int) string { return "GET /?" + fill(n) + " HTTP/1.1\r\nA: b\r\n\r\n" }},
			{"name", 90, func(n int) string { return "GET / HTTP/1.1\r\nA" + fill(n) + ": b\r\nC: d\r\n\r\n" }},
			{"value", 1 << 12, func(n int) string { return "GET / HTTP/1.1\r\nA: " + fill(n) + "\r\nC: d\r\n\r\n" }},
			{"blanks", 1 << 12, func(n int) string { return "GET / HTTP/1.1\r\nA: " + strings.Repeat(" ", n) + "x\r\nC: d\r\n\r\n" }},
			{"headers", 40, func(n int) string {
				b := "GET / HTTP/1.1\r\n"
				for i := 0; i < n; i++ {
					b += fmt.Sprintf("H%d: %s\r\n", i, fill(i*7%30))
				}
				return b + "\r\n"
			}},
			{"length", 1 << 17, func(n int) string { return fmt.Sprintf("POST /b HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", n, fill(n)) }},
			{"chunk", 1 << 17, func(n int) string {
				if n == 0 {
					n = 1
				}
				return fmt.Sprintf("POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", n, fill(n))
			}},
			{"chunks", 1 << 12, func(n int) string {
				var b strings.Builder
				b.WriteString("POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n")
				for i := 0; i < n; i++ {
					k := 1 + i*5%23
					fmt.Fprintf(&b, "%x\r\n%s\r\n", k, fill(k))
				}
				return b.String() + "0\r\n\r\n"
			}},
			{"requests", 1 << 9, func(n int) string {
				var b strings.Builder
				for i := 0; i < n; i++ {
					switch i % 3 {
					case 0:
						fmt.Fprintf(&b, "GET /%d?q=%d HTTP/1.1\r\nA: %d\r\n\r\n", i, i, i)
					case 1:
						fmt.Fprintf(&b, "POST /%d HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", i, i%40, fill(i%40))
					default:
						fmt.Fprintf(&b, "POST /%d HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", i, 1+i%40, fill(1+i%40))
					}
				}
				return b.String()
			}},
		}
		r.Space("long", func(c *mc.C) error {
			l := longs[c.Choose(len(longs))]
			n := mc.Pick(c, mc.Ladder(l.max))
			stream := "POST /before HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc" + l.build(n) + "GET /n HTTP/1.1\r\nN: m\r\n\r\n"
			mode := "none"
			if hasBody(l.build(n)) {
				mode = mc.Pick(c, []string{"none", "bytes", "read3", "retrieve"})
			}
			cfg := config0()
			cfg.TCP.ReadBufferSize = len(stream) + 1
			how := fmt.Sprintf("%s of %d mode %s", l.name, n, mode)
			c.Note("%s", how)
			key := "long " + how
			m, _ := c.Scratch.(cache)
			if m == nil || len(m) > 512 {
				m = cache{}
				c.Scratch = m
			}
			if m[key] == nil {
				obs, err := srv.Observe(cfg, srv.NewConn([]byte(stream)), &srv.Rec{Mode: mode})
				if err != nil {
					return mc.Failf("panic:"+how, "%v", err)
				}
				m[key] = &ref{obs, nil}
			}
			pieces := mc.Pick(c, []int{1, 2, 3, 7, 16, 64, 100, 500, 511, 512, 513, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 100000, len(stream) - 1, len(stream)})
			byBuffer := c.Bool()
			if pieces > len(stream) || pieces == 0 {
				return mc.ErrSkip
			}
			var at []int
			for p := pieces; p < len(stream); p += pieces {
				at = append(at, p)
			}
			conn := srv.NewConn(srv.Split([]byte(stream), at...)...)
			if byBuffer {
				cfg.TCP.ReadBufferSize = pieces
				conn = srv.NewConn([]byte(stream))
			}
			got, err := srv.Observe(cfg, conn, &srv.Rec{Mode: mode})
			c.Steps(len(conn.InReads))
			if err != nil {
				return mc.Failf("panic:"+how, "%v", err)
			}
			if !got.Equal(m[key].obs) {
				return mc.Failf(how, "in pieces of %d (by buffer %v) it differs:\nat once:\n%.2000s\nin pieces:\n%.2000s", pieces, byBuffer, m[key].obs, got)
			}
			c.State(how)
			return nil
		})
		one := func(string) []string { return []string{"retrieve"} }
		if r.Thorough() {
			cuts("three-cuts", streams, 3, few)
		} else {
			var short []string
			for _, s := range streams {
				if len(s) < 64 {
					short = append(short, s)
				}
			}
			cuts("three-cuts", short, 3, one)
		}
		// connections of tens of thousands of requests
		r.Space("long-lived connections", func(c *mc.C) error {
			n, kind, group := mc.Pick(c, srv.Lengths), mc.Pick(c, []string{"mixed"}), mc.Pick(c, []int{1, 7})
			if n > mc.Bound(r, 70000, 1<<20) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%d requests of the kind %s, %d at once", n, kind, group)
			c.Note("%s", key)
			c.Steps(n)
			c.State(key)
			if err := srv.Long(kind, n, group); err != nil {
				return mc.Failf("long:"+key, "%v", err)
			}
			return nil
		})
	})
}
