// C03: malformed input never crashes the server, reaches a handler or lingers.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

const next = "GET /next HTTP/1.1\r\n\r\n"

// check serves the stream and compares with the reference.
func check(c *mc.C, stream string, conn *srv.Conn, mode string) error {
	return checkWith(c, srv.Config(), stream, conn, mode)
}

func checkWith(c *mc.C, cfg config.Config, stream string, conn *srv.Conn, mode string) error {
	c.Note("%q mode %s", stream, mode)
	rec := &srv.Rec{Mode: mode}
	cfg.TCP.ReadBufferSize = 1024
	obs, err := srv.Observe(cfg, conn, rec)
	c.Steps(1 + len(obs.Reqs) + len(obs.Errs))
	key := fmt.Sprintf("%q", stream)
	if err != nil {
		return mc.Failf("panic:"+key, "%v", err)
	}
	reqs, v := srv.Ref(stream, srv.DefaultLimits)
	c.State(fmt.Sprintf("%d|%v|%v|%v", len(reqs), v.Codes, v.Complete, obs.Out))

	bad := func(format string, args ...any) error {
		return mc.Failf(key, "%s\nwant %d requests %v, then %s\ngot %s", fmt.Sprintf(format, args...), len(reqs), reqs, v, obs)
	}
	// the application is told about the end exactly once
	if len(obs.Errs) != 1 {
		return bad("the application is told %d times about the end of the connection", len(obs.Errs))
	}
	grey := v.Grey || len(reqs) > 0 && reqs[len(reqs)-1].Grey
	sure := len(reqs)
	if sure > 0 && reqs[sure-1].Grey {
		sure--
	}
	if len(obs.Reqs) < sure {
		return bad("a request is not served")
	}
	for i := 0; i < sure; i++ {
		want := reqs[i].String()
		got := obs.Reqs[i]
		switch {
		case mode == "none":
			got = strings.TrimSuffix(got, ` body=""`)
		case reqs[i].BodyErr:
			want += " err"
		default:
			want += fmt.Sprintf(" body=%q", reqs[i].Body)
		}
		if got != want {
			return bad("request %d is seen as\n%s, not as\n%s", i+1, got, want)
		}
	}
	var heads []bool
	for _, r := range obs.Reqs {
		heads = append(heads, strings.HasPrefix(r, "HEAD "))
	}
	resps, err := srv.ParseAll([]byte(obs.Out), heads...)
	if err != nil && len(obs.Reqs) < len(heads)+1 {
		// an error may answer a HEAD request
		resps, err = srv.ParseAll([]byte(obs.Out), append(heads, true)...)
	}
	if err != nil {
		return bad("malformed output: %v", err)
	}
	if grey {
		return nil
	}
	if len(obs.Reqs) != sure {
		return bad("%d requests are served instead of %d", len(obs.Reqs), sure)
	}
	lastErr := sure > 0 && reqs[sure-1].BodyErr
	extra := len(resps) - sure
	if lastErr && extra == -1 {
		return nil // given up without a response
	}
	if extra < 0 {
		return bad("%d responses to %d requests", len(resps), sure)
	}
	for i := 0; i < sure; i++ {
		if ok := resps[i].Code == 200; !ok && !(i == sure-1 && lastErr) {
			return bad("response %d has code %d", i+1, resps[i].Code)
		}
	}
	switch {
	case extra > 1:
		return bad("%d responses behind the last request", extra)
	case extra == 1:
		if !v.Codes[resps[sure].Code] {
			return bad("answered with %d", resps[sure].Code)
		}
	case len(v.Codes) > 0 && v.Complete:
		return bad("a malformed request is not answered")
	}
	return nil
}

type context struct {
	pre, post string
	alphabet  string
	n         int // quick length
}

var contexts = []context{
	{"", "", "G E\r\n/:H", 7},
	{"", " / HTTP/1.1\r\n\r\n" + next, "GETPU \r\nx", 6},
	{"GET ", "", "/ %4?\r\nH", 6},
	{"GET ", " HTTP/1.1\r\n\r\n" + next, "/%4aZ?# \r\n*", 5},
	{"GET / ", "\r\n\r\n" + next, "HTP/1.02 \r\n", 5},
	{"GET / HTTP", "\n\n" + next, "/1.0 \r\n2", 5},
	{"GET / HTTP/1.1", "", "\r\nA: ", 7},
	{"GET / HTTP/1.1\r\n", "\r\n\r\n" + next, "\r\nA: \tb", 6},
	{"GET / HTTP/1.1\nA:", "\n\n" + next, "\r\n: b,\x00", 6},
	{"GET / HTTP/1.1\r\nContent-Length", "\r\n\r\nabc" + next, ": 013x\r\n\t", 6},
	{"GET / HTTP/1.1\r\nContent-Length:", "\r\n\r\nabc" + next, " 013-+\r\nx", 6},
	{"GET / HTTP/1.1\r\nContent-Length: 922337203685477580", "\r\n\r\nabc" + next, "0789 \r", 6},
	{"GET / HTTP/1.1\r\nContent-Length: 1\r\n", "\r\n\r\na" + next, "Content-Length: 1\r", 4},
	{"GET / HTTP/1.1\r\nTransfer-Encoding:", "\r\n\r\n0\r\n\r\n" + next, " ,chunked\r", 5},
	{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "\r\n0\r\n\r\n" + next, "012a\r\ng;", 5},
	{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab", "\r\n\r\n" + next, "0\r\nx", 7},
	{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: t\r\n\r\n0\r\n", "\r\n\r\n" + next, "\r\nx:", 7},
	{"POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\n", "", "G \r\n/", 5},
	{"GET / HTTP/1.1\r\nConnection: ", "\r\n\r\n" + next, "close,k ", 5},
}

var valid = []string{
	"GET /a%20b?x=1 HTTP/1.1\r\nHost: h\r\nX-Y: z\r\n\r\n",
	"POST /p HTTP/1.0\nContent-Length: 5\nConnection: keep-alive\n\nhello",
	"PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n",
	"HEAD /h HTTP/1.1\r\nContent-Type: t\r\nContent-Encoding: gzip\r\n\r\n",
	"DELETE /d HTTP/1.1\r\nTrailer: x\r\nTransfer-Encoding: gzip, chunked\r\n\r\n1\r\nz\r\n0\r\nx: y\r\n\r\n",
}

func main() {
	mc.Main("C03", func(r *mc.R) {
		r.Assume("the reference in srv/ref.go says which streams are malformed; spaces and control bytes inside of targets, unusual bytes in header names and whitespace at the end of values may be refused or not")
		r.Assume("the chunked-body and buffer modules are stand-ins written from their documented behaviour")
		for _, ctx := range contexts {
			ctx := ctx
			n := ctx.n + mc.Bound(r, 0, 1)
			r.Space(fmt.Sprintf("strings %q", ctx.pre), func(c *mc.C) error {
				var b []byte
				for i := 0; i < n; i++ {
					k := c.Choose(len(ctx.alphabet) + 1)
					if k == 0 {
						break
					}
					b = append(b, ctx.alphabet[k-1])
				}
				stream := ctx.pre + string(b) + ctx.post
				return check(c, stream, srv.NewConn([]byte(stream)), "bytes")
			})
		}
		r.Space("corruptions", func(c *mc.C) error {
			base := mc.Pick(c, valid)
			p := c.Choose(len(base))
			by := byte(c.Choose(256))
			how := c.Choose(3)
			var s string
			switch how {
			case 0:
				s = base[:p] + string([]byte{by}) + base[p+1:]
			case 1:
				s = base[:p] + string([]byte{by}) + base[p:]
			case 2:
				if by != 0 {
					return mc.ErrSkip
				}
				s = base[:p] + base[p+1:]
			}
			mode := mc.Pick(c, []string{"none", "bytes"})
			s += next
			split := c.Choose(3)
			conn := srv.NewConn([]byte(s))
			if split == 1 {
				conn = srv.NewConn(srv.Bytewise([]byte(s))...)
			} else if split == 2 {
				conn = srv.NewConn(srv.Split([]byte(s), p, p+1)...)
			}
			return check(c, s, conn, mode)
		})
		sig := "\r\n :%?,;0/A\t\x00\xff"
		r.Space("double-corruptions", func(c *mc.C) error {
			base := mc.Pick(c, valid[:mc.Bound(r, 3, 5)])
			p := c.Choose(len(base))
			q := c.Choose(len(base))
			if q <= p {
				return mc.ErrSkip
			}
			edit := func(s string, at int) string {
				k := c.Choose(2*len(sig) + 1)
				switch {
				case k == 0:
					return s[:at] + s[at+1:]
				case k <= len(sig):
					return s[:at] + sig[k-1:k] + s[at+1:]
				default:
					return s[:at] + sig[k-1-len(sig):k-len(sig)] + s[at:]
				}
			}
			s := edit(edit(base, q), p) + next
			return check(c, s, srv.NewConn([]byte(s)), "bytes")
		})
		r.Space("prefixes", func(c *mc.C) error {
			// cut short at every position, in every way, behind a complete request or not
			first := mc.Pick(c, append([]string{""}, valid...))
			base := mc.Pick(c, valid)
			n := c.Choose(len(base))
			s := first + base[:n]
			mode := mc.Pick(c, []string{"none", "bytes", "read1", "retrieve", "callback", "peek"})
			conn := srv.NewConn([]byte(s))
			if c.Bool() {
				conn = srv.NewConn(srv.Bytewise([]byte(s))...)
			}
			conn.End = []error{io.EOF, srv.ErrRead}[c.Choose(2)]
			conn.EndWithData = c.Bool()
			if mode != "none" && mode != "bytes" {
				return survive(c, s, conn, mode)
			}
			return check(c, s, conn, mode)
		})
		r.Space("broken-writes", func(c *mc.C) error {
			s := ""
			for i := 0; i < 3; i++ {
				s += mc.Pick(c, append([]string{"GET / HTTP/1.1\r\nbad\r\n\r\n"}, valid...))
			}
			conn := srv.NewConn([]byte(s))
			conn.WriteLimit = c.Choose(4)
			c.Note("%q, %d writes succeed", s, conn.WriteLimit)
			rec := &srv.Rec{Mode: "bytes"}
			obs, err := srv.Observe(srv.Config(), conn, rec)
			c.Steps(1 + len(obs.Reqs))
			if err != nil {
				return mc.Failf("panic:"+s, "%v", err)
			}
			c.State(obs.Out)
			if len(obs.Errs) != 1 {
				return mc.Failf(s, "the application is told %d times about the end of the connection: %s", len(obs.Errs), obs)
			}
			if len(obs.Reqs) > conn.WriteLimit+1 {
				return mc.Failf(s, "%d requests are served though only %d responses could be written", len(obs.Reqs), conn.WriteLimit)
			}
			return nil
		})
		if err := applicationSpaces(r); err != nil {
			panic("mc: " + err.Error())
		}
	})
}

// survive only demands that the server neither panics nor hangs, and tells the application.
func survive(c *mc.C, s string, conn *srv.Conn, mode string) error {
	rec := &srv.Rec{Mode: mode}
	obs, err := srv.Observe(srv.Config(), conn, rec)
	c.Steps(1 + len(obs.Reqs))
	c.State(obs.Out)
	if err != nil {
		return mc.Failf("panic:"+s, "%v", err)
	}
	if len(obs.Errs) != 1 {
		return mc.Failf(s, "the application is told %d times about the end of the connection: %s", len(obs.Errs), obs)
	}
	return nil
}
