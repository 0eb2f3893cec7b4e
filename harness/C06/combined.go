package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

// Responses combined of any subset of what a builder offers: /m/<mask>
const respBits = 9

func combined(r *http.Request, mask int) *http.Response {
	resp := r.Respond()
	if mask&1 != 0 {
		resp.Code(203)
	}
	if mask&2 != 0 {
		resp.Status("Custom")
	}
	if mask&4 != 0 {
		resp.Header("X-Set", "1")
	}
	if mask&8 != 0 {
		resp.Header("X-Default", "overridden")
	}
	if mask&16 != 0 {
		resp.ContentType("x/y")
	}
	if mask&32 != 0 {
		resp.Cookie(cookie.New("k", "v"))
	}
	if mask&64 != 0 {
		resp.String("body")
	}
	switch mask >> 7 {
	case 1:
		resp.Attachment(strings.NewReader("stream"), 6)
	case 2:
		resp.Attachment(closer{strings.NewReader("stream")}, -1)
	case 3:
		// the builder stays as it is, and another one answers
		return http.NewResponse().String("other")
	}
	return resp
}

func maskOf(path string) (int, bool) {
	if !strings.HasPrefix(path, "/m/") {
		return 0, false
	}
	n, err := strconv.Atoi(path[3:])
	return n, err == nil
}

// Requests combined of any subset of what a request may have.
const reqBits = 9

func combinedReq(mask int, path string) string {
	method, proto, target := "GET", "HTTP/1.1", path
	if mask&1 != 0 {
		target += "?q=%31&r"
	}
	h := ""
	if mask&2 != 0 {
		h += "Cookie: a=b\r\n"
	}
	if mask&4 != 0 {
		h += "Content-Type: t/t\r\nContent-Encoding: br\r\n"
	}
	if mask&8 != 0 {
		h += "X-One: 1\r\nx-one: 2\r\n"
	}
	if mask&16 != 0 {
		h += "Connection: keep-alive\r\n"
	}
	if mask&32 != 0 && mask&16 != 0 {
		proto = "HTTP/1.0"
	} else if mask&32 != 0 {
		h += "Upgrade: HTTP/1.1\r\n"
	}
	body := ""
	switch mask >> 6 & 3 {
	case 1:
		method = "POST"
		h += "Content-Length: 4\r\n"
		body = "data"
	case 2:
		method = "PUT"
		h += "Transfer-Encoding: chunked\r\n"
		body = "4\r\ndata\r\n0\r\n\r\n"
	case 3:
		method = "HEAD"
	}
	if mask&256 != 0 {
		h += "Trailer: T\r\n"
		if mask>>6&3 == 2 {
			body = "4\r\ndata\r\n0\r\nT: v\r\n\r\n"
		}
	}
	return method + " " + target + " " + proto + "\r\n" + h + "\r\n" + body
}

func combinedSpaces(r *mc.R) {
	run := func(reqs ...string) result { return runApp("bytes", reqs...) }
	r.Space("combined responses", func(c *mc.C) error {
		a := c.Choose(1 << respBits)
		m := mc.Pick(c, []string{"GET", "HEAD"})
		b := c.Choose(1 << respBits)
		if !r.Thorough() {
			// the later response has at most two of the parts, or all but one
			if n := ones(b & 127); n > 2 && n < 6 {
				return mc.ErrSkip
			}
		}
		return compare(c, run, []string{
			fmt.Sprintf("%s /m/%d HTTP/1.1\r\n\r\n", m, a),
			fmt.Sprintf("GET /m/%d HTTP/1.1\r\n\r\n", b),
		})
	})
	for _, mode := range []string{"none", "bytes"} {
		mode := mode
		run := func(reqs ...string) result { return runApp(mode, reqs...) }
		r.Space("combined requests, body read by "+mode, func(c *mc.C) error {
			a, b := c.Choose(1<<reqBits), c.Choose(1<<reqBits)
			return compare(c, run, []string{combinedReq(a, "/string"), combinedReq(b, "/plain")})
		})
	}
	lengths := mc.Ladder(mc.Bound(r, 130, 2000))
	r.Space("long histories", func(c *mc.C) error {
		n := mc.Pick(c, lengths)
		a := mc.Pick(c, features).build(mc.Pick(c, []string{"/header", "/cookie", "/chunks", "/ctx"}))
		fs := append(append([]feature{}, features...), last...)
		b := mc.Pick(c, fs).build("/plain")
		reqs := make([]string, 0, n+1)
		for i := 0; i < n; i++ {
			reqs = append(reqs, a)
		}
		return compare(c, run, append(reqs, b))
	})
}

func ones(n int) (k int) {
	for ; n > 0; n &= n - 1 {
		k++
	}
	return k
}
