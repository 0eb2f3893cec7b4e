package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

// Responses with something of any size: /big/<kind>/<n>
var bigResponses = []string{"string", "write", "value", "headers", "cookies", "sized", "chunked", "json", "reason", "overridden"}

func filler(n int) string { return strings.Repeat("0123456789abcdefghijklm", n/23+1)[:n] }

func bigResponse(r *http.Request, path string) *http.Response {
	parts := strings.Split(path, "/")
	n, err := strconv.Atoi(parts[3])
	if err != nil {
		panic(err)
	}
	resp := r.Respond()
	switch parts[2] {
	case "string":
		return resp.String(filler(n))
	case "write":
		_, _ = resp.Write([]byte(filler(n)))
		return resp
	case "value":
		return resp.Header("X-Large", filler(n))
	case "headers":
		for i := 0; i < n && i < 3000; i++ {
			resp.Header(fmt.Sprint("X-", i), "v")
		}
		return resp
	case "cookies":
		for i := 0; i < n && i < 3000; i++ {
			resp.Cookie(cookie.New(fmt.Sprint("c", i), "v"))
		}
		return resp
	case "sized":
		return resp.Attachment(strings.NewReader(filler(n)), n)
	case "chunked":
		return resp.Attachment(strings.NewReader(filler(n)), -1)
	case "json":
		return resp.JSON(filler(n))
	case "reason":
		return resp.Status("R" + filler(n))
	default:
		return resp.Header("Server", filler(n)).Header("X-Default", "mine").String(filler(n))
	}
}

// Requests with something of any size.
var bigRequests = []struct {
	name string
	make func(n int) string
}{
	{"path", func(n int) string { return "GET /" + filler(n) + " HTTP/1.1\r\n\r\n" }},
	{"escaped path", func(n int) string { return "GET /%41" + filler(n) + " HTTP/1.1\r\n\r\n" }},
	{"query", func(n int) string { return "GET /plain?" + filler(n) + "=1&b HTTP/1.1\r\n\r\n" }},
	{"parameters", func(n int) string { return "GET /plain?x" + strings.Repeat("&a=b", n/4) + " HTTP/1.1\r\n\r\n" }},
	{"value", func(n int) string { return "GET /plain HTTP/1.1\r\nX-Large: " + filler(n) + "\r\n\r\n" }},
	{"key", func(n int) string { return "GET /plain HTTP/1.1\r\nX-" + filler(n) + ": large\r\n\r\n" }},
	{"cookie", func(n int) string { return "GET /plain HTTP/1.1\r\nCookie: a=" + filler(n) + "; b=c\r\n\r\n" }},
	{"headers", func(n int) string {
		var s strings.Builder
		for i := 0; i < n && i < 3000; i++ {
			fmt.Fprintf(&s, "K%d: v\r\n", i)
		}
		return "GET /plain HTTP/1.1\r\n" + s.String() + "\r\n"
	}},
	{"content type", func(n int) string {
		return "POST /plain HTTP/1.1\r\nContent-Type: " + filler(n) + "\r\nContent-Length: 2\r\n\r\nab"
	}},
	{"connection", func(n int) string {
		return "GET /plain HTTP/1.1\r\nConnection: " + filler(n) + ", keep-alive\r\n\r\n"
	}},
	{"body", func(n int) string {
		return fmt.Sprintf("POST /plain HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", n, filler(n))
	}},
	{"chunk", func(n int) string {
		if n == 0 {
			return "POST /plain HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"
		}
		return fmt.Sprintf("POST /plain HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", n, filler(n))
	}},
}

func runLarge(mode string, reqs ...string) result {
	a := &app{mode: mode}
	cfg := srv.Config()
	const much = 1 << 24
	cfg.URL.BufferSize.Maximal = much
	cfg.Headers.Number.Maximal = much
	cfg.Headers.MaxKeyLength, cfg.Headers.MaxValueLength = much, much
	cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal = much, much
	cfg.Body.MaxChunkSize = much
	cfg.TCP.ReadBufferSize = 5000
	cfg.Headers.Default = map[string]string{"Server": "default", "X-Default": "d"}
	conn := srv.NewConn([]byte(strings.Join(reqs, "")))
	if err := srv.Serve(cfg, conn, 0, a); err != nil {
		return result{err: err}
	}
	out, ends, err := canon(conn.Out.Bytes(), heads(reqs))
	return result{strings.Join(a.seen, "\n") + "\n", strings.Join(a.errs, "\n"), out, err, ends}
}

func largeSpaces(r *mc.R) {
	sizes := mc.Ladder(mc.Bound(r, 1<<18, 1<<21))
	small := func(c *mc.C) string {
		return combinedReq(mc.Pick(c, []int{0, 1, 2, 8, 64, 64 + 128, 256 + 128, 511 - 32}), mc.Pick(c, []string{"/plain", "/over", "/write", "/chunks"}))
	}
	for _, mode := range []string{"none", "bytes", "read3"} {
		mode := mode
		r.Space("behind large requests, read by "+mode, func(c *mc.C) error {
			n := mc.Pick(c, sizes)
			what := mc.Pick(c, bigRequests)
			if mode == "read3" && n > 5000 {
				return mc.ErrSkip
			}
			b := small(c)
			return compareAs(c, fmt.Sprintf("a request with a %s of %d bytes, then %q", what.name, n, b),
				func(reqs ...string) result { return runLarge(mode, reqs...) }, []string{what.make(n), b})
		})
	}
	r.Space("behind large responses", func(c *mc.C) error {
		n := mc.Pick(c, sizes)
		a := fmt.Sprintf("%s /big/%s/%d HTTP/1.1\r\n\r\n", mc.Pick(c, []string{"GET", "HEAD"}), mc.Pick(c, bigResponses), n)
		b := small(c)
		return compareAs(c, fmt.Sprintf("%q", a+b), func(reqs ...string) result { return runLarge("bytes", reqs...) }, []string{a, b})
	})
}
