package srv

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// This file is an independent reading of what a byte stream denotes: the whole stream at once,
// line by line, with no state machine and no code of the repository.

// RefReq is a request of the reference.
type RefReq struct {
	Method, Path, Query, Proto string
	Headers                    []Header
	CL                         int
	HasCL                      bool
	CT, Conn, Upgrade          string
	TE, CE                     []string
	Chunked, Trailer           bool
	Body                       string
	// BodyErr tells that the body is malformed or cut short.
	BodyErr bool
	// Grey tells that the request may as well be refused as a bad one.
	Grey bool
	// End is the position behind the request with its body, HeadEnd the one behind the head.
	HeadEnd, End int
}

// String renders it the way Describe does.
func (r *RefReq) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %q ?%q %s ", r.Method, r.Path, r.Query, r.Proto)
	for _, h := range r.Headers {
		fmt.Fprintf(&b, "|%q=%q", h.Key, h.Value)
	}
	up := r.Upgrade
	if up != "" {
		up += " "
	}
	te, ce := r.TE, r.CE
	if te == nil {
		te = []string{}
	}
	if ce == nil {
		ce = []string{}
	}
	fmt.Fprintf(&b, "|cl=%d ct=%q conn=%q te=%q ce=%q ch=%v tr=%v up=%s enc=%d", r.CL, r.CT, r.Conn, te, ce, r.Chunked, r.Trailer, up, 0)
	return b.String()
}

// KeepAlive tells whether the connection persists behind the request.
func (r *RefReq) KeepAlive() bool {
	has := func(tok string) bool {
		for _, t := range strings.Split(r.Conn, ",") {
			if strings.EqualFold(strings.TrimSpace(t), tok) {
				return true
			}
		}
		return false
	}
	if r.Proto == "HTTP/1.1" {
		return !has("close")
	}
	return has("keep-alive")
}

// Verdict is what becomes of a stream behind the requests that are served.
type Verdict struct {
	// Codes are the statuses the fault may be answered with; empty if there is no fault.
	Codes map[int]bool
	// Complete tells that a whole head is there, so a fault must be answered.
	Complete bool
	// Grey tells that nothing is claimed from here on.
	Grey bool
	// Why describes the fault.
	Why string
}

func (v Verdict) String() string {
	return fmt.Sprintf("{codes %v complete %v grey %v %s}", v.Codes, v.Complete, v.Grey, v.Why)
}

func (v *Verdict) fault(why string, codes ...int) {
	if v.Codes == nil {
		v.Codes = map[int]bool{}
	}
	for _, c := range codes {
		v.Codes[c] = true
	}
	v.Why += why + "; "
}

// Limits are the configured ones the reference knows of.
type Limits struct {
	MaxTokens, MaxHeaders int
}

// DefaultLimits are those of the default configuration.
var DefaultLimits = Limits{15, 50}

// Ref reads the stream: the requests to be served, in order, and what follows them.
func Ref(stream string, lim Limits) (reqs []*RefReq, v Verdict) {
	pos := 0
	for pos < len(stream) {
		r, v, n := refHead(stream[pos:], lim)
		if len(v.Codes) > 0 || !v.Complete {
			return reqs, v
		}
		r.HeadEnd = pos + n
		body, m, ok := refBody(stream[pos+n:], r)
		r.Body, r.BodyErr = body, !ok
		r.End = pos + n + m
		reqs = append(reqs, r)
		if r.Grey {
			return reqs, Verdict{Grey: true}
		}
		if r.BodyErr || !r.KeepAlive() {
			return reqs, Verdict{}
		}
		pos = r.End
	}
	return reqs, Verdict{}
}

var methods = map[string]bool{"GET": true, "HEAD": true, "POST": true, "PUT": true, "DELETE": true, "CONNECT": true,
	"OPTIONS": true, "TRACE": true, "PATCH": true}

func refHead(s string, lim Limits) (r *RefReq, v Verdict, n int) {
	r = &RefReq{}
	sp := strings.IndexByte(s, ' ')
	if sp < 0 {
		if strings.Contains(s, "\n") {
			// it can never become a request any more, though there is no need to tell it already
			v.fault("no method", 400, 501)
		}
		return nil, v, 0
	}
	r.Method = s[:sp]
	switch {
	case r.Method == "":
		v.fault("empty method", 400, 501)
	case !methods[r.Method]:
		v.fault("unknown method", 501)
		if strings.ContainsAny(r.Method, "\r\n\t\x00") {
			v.fault("", 400)
			if t := strings.TrimLeft(r.Method, "\r\n"); methods[t] {
				r.Grey = true // empty lines in front of a request
			}
		}
	}
	rest := s[sp+1:]
	lf := strings.IndexByte(rest, '\n')
	if lf < 0 {
		return nil, v, 0
	}
	line := strings.TrimSuffix(rest[:lf], "\r")
	n = sp + 1 + lf + 1
	last := strings.LastIndexByte(line, ' ')
	if last < 0 {
		v.fault("no protocol", 400, 505)
	} else {
		target := line[:last]
		r.Proto = line[last+1:]
		if r.Proto != "HTTP/1.0" && r.Proto != "HTTP/1.1" {
			v.fault("protocol", 505)
			if !strings.HasPrefix(r.Proto, "HTTP/") || len(r.Proto) != 8 {
				v.fault("", 400)
			}
		}
		if strings.Contains(target, "\r") {
			v.fault("CR in the target", 400)
		}
		if strings.ContainsAny(target, " \t\x00") {
			r.Grey = true
		}
		raw, query, _ := strings.Cut(target, "?")
		r.Query = query
		if raw == "" {
			v.fault("empty path", 400)
		}
		path, ok := refUnescape(raw)
		if !ok {
			v.fault("malformed escape", 400)
		}
		r.Path = path
		if raw != "" && raw[0] != '/' && raw != "*" {
			r.Grey = true
		}
		for i := 0; i < len(target); i++ {
			if target[i] < 0x20 || target[i] >= 0x7f {
				r.Grey = true
			}
		}
	}
	count, cls := 0, 0
	for {
		rest = s[n:]
		lf = strings.IndexByte(rest, '\n')
		if lf < 0 {
			refPartial(rest, &v)
			return nil, v, 0
		}
		n += lf + 1
		line = strings.TrimSuffix(rest[:lf], "\r")
		if line == "" {
			break
		}
		key, value, ok := strings.Cut(line, ":")
		if !ok {
			v.fault("no colon", 400)
			continue
		}
		if key == "" || strings.ContainsAny(key, " \t\r") {
			v.fault("malformed name", 400)
			continue
		}
		for i := 0; i < len(key); i++ {
			if !isTchar(key[i]) {
				r.Grey = true
			}
		}
		count++
		if count > lim.MaxHeaders {
			v.fault("too many headers", 431)
		}
		value = strings.TrimLeft(value, " ")
		if strings.Contains(value, "\r") {
			v.fault("CR in a value", 400)
			if strings.EqualFold(key, "content-length") && len(strings.TrimLeft(value, "0")) > 17 {
				v.fault("", 413)
			}
			continue
		}
		if strings.HasPrefix(value, "\t") || strings.HasSuffix(value, "\t") || strings.HasSuffix(value, " ") {
			// whether this whitespace belongs to the value is not specified
			if !strings.EqualFold(key, "content-length") || strings.Contains(value, "\t") {
				r.Grey = true
			}
		}
		for i := 0; i < len(value); i++ {
			if value[i] < 0x20 && value[i] != '\t' || value[i] == 0x7f {
				r.Grey = true
			}
		}
		switch strings.ToLower(key) {
		case "content-length":
			cls++
			if cls > 1 {
				v.fault("several lengths", 400)
			}
			value = strings.Trim(value, " ")
			n, err := strconv.ParseUint(value, 10, 64)
			digits := value != "" && strings.Trim(value, "0123456789") == ""
			switch {
			case !digits:
				v.fault("malformed length", 400)
				if t := strings.Trim(value, " \t"); t != "" && strings.Trim(t, "0123456789") == "" {
					r.Grey = true
				}
				if big := strings.TrimLeft(value, "0"); len(big) > 17 {
					v.fault("", 413) // the overflow may be noticed first
				}
			case err != nil || n > math.MaxInt64-20:
				v.fault("length overflow", 413, 400)
			default:
				r.CL, r.HasCL = int(n), true
			}
			continue // it is only shown as a field
		case "content-type":
			r.CT = value
		case "connection":
			if r.Conn != "" {
				r.Grey = true // which one counts is not specified
			}
			r.Conn = value
		case "upgrade":
			if r.Upgrade != "" {
				r.Grey = true
			}
			r.Upgrade = ""
			for _, t := range strings.Split(value, ",") {
				t = strings.TrimSpace(t)
				if t == "h2c" || t == "H2C" {
					r.Upgrade = "HTTP/2"
					break
				}
				if t == "http/1.0" || t == "http/1.1" || t == "HTTP/1.0" || t == "HTTP/1.1" {
					r.Upgrade = strings.ToUpper(t)
					break
				}
			}
			if r.Upgrade != "" {
				r.Grey = true // C31
			}
		case "trailer":
			r.Trailer = true
		case "content-encoding":
			r.CE = append(r.CE, tokens(value)...)
		case "transfer-encoding":
			r.TE = append(r.TE, tokens(value)...)
			for _, t := range r.TE {
				if strings.EqualFold(t, "chunked") {
					r.Chunked = true
				}
			}
		}
		r.Headers = append(r.Headers, Header{key, value})
		if len(r.TE) > lim.MaxTokens || len(r.CE) > lim.MaxTokens {
			v.fault("too many encodings", 415)
		}
	}
	v.Complete = true
	if r.Grey && len(v.Codes) > 0 {
		v.Grey = true
	}
	return r, v, n
}

// refPartial looks for faults in a line without an end.
func refPartial(line string, v *Verdict) {
	if strings.HasPrefix(line, "\r") && len(line) > 1 {
		v.fault("CR", 400)
	}
	key, value, ok := strings.Cut(line, ":")
	if key != "" && strings.ContainsAny(key, " \t\r") && key != "\r" || ok && key == "" {
		v.fault("malformed name", 400)
	}
	if ok && strings.EqualFold(key, "content-length") {
		t := strings.TrimSuffix(strings.Trim(value, " "), "\r")
		t = strings.Trim(t, " ")
		if strings.Trim(t, "0123456789") != "" || strings.HasSuffix(value, "\r") && t == "" {
			v.fault("malformed length", 400)
		}
		if len(strings.TrimLeft(t, "0")) > 17 {
			v.fault("length overflow", 413, 400)
		}
	}
	// further faults within an unfinished line (a second length, one header too many)
	// are possible, too
	if ok {
		v.fault("possibly in an unfinished line", 400, 431)
	}
}

func tokens(value string) (toks []string) {
	for _, t := range strings.Split(value, ",") {
		if t = strings.TrimSpace(t); t != "" {
			toks = append(toks, t)
		}
	}
	return toks
}

func isTchar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0
}

func refUnescape(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b.WriteByte(s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
		if err != nil || s[i+1] == '+' || s[i+1] == '-' {
			return "", false
		}
		b.WriteByte(byte(n))
		i += 2
	}
	return b.String(), true
}

// refBody returns the body, how much of the stream it takes, and whether it is sound.
func refBody(s string, r *RefReq) (string, int, bool) {
	if !r.Chunked {
		if len(s) < r.CL {
			return "", len(s), false
		}
		return s[:r.CL], r.CL, true
	}
	var body strings.Builder
	pos := 0
	line := func() (string, bool) {
		lf := strings.IndexByte(s[pos:], '\n')
		if lf < 0 {
			return "", false
		}
		l := strings.TrimSuffix(s[pos:pos+lf], "\r")
		if strings.Contains(l, "\r") {
			r.Grey = true
		}
		if !strings.HasSuffix(s[pos:pos+lf], "\r") {
			r.Grey = true // a bare LF within the framing
		}
		pos += lf + 1
		return l, true
	}
	for {
		l, ok := line()
		if !ok {
			return "", 0, false
		}
		size := l
		if i := strings.IndexAny(l, "; \t"); i >= 0 {
			size = l[:i]
			r.Grey = true // extensions
		}
		n, err := strconv.ParseUint(size, 16, 40)
		if err != nil || strings.Trim(size, "0123456789abcdefABCDEF") != "" {
			return "", 0, false
		}
		if n > 128*1024 {
			return "", 0, false
		}
		if n == 0 {
			break
		}
		if uint64(len(s)-pos) < n {
			return "", 0, false
		}
		body.WriteString(s[pos : pos+int(n)])
		pos += int(n)
		l, ok = line()
		if !ok || l != "" {
			return "", 0, false
		}
	}
	for {
		l, ok := line()
		if !ok {
			return "", 0, false
		}
		if l == "" {
			return body.String(), pos, true
		}
		if !r.Trailer {
			return "", 0, false
		}
	}
}
