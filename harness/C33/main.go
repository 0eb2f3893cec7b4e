// C33: status codes, reason phrases, status lines, error values and media types are consistent
// with each other and with the registries.
package main

import (
	"fmt"
	"mime"
	"net/http"
	"strings"

	indigomime "github.com/indigo-web/indigo/http/mime"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

const unknown = "Unknown Status Code"

func main() {
	mc.Main("C33", func(r *mc.R) {
		r.Assume("reason phrases are compared with net/http of the installed Go, which the package says it is copied from")
		named := map[int]bool{}
		r.Space("named-codes", func(c *mc.C) error {
			e := codes[c.Choose(len(codes))]
			c.Step()
			if int(e.got) != e.want {
				return mc.Failf("code:"+e.name, "%s is %d, want %d", e.name, e.got, e.want)
			}
			c.State(e.name)
			return nil
		})
		for _, e := range codes {
			named[e.want] = true
		}
		r.Space("all-codes", func(c *mc.C) error {
			code := c.Choose(1<<8)<<8 | c.Choose(1<<8)
			c.Steps(2)
			text, line := status.Text(status.Code(code)), status.Line(status.Code(code))
			key := fmt.Sprint(code)
			c.Note("%d: %q %q", code, text, line)
			c.State(key)
			std := http.StatusText(code)
			switch {
			case std != "" && code != 306:
				if text != std {
					return mc.Failf("text:"+key, "Text(%d) = %q, want %q", code, text, std)
				}
				if want := fmt.Sprintf("%d %s\r\n", code, std); line != want {
					return mc.Failf("line:"+key, "Line(%d) = %q, want %q", code, line, want)
				}
			case named[code]:
				// an own code: whatever its phrase is, it must be a single line and agree
				if line != "" && line != fmt.Sprintf("%d %s\r\n", code, text) {
					return mc.Failf("line:"+key, "Line(%d) = %q disagrees with Text %q", code, line, text)
				}
			default:
				if text != unknown || line != "" {
					return mc.Failf("unknown:"+key, "unassigned %d: Text %q, Line %q", code, text, line)
				}
			}
			if strings.ContainsAny(text, "\r\n") {
				return mc.Failf("crlf:"+key, "Text(%d) has a line break", code)
			}
			return nil
		})
		r.Space("errors", func(c *mc.C) error {
			e := errs[c.Choose(len(errs))]
			c.Step()
			h, ok := e.err.(status.HTTPError)
			if !ok || int(h.Code) != e.want {
				return mc.Failf("err:"+e.name, "%s is %#v, want code %d", e.name, e.err, e.want)
			}
			if e.err.Error() == "" || e.err.Error() != h.Message {
				return mc.Failf("errtext:"+e.name, "%s has message %q, Error() %q", e.name, h.Message, e.err.Error())
			}
			c.State(e.name)
			return nil
		})
		r.Space("new-error", func(c *mc.C) error {
			code := status.Code(c.Choose(1<<8)<<8 | c.Choose(1<<8))
			msg := []string{"", "x", "a b"}[c.Choose(3)]
			c.Step()
			h, ok := status.NewError(code, msg).(status.HTTPError)
			if !ok || h.Code != code || h.Message != msg || h.Error() != msg {
				return mc.Failf("newerror", "NewError(%d, %q) = %#v", code, msg, h)
			}
			return nil
		})
		r.Space("media-types", func(c *mc.C) error {
			var keys []string
			for k := range exts {
				keys = append(keys, k)
			}
			c.Step()
			for _, k := range keys {
				if got := indigomime.Extension[k]; got != exts[k] {
					return mc.Failf("mime:"+k, "%s is served as %q, want %q", k, got, exts[k])
				}
			}
			for k, v := range indigomime.Extension {
				c.Step()
				c.State(k)
				if !strings.HasPrefix(k, ".") || k != strings.ToLower(k) {
					return mc.Failf("mime:"+k, "the extension %q can never match", k)
				}
				if _, _, err := mime.ParseMediaType(v); err != nil {
					return mc.Failf("mime:"+k, "%q is not a media type: %v", v, err)
				}
			}
			for _, p := range [][2]string{
				{indigomime.OctetStream, "application/octet-stream"}, {indigomime.PlainText, "text/plain"},
				{indigomime.HTML, "text/html"}, {indigomime.JSON, "application/json"},
			} {
				if p[0] != p[1] {
					return mc.Failf("mime:"+p[1], "the constant is %q, want %q", p[0], p[1])
				}
			}
			return nil
		})
	})
}
