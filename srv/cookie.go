package srv

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http/cookie"
)

// CheckCookie reads a Set-Cookie value back and compares it with the cookie.
func CheckCookie(value string, c cookie.Cookie) error {
	parts := strings.Split(value, ";")
	name, val, ok := strings.Cut(parts[0], "=")
	if !ok || name != c.Name || val != c.Value {
		return fmt.Errorf("the cookie %q=%q is rendered as %q", c.Name, c.Value, value)
	}
	attrs := map[string]string{}
	for _, p := range parts[1:] {
		p = strings.TrimPrefix(p, " ")
		k, v, ok := strings.Cut(p, "=")
		k = strings.ToLower(k)
		if k == "max-age" {
			k = "maxage"
		}
		flag := k == "secure" || k == "httponly"
		if ok == flag {
			return fmt.Errorf("malformed attribute %q in %q", p, value)
		}
		if _, dup := attrs[k]; dup {
			return fmt.Errorf("attribute %q is repeated in %q", p, value)
		}
		attrs[k] = v
	}
	want := map[string]string{}
	put := func(k, v string) {
		if v != "" {
			want[k] = v
		}
	}
	put("path", c.Path)
	put("domain", c.Domain)
	put("samesite", c.SameSite)
	if c.MaxAge > 0 {
		put("maxage", strconv.Itoa(c.MaxAge))
	} else if c.MaxAge < 0 {
		put("maxage", "0")
	}
	if c.Secure {
		want["secure"] = ""
	}
	if c.HttpOnly {
		want["httponly"] = ""
	}
	if exp, ok := attrs["expires"]; ok != !c.Expires.IsZero() {
		return fmt.Errorf("the expiration %v of the cookie is rendered as %q", c.Expires, value)
	} else if ok {
		t, err := time.Parse("Mon, 02 Jan 2006 15:04:05 GMT", exp)
		if err != nil || t.Unix() != c.Expires.Unix() || t.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT") != exp {
			return fmt.Errorf("the expiration %v of the cookie is rendered as %q", c.Expires.UTC(), exp)
		}
		delete(attrs, "expires")
	}
	if len(want) != len(attrs) {
		return fmt.Errorf("the attributes of %+v are rendered as %q", c, value)
	}
	for k, v := range want {
		if got, ok := attrs[k]; !ok || got != v {
			return fmt.Errorf("the attribute %s=%q is rendered as %q", k, v, value)
		}
	}
	return nil
}
