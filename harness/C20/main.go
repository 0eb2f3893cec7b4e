// C20: listen addresses are completed and classified correctly, with or without a port.
package main

import (
	"strings"

	"github.com/indigo-web/indigo/internal/address"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

// host is the reference: what is left of the port, IPv6 literals in brackets.
func host(addr string) string {
	if strings.HasPrefix(addr, "[") {
		if end := strings.IndexByte(addr, ']'); end > 1 {
			return addr[1:end]
		}
	}
	h, _, _ := strings.Cut(addr, ":")
	return h
}

// ipv4 is an independent recogniser of dotted quads.
func ipv4(s string) bool {
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return false
	}
	for _, p := range parts {
		if len(p) == 0 || len(p) > 3 || (len(p) > 1 && p[0] == '0') {
			return false
		}
		n := 0
		for _, c := range p {
			if c < '0' || c > '9' {
				return false
			}
			n = n*10 + int(c-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

// the IPv6 literals of the alphabet, and whether they are ones
var ipv6 = map[string]bool{"::1": true, "::": true, "fe80::1": true, "2001:db8::2": true, "1::2::3": false, ":::": false, "12345::": false}

func check(c *mc.C, addr string) error {
	h := host(addr)
	c.Steps(3)
	c.Note("%q", addr)
	want := addr
	if h == "" {
		want = "0.0.0.0" + addr
	}
	if got := address.Normalize(addr); got != want {
		return mc.Failf("normalize:"+addr, "Normalize(%q) = %q, want %q", addr, got, want)
	}
	if got := address.Normalize(want); got != want {
		return mc.Failf("idempotent:"+addr, "Normalize(%q) = %q, although already complete", want, got)
	}
	for _, a := range []string{addr, want} {
		h := host(a)
		if got, want := address.IsLocalhost(a), strings.ToLower(h) == "localhost"; got != want {
			return mc.Failf("localhost:"+a, "IsLocalhost(%q) = %v, want %v", a, got, want)
		}
		v6, in6 := ipv6[h]
		isIP := ipv4(h)
		if in6 && strings.HasPrefix(a, "[") {
			isIP = v6
		}
		if got := address.IsIP(a); got != isIP {
			return mc.Failf("ip:"+a, "IsIP(%q) = %v, want %v", a, got, isIP)
		}
	}
	c.State(want)
	return nil
}

func main() {
	mc.Main("C20", func(r *mc.R) {
		ports := []string{"", ":", ":0", ":80", ":8080", ":65535", ":http"}
		r.Space("quads", func(c *mc.C) error {
			octets := []string{"0", "1", "10", "255", "256", "1000", "", "a", "01", "-1"}
			var parts []string
			for n := 3 + c.Choose(3); len(parts) < n; {
				parts = append(parts, mc.Pick(c, octets))
			}
			return check(c, strings.Join(parts, ".")+mc.Pick(c, ports))
		})
		r.Space("octets", func(c *mc.C) error {
			i := c.Choose(4)
			v := c.Choose(300)
			parts := []string{"1", "2", "3", "4"}
			parts[i] = itoa(v)
			return check(c, strings.Join(parts, ".")+mc.Pick(c, ports))
		})
		r.Space("hosts", func(c *mc.C) error {
			hosts := []string{"", "localhost", "Localhost", "LOCALHOST", "localhost.", "local", "localhosts", "xlocalhost",
				"example.com", "a.localhost", "localhost.com", "[::1]", "[::]", "[fe80::1]", "[2001:db8::2]", "[1::2::3]", "[:::]", "[12345::]",
				"localhost ", "127.0.0.1", "0.0.0.0"}
			return check(c, mc.Pick(c, hosts)+mc.Pick(c, ports))
		})
		r.Space("case-of-localhost", func(c *mc.C) error {
			mask := c.Choose(1 << 9)
			b := []byte("localhost")
			for i := range b {
				if mask&(1<<i) != 0 {
					b[i] -= 32
				}
			}
			return check(c, string(b)+mc.Pick(c, ports))
		})
		r.Space("all-ports", func(c *mc.C) error {
			return check(c, mc.Pick(c, []string{"", "localhost", "example.com", "1.2.3.4", "[::1]", "0.0.0.0"})+":"+itoa(c.Choose(65536)))
		})
		r.Space("lengths", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 3000, 70000)))
			h := strings.Repeat(mc.Pick(c, []string{"a", "a.", "1.", "localhost", "0"}), n)
			if c.Bool() {
				h += "localhost"
			}
			if strings.HasSuffix(h, ".") {
				h += "x"
			}
			return check(c, h+mc.Pick(c, ports))
		})
		// every byte of addresses replaced by every other one
		r.Space("bytes", func(c *mc.C) error {
			b := []byte(mc.Pick(c, []string{"localhost", "127.0.0.1", "255.255.255.255", "10.20.30.40", "example.com"}))
			b[c.Choose(len(b))] = byte(c.Choose(256))
			if strings.ContainsAny(string(b), "[]:") {
				return mc.ErrSkip
			}
			return check(c, string(b)+mc.Pick(c, ports))
		})
		r.Space("all-strings", func(c *mc.C) error {
			alphabet := "a.:01l2"
			n := c.Choose(mc.Bound(r, 7, 9))
			b := make([]byte, n)
			colons := 0
			for i := range b {
				b[i] = alphabet[c.Choose(len(alphabet))]
				if b[i] == ':' {
					colons++
				}
			}
			if colons > 1 {
				return mc.ErrSkip // neither host:port nor a bracketed IPv6 literal: not an address to listen on
			}
			return check(c, string(b))
		})
	})
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + itoa(n%10)
}
