// Package uf is an offline stand-in for github.com/indigo-web/utils/uf.
package uf

import "unsafe"

// B2S reinterprets bytes as a string without copying.
func B2S(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }

// S2B reinterprets a string as bytes without copying.
func S2B(s string) (b []byte) {
	if len(s) == 0 {
		return nil
	}
	return unsafe.Slice(*(**byte)(unsafe.Pointer(&s)), len(s))
}
