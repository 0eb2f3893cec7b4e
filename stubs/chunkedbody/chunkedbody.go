// Package chunkedbody is an offline stand-in for github.com/indigo-web/chunkedbody:
// a streaming decoder of the chunked transfer coding (RFC 9112, 7.1).
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("bad request")
	ErrTooLarge   = errors.New("chunk is too large")
)

type Settings struct {
	MaxChunkSize int64
}

func DefaultSettings() Settings {
	return Settings{MaxChunkSize: 128 * 1024}
}

type state uint8

const (
	sSizeFirst state = iota // first digit of a chunk size
	sSize                   // further digits
	sExt                    // chunk extension, skipped
	sSizeLF                 // LF of the size line
	sData
	sDataCR // CR or LF after the data
	sDataLF
	sFinal   // line start after the zero-sized chunk
	sFinalLF // LF of the final CRLF
	sTrailer // inside a trailer line
)

type Parser struct {
	settings Settings
	state    state
	size     int64
}

func NewParser(settings Settings) *Parser {
	return &Parser{settings: settings}
}

// Parse consumes data. It returns at most one piece of chunk data with everything
// behind it as extra; io.EOF says the body has ended, extra is what follows it.
func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); {
		c := data[i]

		switch p.state {
		case sSizeFirst, sSize:
			v, ok := unhex(c)
			switch {
			case ok:
				p.size = p.size<<4 | int64(v)
				if p.size > p.settings.MaxChunkSize {
					return nil, nil, ErrTooLarge
				}
				p.state = sSize
			case p.state == sSizeFirst:
				return nil, nil, ErrBadRequest
			case c == '\r':
				p.state = sSizeLF
			case c == '\n':
				p.sizeDone()
			case c == ';' || c == ' ' || c == '\t':
				p.state = sExt
			default:
				return nil, nil, ErrBadRequest
			}
			i++
		case sExt:
			switch c {
			case '\r':
				p.state = sSizeLF
			case '\n':
				p.sizeDone()
			}
			i++
		case sSizeLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.sizeDone()
			i++
		case sData:
			rest := data[i:]
			if int64(len(rest)) < p.size {
				p.size -= int64(len(rest))
				return rest, nil, nil
			}
			chunk, extra = rest[:p.size], rest[p.size:]
			p.size = 0
			p.state = sDataCR
			return chunk, extra, nil
		case sDataCR:
			switch c {
			case '\r':
				p.state = sDataLF
			case '\n':
				p.state = sSizeFirst
			default:
				return nil, nil, ErrBadRequest
			}
			i++
		case sDataLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.state = sSizeFirst
			i++
		case sFinal:
			switch {
			case c == '\r':
				p.state = sFinalLF
			case c == '\n':
				p.state = sSizeFirst
				return nil, data[i+1:], io.EOF
			case trailer:
				p.state = sTrailer
			default:
				return nil, nil, ErrBadRequest
			}
			i++
		case sFinalLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.state = sSizeFirst
			return nil, data[i+1:], io.EOF
		case sTrailer:
			if c == '\n' {
				p.state = sFinal
			}
			i++
		}
	}

	return nil, nil, nil
}

func (p *Parser) sizeDone() {
	if p.size == 0 {
		p.state = sFinal
		return
	}
	p.state = sData
}

func unhex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}
