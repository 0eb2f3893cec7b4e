package srv

import (
	"fmt"
	"io"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
)

// Modes are the ways a recording handler reads bodies.
var Modes = []string{"none", "bytes", "string", "read1", "read3", "retrieve", "callback", "peek"}

// Rec is an application that records what it is shown, and answers with it.
type Rec struct {
	// Mode is how bodies are read, one of Modes.
	Mode string
	// Respond makes the response; the default is a description of the request and its body.
	Respond func(n int, r *http.Request, desc, body string, err error) *http.Response

	Reqs   []string // what was seen of each request
	Bodies []string
	Errs   []string // the errors of the connection
	Codes  []status.Code
}

func (a *Rec) Initialize() router.Router { return a }

// ReadBody reads the body of a request in one of the modes.
func ReadBody(r *http.Request, mode string) (body string, err error) {
	switch mode {
	case "none":
		return "", nil
	case "bytes":
		b, err := r.Body.Bytes()
		return string(b), err
	case "string":
		s, err := r.Body.String()
		return strings.Clone(s), err
	case "read1", "read3":
		buf := make([]byte, 1)
		if mode == "read3" {
			buf = make([]byte, 3)
		}
		var all []byte
		for i := 0; ; i++ {
			n, err := r.Body.Read(buf)
			all = append(all, buf[:n]...)
			if err == io.EOF {
				return string(all), nil
			}
			if err != nil {
				return string(all), err
			}
			if i > 1000000 {
				return string(all), fmt.Errorf("the body has no end")
			}
		}
	case "retrieve":
		var all []byte
		for i := 0; ; i++ {
			b, err := r.Body.Retrieve()
			all = append(all, b...)
			if err == io.EOF {
				return string(all), nil
			}
			if err != nil {
				return string(all), err
			}
			if i > 1000000 {
				return string(all), fmt.Errorf("the body has no end")
			}
		}
	case "callback":
		var all []byte
		err := r.Body.Callback(func(b []byte) error {
			all = append(all, b...)
			return nil
		})
		return string(all), err
	case "peek":
		buf := make([]byte, 1)
		for i := 0; ; i++ {
			n, err := r.Body.Read(buf)
			if err == io.EOF {
				err = nil
				i = 1 << 30
			}
			if n > 0 || err != nil || i > 1000000 {
				return string(buf[:n]), err
			}
		}
	}
	panic("unknown mode " + mode)
}

func (a *Rec) OnRequest(r *http.Request) *http.Response {
	desc := Describe(r)
	body, err := ReadBody(r, a.Mode)
	if again := Describe(r); again != desc {
		desc += " but after reading the body " + again
	}
	seen := fmt.Sprintf("%s body=%q", desc, body)
	if err != nil {
		// how much of a broken body is seen before the error is not determined
		seen = desc + " err"
	}
	a.Reqs = append(a.Reqs, seen)
	a.Bodies = append(a.Bodies, body)
	if a.Respond != nil {
		return a.Respond(len(a.Reqs)-1, r, desc, body, err)
	}
	if err != nil {
		return http.Error(r, err)
	}
	return http.String(r, seen)
}

func (a *Rec) OnError(r *http.Request, err error) *http.Response {
	a.Errs = append(a.Errs, err.Error())
	if e, ok := err.(status.HTTPError); ok {
		a.Codes = append(a.Codes, e.Code)
		return r.Respond().Code(e.Code).String(e.Message)
	}
	a.Codes = append(a.Codes, 0)
	return http.Error(r, err)
}

// Observation is everything that can be observed of a connection.
type Observation struct {
	Reqs []string
	Errs []string
	Out  string
}

func (o Observation) String() string {
	return fmt.Sprintf("requests %q\nerrors %q\noutput %q", o.Reqs, o.Errs, o.Out)
}

// Equal compares.
func (o Observation) Equal(p Observation) bool {
	if o.Out != p.Out || len(o.Reqs) != len(p.Reqs) || len(o.Errs) != len(p.Errs) {
		return false
	}
	for i := range o.Reqs {
		if o.Reqs[i] != p.Reqs[i] {
			return false
		}
	}
	for i := range o.Errs {
		if o.Errs[i] != p.Errs[i] {
			return false
		}
	}
	return true
}

// Observe serves the connection with the recorder.
func Observe(cfg config.Config, conn *Conn, a *Rec) (Observation, error) {
	err := Serve(cfg, conn, 0, a)
	return Observation{a.Reqs, a.Errs, conn.Out.String()}, err
}
