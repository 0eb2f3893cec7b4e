// instr puts a scheduling point before every statement of the non-test files of a package.
// usage: instr OUTDIR IMPORTPATH-OF-VSCHED OVERLAY.json DIR...
// The instrumented copies are written to OUTDIR and entered into the overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

type insertion struct {
	at   int
	text string
	drop int // bytes of the source that are replaced
}

const point = "vschedpt.Point();"

func collect(fset *token.FileSet, f *ast.File) (ins []insertion) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			if local(s) {
				continue
			}
			ins = append(ins, insertion{at: off(s.Pos()), text: point})
		}
	}
	loops := func(b *ast.BlockStmt) {
		ins = append(ins, insertion{at: off(b.Rbrace), text: ";" + point})
	}
	keep := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && n.Sel.Name == "Listen" && (x.Name == "net" || x.Name == "tls") && x.Obj == nil {
				to := map[string]string{"net": "vschedpt.NetListen", "tls": "vschedpt.TLSListen"}[x.Name]
				ins = append(ins, insertion{at: off(n.Pos()), text: to, drop: int(n.End() - n.Pos())})
				keep[x.Name] = true
			}
			if x, ok := n.X.(*ast.Ident); ok && n.Sel.Name == "GenerateKey" && x.Name == "rsa" && x.Obj == nil {
				ins = append(ins, insertion{at: off(n.Pos()), text: "vschedpt.RSAKey", drop: int(n.End() - n.Pos())})
				keep[x.Name] = true
			}
		case *ast.ForStmt:
			loops(n.Body)
		case *ast.RangeStmt:
			loops(n.Body)
		}
		return true
	})
	if keep["net"] {
		ins = append(ins, insertion{at: off(f.End()), text: "\nvar _ = net.ErrClosed\n"})
	}
	if keep["rsa"] {
		ins = append(ins, insertion{at: off(f.End()), text: "\nvar _ = rsa.GenerateKey\n"})
	}
	if keep["tls"] {
		ins = append(ins, insertion{at: off(f.End()), text: "\nvar _ = tls.Listen\n"})
	}
	return ins
}

// local tells that a statement touches nothing others could see: a scheduling point before it
// adds no behaviour.
func local(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.BranchStmt:
		return true
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			switch e := e.(type) {
			case *ast.BasicLit:
			case *ast.Ident:
				if e.Name != "nil" && e.Name != "true" && e.Name != "false" {
					return false
				}
			default:
				return false
			}
		}
		return true
	case *ast.DeferStmt:
		sel, ok := s.Call.Fun.(*ast.SelectorExpr)
		return ok && sel.Sel.Name == "Unlock" && len(s.Call.Args) == 0
	}
	return false
}

func skip(src []byte) bool {
	for _, line := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(line, "package ") {
			return false
		}
		if constraint.IsGoBuild(line) {
			x, err := constraint.Parse(line)
			if err == nil && !x.Eval(func(tag string) bool {
				return tag == "linux" || tag == "amd64" || tag == "unix" || strings.HasPrefix(tag, "go1.")
			}) {
				return true
			}
		}
	}
	return false
}

func main() {
	out, vsched, overlay := os.Args[1], os.Args[2], os.Args[3]
	raw, err := os.ReadFile(overlay)
	if err != nil {
		die(err)
	}
	var ov struct{ Replace map[string]string }
	if err = json.Unmarshal(raw, &ov); err != nil {
		die(err)
	}
	n := 0
	for _, dir := range os.Args[4:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			die(err)
		}
		for _, file := range files {
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			src, err := os.ReadFile(file)
			if err != nil {
				die(err)
			}
			if skip(src) {
				continue
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, file, src, 0)
			if err != nil {
				die(err)
			}
			ins := collect(fset, f)
			if len(ins) == 0 {
				continue
			}
			ins = append(ins, insertion{at: fset.Position(f.Name.End()).Offset, text: fmt.Sprintf(";import vschedpt %q;", vsched)})
			sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
			var b strings.Builder
			last := 0
			for _, i := range ins {
				b.Write(src[last:i.at])
				b.WriteString(i.text)
				last = i.at + i.drop
			}
			b.Write(src[last:])
			n++
			dst := filepath.Join(out, fmt.Sprintf("i%d_%s", n, filepath.Base(file)))
			if err = os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				die(err)
			}
			ov.Replace[file] = dst
		}
	}
	raw, _ = json.MarshalIndent(ov, "", " ")
	if err = os.WriteFile(overlay, raw, 0o644); err != nil {
		die(err)
	}
}
