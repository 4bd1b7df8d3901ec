// overlay writes copies of gocryptsftp's concurrent packages with a scheduling
// perturbation call before every statement, and prints the -overlay file for go build.
// Nothing in /repo changes.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const yieldPkg = `package zzvp

import (
	"math/rand/v2"
	"os"
	"runtime"
	"time"
)

var level = func() uint32 {
	switch os.Getenv("VH_PERTURB") {
	case "0":
		return 0
	case "2":
		return 2
	}
	return 1
}()

// Y perturbs the schedule. It takes no lock and uses no shared variable, so that it adds
// no happens-before edges.
func Y() {
	if level == 0 {
		return
	}
	x := rand.Uint32()
	switch {
	case x&7 == 0:
		runtime.Gosched()
	case x&0x3ff == 1 || (level == 2 && x&0x3f == 1):
		time.Sleep(time.Duration(x>>20) * 20 * time.Nanosecond)
	case x&0x3fff == 2 || (level == 2 && x&0x3ff == 2):
		time.Sleep(time.Duration(x>>20) * 500 * time.Nanosecond)
	}
}
`

// configHook gives the harness what the package's own tests use: the pwReader variable.
const configHook = `package config

func VerifSetReader(r PasswordReader) PasswordReader {
	old := pwReader
	pwReader = r
	return old
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	must(os.MkdirAll(out, 0755))
	repl := map[string]string{}
	if len(os.Args) > 3 && os.Args[3] == "C28" {
		h := filepath.Join(out, "hook.go")
		must(os.WriteFile(h, []byte(configHook), 0644))
		repl[filepath.Join(repo, "config", "zz_verif.go")] = h
		b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
		fmt.Println(string(b))
		return
	}
	yf := filepath.Join(out, "zzvp.go")
	must(os.WriteFile(yf, []byte(yieldPkg), 0644))
	repl[filepath.Join(repo, "zzvp", "zzvp.go")] = yf
	n := 0
	for _, dir := range []string{"requester", "filetree", "backend", "handlers", "gocrypt/contentenc", "gocrypt/cryptocore", "gocrypt/nametransform", "gocrypt/siv_aead"} {
		fs, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, ok := instrument(f)
			if !ok {
				continue
			}
			o := filepath.Join(out, fmt.Sprintf("f%d.go", n))
			n++
			must(os.WriteFile(o, b, 0644))
			repl[f] = o
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	fmt.Println(string(b))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(f string) ([]byte, bool) {
	src, err := os.ReadFile(f)
	if err != nil {
		return nil, false
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	var at []int
	add := func(l []ast.Stmt) {
		for _, s := range l {
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	for _, d := range file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			collect(fd.Body, add)
		}
	}
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	var sb strings.Builder
	pkgEnd := fset.Position(file.Name.End()).Offset
	sb.Write(src[:pkgEnd])
	sb.WriteString(`; import zzvp "github.com/flawedmatrix/gocryptsftp/zzvp"`)
	last := pkgEnd
	for _, o := range at {
		sb.Write(src[last:o])
		sb.WriteString("zzvp.Y();")
		last = o
	}
	sb.Write(src[last:])
	return []byte(sb.String()), true
}

// collect adds the statements of every statement list below n; the clauses of switch and
// select bodies are not statements to insert before.
func collect(n ast.Node, add func([]ast.Stmt)) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
}
