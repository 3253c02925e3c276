// shimbuild EXE REPO PROP dir... builds ./PROP with the imports of "time",
// "sync" and "sync/atomic" in the named directories of REPO redirected to the
// shim packages (through a build overlay: REPO itself is not touched).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	exe, repo, prop, dirs := os.Args[1], os.Args[2], os.Args[3], os.Args[4:]
	tmp, err := os.MkdirTemp("", "shim")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			changed := false
			extra := ""
			for _, dc := range af.Decls {
				// the background trim, which only a ticker calls, made callable
				if fd, ok := dc.(*ast.FuncDecl); ok && d == "synccache" && fd.Recv != nil && fd.Name.Name == "trim" && len(fd.Type.Params.List) == 0 {
					extra = "\nfunc (sc *SyncCache[K, V]) VerifTrim() { sc.trim() }\n"
					changed = true
				}
			}
			for _, im := range af.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				base := filepath.Base(p)
				switch p {
				case "time", "sync", "sync/atomic":
					im.Path.Value = strconv.Quote("verif/replay/shim/" + base)
					if im.Name == nil {
						im.Name = ast.NewIdent(base)
					}
					changed = true
				}
			}
			if !changed {
				continue
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, af); err != nil {
				panic(err)
			}
			b.WriteString(extra)
			o := filepath.Join(tmp, strings.ReplaceAll(d, "/", "_")+"_"+filepath.Base(f))
			os.WriteFile(o, b.Bytes(), 0o644)
			repl[f] = o
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	c := exec.Command("go", "build", "-overlay", of, "-o", exe, "./"+prop)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	if err := c.Run(); err != nil {
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}
