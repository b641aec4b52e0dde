// Command simbuild prepares the build overlay of the simulator: a patched
// package runtime (deterministic scheduler) and a copy of the repository's
// packages with a scheduling point before every statement. Nothing in GOROOT
// or in the repository is written.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	goroot := flag.String("goroot", "", "GOROOT to patch")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	rt := flag.String("rt", "", "directory of files added to package runtime")
	gen := flag.String("gen", "", "output of simgen, mapped into the simulator's module")
	sim := flag.String("sim", "", "the simulator's module")
	weave := flag.Bool("weave", true, "weave scheduling points into the repository")
	flag.Parse()
	replace := map[string]string{}
	must(os.MkdirAll(filepath.Join(*out, "rt"), 0o755))

	// runtime
	byFile := map[string][]patch{}
	for _, p := range runtimePatches {
		byFile[p.file] = append(byFile[p.file], p)
	}
	for file, ps := range byFile {
		path := filepath.Join(*goroot, "src/runtime", file)
		if strings.Contains(file, "/") {
			path = filepath.Join(*goroot, "src", file)
		}
		b, err := os.ReadFile(path)
		must(err)
		s := string(b)
		for _, p := range ps {
			if n := strings.Count(s, p.old); n != 1 {
				fail("%s: anchor found %d times: %q", file, n, p.old)
			}
			s = strings.Replace(s, p.old, p.new, 1)
		}
		dst := filepath.Join(*out, "rt", strings.ReplaceAll(file, "/", "_"))
		writeIfChanged(dst, []byte(s))
		replace[path] = dst
	}
	added, err := filepath.Glob(filepath.Join(*rt, "*.go"))
	must(err)
	for _, f := range added {
		replace[filepath.Join(*goroot, "src/runtime", filepath.Base(f))] = f
	}

	// repository
	w := &weaver{}
	if *weave {
		var files []string
		for _, top := range []string{"pkg", "internal"} {
			must(filepath.WalkDir(filepath.Join(*repo, top), func(path string, d os.DirEntry, err error) error {
				if err != nil {
					return err
				}
				if d.IsDir() {
					if n := d.Name(); n == "testdata" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") {
						return filepath.SkipDir
					}
					return nil
				}
				n := d.Name()
				if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
					return nil
				}
				files = append(files, path)
				return nil
			}))
		}
		sort.Strings(files)
		for _, f := range files {
			src, err := os.ReadFile(f)
			must(err)
			res, ok := w.file(f, src)
			if !ok {
				continue
			}
			rel, err := filepath.Rel(*repo, f)
			must(err)
			dst := filepath.Join(*out, "weave", rel)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			writeIfChanged(dst, res)
			replace[f] = dst
		}
	}
	// generated routers and wrappers
	if *gen != "" {
		files, err := filepath.Glob(filepath.Join(*gen, "pkg/trait/*/*.go"))
		must(err)
		sort.Strings(files)
		for _, f := range files {
			src, err := os.ReadFile(f)
			must(err)
			rel := filepath.Join("gen", filepath.Base(filepath.Dir(f)), filepath.Base(f))
			n := len(w.sites)
			res, ok := w.file(f, src)
			if !ok {
				res = src
			}
			for i := n; i < len(w.sites); i++ {
				w.sites[i] = strings.Replace(w.sites[i], filepath.Join(*gen, "pkg/trait"), "gen", 1)
			}
			dst := filepath.Join(*out, "weave", rel)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			writeIfChanged(dst, res)
			replace[filepath.Join(*sim, rel)] = dst
		}
	}
	for i := range w.sites {
		w.sites[i] = strings.TrimPrefix(w.sites[i], *repo+"/")
	}
	writeIfChanged(filepath.Join(*out, "sites.txt"), []byte(strings.Join(w.sites, "\n")+"\n"))
	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	writeIfChanged(filepath.Join(*out, "overlay.json"), b)
	fmt.Printf("simbuild: %d overlay files, %d sites\n", len(replace), len(w.sites))
}

type weaver struct{ sites []string }

type insertion struct {
	off  int
	text string
}

// file returns the woven source. Line numbers are unchanged.
func (w *weaver) file(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false // the compiler will say what is wrong
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return nil, false
		}
	}
	if strings.HasSuffix(name, ".pb.go") && !strings.HasSuffix(name, "_router.pb.go") && !strings.HasSuffix(name, "_wrap.pb.go") {
		return nil, false
	}
	tf := fset.File(f.Pos())
	var ins []insertion
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.DeclStmt:
				if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
					continue
				}
			}
			p := fset.Position(s.Pos())
			w.sites = append(w.sites, fmt.Sprintf("%s:%d", p.Filename, p.Line))
			ins = append(ins, insertion{tf.Offset(s.Pos()), fmt.Sprintf("simrt.SimYield(%d);", len(w.sites))})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(ins) == 0 {
		return nil, false
	}
	// The name after "package" ends the clause.
	ins = append(ins, insertion{tf.Offset(f.Name.End()), `;import simrt "runtime"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	last := 0
	for _, in := range ins {
		out = append(out, src[last:in.off]...)
		out = append(out, in.text...)
		last = in.off
	}
	out = append(out, src[last:]...)
	return out, true
}

func writeIfChanged(path string, b []byte) {
	if old, err := os.ReadFile(path); err == nil && sha256.Sum256(old) == sha256.Sum256(b) {
		return
	}
	must(os.WriteFile(path, b, 0o644))
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simbuild: "+format+"\n", args...)
	os.Exit(3)
}
