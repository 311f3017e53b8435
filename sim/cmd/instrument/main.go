// Command instrument writes an instrumented copy of the frozen module for the
// deterministic simulator.
//
//	instrument -src /repo -out DIR [-tags branch4] [-sync file.go,...] [-nomem]
//
// DIR receives the module's go.mod/go.sum, the selected non-test Go files of
// the packages the harness needs (rewritten), and sites.json.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	HFiles     []string
	EmbedFiles []string
	Imports    []string
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	tags := flag.String("tags", "", "build tags")
	syncOnly := flag.String("sync", "", "comma-separated relative files to instrument without memory hooks")
	nomem := flag.Bool("nomem", false, "no memory hooks at all")
	roots := flag.String("roots", ".,./lazy,./pkg/rel", "root packages")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	noMemFile := map[string]bool{}
	for _, f := range strings.Split(*syncOnly, ",") {
		if f != "" {
			noMemFile[f] = true
		}
	}

	args := []string{"list", "-export", "-deps", "-json"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, strings.Split(*roots, ",")...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, &p)
		}
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	sites := []string{""}
	for _, name := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(*src, name))
		if err == nil {
			write(filepath.Join(*out, name), data)
		}
	}
	goVersion := "go1.19"
	if data, err := os.ReadFile(filepath.Join(*src, "go.mod")); err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			if v, ok := strings.CutPrefix(l, "go "); ok {
				goVersion = "go" + strings.TrimSpace(v)
			}
		}
	}

	for _, p := range pkgs {
		rel, err := filepath.Rel(*src, p.Dir)
		if err != nil {
			die("%v", err)
		}
		var files []*ast.File
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, GoVersion: goVersion, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, f := range files {
			relFile := filepath.Join(rel, p.GoFiles[i])
			c := &ctx{
				fset: fset, info: info, pkg: tp, file: relFile,
				mem: !*nomem && !noMemFile[relFile], sites: &sites,
			}
			c.transformFile(f)
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, f); err != nil {
				die("%s: %v", relFile, err)
			}
			write(filepath.Join(*out, relFile), buf.Bytes())
		}
		for _, name := range append(append(append([]string{}, p.SFiles...), p.HFiles...), p.EmbedFiles...) {
			data, err := os.ReadFile(filepath.Join(p.Dir, name))
			if err != nil {
				die("%v", err)
			}
			write(filepath.Join(*out, rel, name), data)
		}
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
	}
	js, _ := json.Marshal(sites)
	write(filepath.Join(*out, "sites.json"), js)
}

func write(path string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		die("%v", err)
	}
}
