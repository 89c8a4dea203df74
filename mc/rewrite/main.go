// Command rewrite instruments the non-test sources of the module in the current
// directory, out of tree: rewrite OUTDIR OVERLAY.json [-maps] [-sync].
//
//	-maps  every range over a map asks internal/verifmc/order for its order;
//	       the functions of package maps are replaced likewise
//	-sync  sync and sync/atomic are replaced by internal/verifmc/zsync and
//	       internal/verifmc/zatomic
//
// It judges by types, so it does not matter how the code is written.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Main bool }
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(1)
	}
}

type edit struct {
	pos, end int
	text     string
}

func main() {
	out, overlay := os.Args[1], os.Args[2]
	var maps, syncs bool
	for _, a := range os.Args[3:] {
		maps = maps || a == "-maps"
		syncs = syncs || a == "-sync"
	}
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	exports := map[string]string{}
	var mine []pkg
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(e)
	})
	replace := map[string]string{}
	sites := []string{}
	for _, p := range mine {
		if strings.Contains(p.ImportPath, "/verifmc/") {
			continue
		}
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			check(err)
			files = append(files, a)
			names = append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			src, err := os.ReadFile(names[i])
			check(err)
			rel := strings.TrimPrefix(names[i], filepath.Dir(p.Dir)+"/")
			off := func(pos token.Pos) int { return fset.Position(pos).Offset }
			var es []edit
			imports := ""
			for _, im := range f.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				alias, to := "", ""
				switch {
				case syncs && path == "sync":
					alias, to = "sync", "zsync"
				case syncs && path == "sync/atomic":
					alias, to = "atomic", "zatomic"
				case maps && path == "maps":
					alias, to = "maps", "order"
				}
				if to == "" {
					continue
				}
				text := strconv.Quote("github.com/hangulize/hangulize/internal/verifmc/" + to)
				if im.Name == nil {
					text = alias + " " + text
				}
				es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), text})
			}
			if maps {
				ast.Inspect(f, func(n ast.Node) bool {
					r, ok := n.(*ast.RangeStmt)
					if !ok {
						return true
					}
					t := info.TypeOf(r.X)
					if t == nil {
						return true
					}
					if _, ok := t.Underlying().(*types.Map); !ok {
						return true
					}
					site := fmt.Sprintf("%s:%d", rel, fset.Position(r.Pos()).Line)
					sites = append(sites, site)
					id := len(sites)
					e, v := fmt.Sprintf("zzE%d", id), fmt.Sprintf("zzV%d", id)
					text := func(x ast.Expr) string { return string(src[off(x.Pos()):off(x.End())]) }
					blank := func(x ast.Expr) bool {
						i, ok := x.(*ast.Ident)
						return x == nil || ok && i.Name == "_"
					}
					body := fmt.Sprintf("%s, zzOK := %s.Get(); if !zzOK { continue }; _ = %s; ", v, e, v)
					op := r.Tok.String()
					if !blank(r.Key) {
						body += text(r.Key) + " " + op + " " + e + ".K; "
					}
					if !blank(r.Value) {
						body += text(r.Value) + " " + op + " " + v + "; "
					}
					// for K, V := range X {
					es = append(es,
						edit{off(r.For), off(r.X.Pos()), fmt.Sprintf("for _, %s := range zzorder.Iter(%q, ", e, site)},
						edit{off(r.X.End()), off(r.Body.Lbrace) + 1, ") { " + body})
					return true
				})
				if len(es) > 0 {
					imports = `; import zzorder "github.com/hangulize/hangulize/internal/verifmc/order"; var _ = zzorder.Used`
				}
			}
			if len(es) == 0 {
				continue
			}
			// The declaration must come after the imports.
			if imports != "" {
				decl := "; var _ = zzorder.Used"
				imports = strings.TrimSuffix(imports, decl)
				es = append(es, edit{off(f.Name.End()), off(f.Name.End()), imports})
				es = append(es, edit{len(src), len(src), "\nvar _ = zzorder.Used\n"})
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].pos < es[j].pos })
			var w bytes.Buffer
			at := 0
			for _, e := range es {
				if e.pos < at {
					check(fmt.Errorf("overlapping edits in %s", names[i]))
				}
				w.Write(src[at:e.pos])
				w.WriteString(e.text)
				at = e.end
			}
			w.Write(src[at:])
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
			check(os.WriteFile(dst, w.Bytes(), 0o644))
			replace[names[i]] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace, "Sites": sites}, "", " ")
	check(os.WriteFile(overlay, j, 0o644))
}
