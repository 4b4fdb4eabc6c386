// Command instr writes copies of packages of the repository that report the
// blocks they enter and the positions of slices and arrays they touch, and an
// overlay with them. Packages of the repository which those given depend on
// are included.
//
//	instr OVERLAY-IN OVERLAY-OUT SCRATCH TAGS REPO TRACE.go PKG...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func die(a ...any) { fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...); os.Exit(1) }

const tracePath = "github.com/henrydcase/nobs/zzverif"

// bigTimed are the operations of math/big that take time depending on the value of the operands, not just the size.
var bigTimed = map[string]bool{"ModInverse": true, "Exp": true, "Div": true, "Mod": true, "DivMod": true, "Quo": true, "Rem": true,
	"QuoRem": true, "GCD": true, "ModSqrt": true, "Cmp": true, "CmpAbs": true, "Jacobi": true}

type pkgInfo struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	ImportMap               map[string]string
}

type edit struct {
	at, del int
	ord     int
	text    string
}

var pos []string

func newID(fset *token.FileSet, p token.Pos, repo, what string) string {
	q := fset.Position(p)
	rel, _ := filepath.Rel(repo, q.Filename)
	pos = append(pos, fmt.Sprintf("%s:%d: %s", rel, q.Line, what))
	return fmt.Sprint(len(pos) - 1)
}

func main() {
	if len(os.Args) < 8 {
		die("arguments")
	}
	in, out, scratch, tags, repo, traceSrc := os.Args[1], os.Args[2], os.Args[3], os.Args[4], os.Args[5], os.Args[6]
	want := map[string]bool{}
	for _, p := range os.Args[7:] {
		want[p] = true
	}
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(in)
	if err != nil || json.Unmarshal(b, &ov) != nil {
		die("overlay", err)
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,ImportMap", "-tags", tags, "-overlay", in}, os.Args[7:]...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	for d := json.NewDecoder(bytes.NewReader(o)); ; {
		var p pkgInfo
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if want[p.ImportPath] || strings.HasPrefix(p.ImportPath, "github.com/henrydcase/nobs/") {
			pkgs = append(pkgs, p)
		}
	}
	for _, p := range pkgs {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m := p.ImportMap[path]; m != "" {
				path = m
			}
			if exports[path] == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(exports[path])
		})
		var files []*ast.File
		var names []string
		src := map[string][]byte{}
		for _, f := range p.GoFiles {
			name := f
			if !filepath.IsAbs(name) {
				name = filepath.Join(p.Dir, f)
			}
			from := name
			if r, ok := ov.Replace[name]; ok {
				from = r
			}
			b, err := os.ReadFile(from)
			if err != nil {
				die(err)
			}
			a, err := parser.ParseFile(fset, name, b, parser.ParseComments)
			if err != nil {
				die(err)
			}
			files, names = append(files, a), append(names, name)
			src[name] = b
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("types of", p.ImportPath, err)
		}
		for i, f := range files {
			name := names[i]
			if _, laid := ov.Replace[name]; laid {
				continue
			}
			res := rewrite(fset, f, info, src[name], repo)
			dst := filepath.Join(scratch, fmt.Sprintf("%s_%d_%s", strings.ReplaceAll(p.ImportPath, "/", "_"), i, filepath.Base(name)))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				die(err)
			}
			ov.Replace[name] = dst
		}
	}
	// positions
	var t bytes.Buffer
	t.WriteString("package zzverif\n\nvar Pos = []string{\n")
	for _, s := range pos {
		fmt.Fprintf(&t, "%q,\n", s)
	}
	t.WriteString("}\n")
	pf := filepath.Join(scratch, "zz_pos.go")
	if err := os.WriteFile(pf, t.Bytes(), 0o644); err != nil {
		die(err)
	}
	ov.Replace[filepath.Join(repo, "zzverif", "pos.go")] = pf
	ov.Replace[filepath.Join(repo, "zzverif", "trace.go")] = traceSrc
	b, _ = json.Marshal(ov)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		die(err)
	}
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src []byte, repo string) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ord := 0
	ins := func(p token.Pos, text string) { ord++; edits = append(edits, edit{at: off(p), ord: ord, text: text}) }
	// text put behind an expression: inner expressions end first
	insEnd := func(p token.Pos, text string) { ord++; edits = append(edits, edit{at: off(p), ord: -ord, text: text}) }
	id := func(p token.Pos, what string) string { return newID(fset, p, repo, what) }
	isConst := func(e ast.Expr) bool { return info.Types[e].Value != nil }
	isInt := func(e ast.Expr) bool {
		b, ok := info.Types[e].Type.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0
	}
	wrap := func(e ast.Expr, fn, what string) {
		if e == nil || isConst(e) || !isInt(e) {
			return
		}
		if fn == "I" {
			ins(e.Pos(), fmt.Sprintf("zzverif.I(%s, int(", id(e.Pos(), what)))
			insEnd(e.End(), "))")
			return
		}
		// the repository's language version has no type parameters
		t, ok := info.Types[e].Type.(*types.Basic)
		if !ok {
			return
		}
		ins(e.Pos(), fmt.Sprintf("%s(zzverif.%s(%s, uint64(", t.Name(), fn, id(e.Pos(), what)))
		insEnd(e.End(), ")))")
	}
	block := func(b *ast.BlockStmt, what string) {
		if b != nil {
			ins(b.Lbrace+1, fmt.Sprintf(" zzverif.B(%s); ", id(b.Pos(), what)))
		}
	}
	extra := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GenDecl:
			// initial values of package variables and constants
			return v.Tok == token.VAR || v.Tok == token.CONST || v.Tok == token.TYPE
		case *ast.ArrayType:
			return false
		case *ast.FuncDecl:
			block(v.Body, "function "+v.Name.Name)
		case *ast.FuncLit:
			block(v.Body, "function literal")
		case *ast.IfStmt:
			block(v.Body, "if taken")
			if e, ok := v.Else.(*ast.BlockStmt); ok {
				block(e, "else taken")
			}
		case *ast.ForStmt:
			block(v.Body, "loop body")
		case *ast.RangeStmt:
			block(v.Body, "loop body")
		case *ast.CaseClause:
			ins(v.Colon+1, fmt.Sprintf(" zzverif.B(%s); ", id(v.Pos(), "case")))
		case *ast.CommClause:
			ins(v.Colon+1, fmt.Sprintf(" zzverif.B(%s); ", id(v.Pos(), "case")))
		case *ast.IndexExpr:
			if t := info.Types[v.X].Type; t != nil && info.Types[v.X].IsValue() {
				switch u := t.Underlying().(type) {
				case *types.Slice, *types.Array:
					wrap(v.Index, "I", "index")
				case *types.Pointer:
					if _, ok := u.Elem().Underlying().(*types.Array); ok {
						wrap(v.Index, "I", "index")
					}
				case *types.Basic:
					wrap(v.Index, "I", "index")
				case *types.Map:
					wrap(v.Index, "D", "map key")
				}
			}
		case *ast.SliceExpr:
			wrap(v.Low, "I", "slice bound")
			wrap(v.High, "I", "slice bound")
			wrap(v.Max, "I", "slice bound")
		case *ast.BinaryExpr:
			if isConst(v) {
				return true
			}
			switch v.Op {
			case token.LAND, token.LOR:
				fn, op := "T", "&&"
				if v.Op == token.LOR {
					fn, op = "F", "||"
				}
				if t, ok := info.Types[v.Y].Type.(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
					ins(v.Y.Pos(), fmt.Sprintf("(zzverif.%s(%s) %s (", fn, id(v.Y.Pos(), "right operand of "+op), op))
					insEnd(v.Y.End(), "))")
				}
			case token.QUO, token.REM:
				if isConst(v.X) {
					wrap(v.Y, "D", "divisor")
				} else if !isConst(v.Y) {
					wrap(v.X, "D", "dividend")
					wrap(v.Y, "D", "divisor")
				}
			case token.EQL, token.NEQ:
				tx, ty := info.Types[v.X].Type, info.Types[v.Y].Type
				if tx == nil || ty == nil || !types.Identical(tx, ty) || isConst(v.X) || isConst(v.Y) {
					return true
				}
				ok := false
				switch u := tx.Underlying().(type) {
				case *types.Array:
					ok = true
				case *types.Struct:
					ok = true
				case *types.Basic:
					ok = u.Info()&types.IsString != 0
				}
				if ok {
					neg := ""
					if v.Op == token.NEQ {
						neg = "!"
					}
					ins(v.Pos(), fmt.Sprintf("(%szzverif.Eq(%s, ", neg, id(v.Pos(), "comparison")))
					edits = append(edits, edit{at: off(v.OpPos), del: 2, ord: ord, text: ","})
					insEnd(v.End(), "))")
				}
			}
		case *ast.CallExpr:
			if s, ok := v.Fun.(*ast.SelectorExpr); ok {
				if fn, ok := info.Uses[s.Sel].(*types.Func); ok && fn.Pkg() != nil {
					to := map[string]string{"bytes.Equal": "BytesEqual", "bytes.Compare": "BytesCompare", "reflect.DeepEqual": "DeepEqual"}[fn.Pkg().Path()+"."+fn.Name()]
					if sig := fn.Type().(*types.Signature); to != "" && sig.Recv() == nil {
						old := string(src[off(s.Pos()):off(s.End())])
						ord++
						edits = append(edits, edit{at: off(s.Pos()), del: off(s.End()) - off(s.Pos()), ord: ord, text: fmt.Sprintf("zzverif.%s(%s)", to, id(v.Pos(), old))})
						extra += "\nvar _ = " + old
					}
					if fn.Pkg().Path() == "math/big" && bigTimed[fn.Name()] {
						for _, a := range v.Args {
							if t := info.Types[a].Type; t != nil && t.String() == "*math/big.Int" {
								ins(a.Pos(), fmt.Sprintf("zzverif.Big(%s, ", id(a.Pos(), "operand of big."+fn.Name())))
								insEnd(a.End(), ")")
							}
						}
					}
				}
			}
		}
		return true
	})
	ins(f.Name.End(), "; import zzverif \""+tracePath+"\"")
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := edits[i], edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// closings (negative) before openings at the same place, inner before outer
		return a.ord < b.ord
	})
	var o bytes.Buffer
	p := 0
	for _, e := range edits {
		if e.at < p {
			die("edits overlap in", fset.Position(f.Pos()).Filename)
		}
		o.Write(src[p:e.at])
		o.WriteString(e.text)
		p = e.at + e.del
	}
	o.Write(src[p:])
	o.WriteString(extra + "\nvar _ = zzverif.B\n")
	return o.Bytes()
}
