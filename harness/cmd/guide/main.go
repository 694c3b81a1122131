// Command guide makes copies of the library's sources that tell a search, at
// run time, which blocks were reached and how close the operands of each
// comparison came to each other.  It writes an overlay file for go build; the
// repository is not touched.
//
//	guide REPO TAGS OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeSrc = `package verifguide

import (
	"bytes"
	"math/bits"
	"reflect"
)

// On: feedback is being collected.
var On bool

// Hit says how often a block was reached, Dist how many bits the operands of a
// comparison differed in at best, plus one (0: not reached).
var (
	Hit  [NSites]uint32
	Dist [NSites]uint8
	Used []int32
)

// Pairs are operands that differed.
var Pairs [][2]uint64
var perSite [NSites]uint8
var where []int32
var rnd uint64

func Begin() {
	for _, s := range Used {
		Hit[s], Dist[s], perSite[s] = 0, 0, 0
	}
	Used, Pairs, where, rnd = Used[:0], Pairs[:0], where[:0], 1
	On = true
}

func End() { On = false }

func B(site int) {
	if !On {
		return
	}
	if Hit[site] == 0 {
		Used = append(Used, int32(site))
	}
	Hit[site]++
}

func cmp(site int, a, b uint64) {
	if !On {
		return
	}
	d := uint8(bits.OnesCount64(a^b)) + 1
	if Dist[site] == 0 {
		Used = append(Used, int32(site))
		Dist[site] = d
	} else if d < Dist[site] {
		Dist[site] = d
	}
	if a != b {
		if perSite[site] < 6 {
			perSite[site]++
			Pairs = append(Pairs, [2]uint64{a, b})
			where = append(where, int32(site))
		} else if rnd = rnd*6364136223846793005 + 1442695040888963407; rnd>>60 == 0 {
			// one of them is replaced now and then
			k := int(rnd>>32) % len(Pairs)
			if int(where[k]) == site {
				Pairs[k] = [2]uint64{a, b}
			}
		}
	}
}

func Eq(site int, a, b uint64) bool { cmp(site, a, b); return a == b }
func Ne(site int, a, b uint64) bool { cmp(site, a, b); return a != b }
func LtU(site int, a, b uint64) bool { cmp(site, a, b); return a < b }
func LeU(site int, a, b uint64) bool { cmp(site, a, b); return a <= b }
func GtU(site int, a, b uint64) bool { cmp(site, a, b); return a > b }
func GeU(site int, a, b uint64) bool { cmp(site, a, b); return a >= b }
func LtS(site int, a, b int64) bool { cmp(site, uint64(a), uint64(b)); return a < b }
func LeS(site int, a, b int64) bool { cmp(site, uint64(a), uint64(b)); return a <= b }
func GtS(site int, a, b int64) bool { cmp(site, uint64(a), uint64(b)); return a > b }
func GeS(site int, a, b int64) bool { cmp(site, uint64(a), uint64(b)); return a >= b }

// EqA compares arrays or structures.
func EqA(site int, a, b interface{}) bool {
	if On {
		first(site, reflect.ValueOf(a), reflect.ValueOf(b))
	}
	return a == b
}

// first reports the first words that differ.
func first(site int, a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return true
	}
	switch a.Kind() {
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if first(site, a.Index(i), b.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if first(site, a.Field(i), b.Field(i)) {
				return true
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		cmp(site, a.Uint(), b.Uint())
		return a.Uint() != b.Uint()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		cmp(site, uint64(a.Int()), uint64(b.Int()))
		return a.Int() != b.Int()
	}
	return false
}

// BytesEqual is bytes.Equal.
func BytesEqual(site int) func(a, b []byte) bool {
	return func(a, b []byte) bool {
		cmp(site, uint64(len(a)), uint64(len(b)))
		if On && len(a) == len(b) {
			for i := 0; i < len(a); i += 8 {
				var x, y uint64
				for j := i; j < i+8 && j < len(a); j++ {
					x |= uint64(a[j]) << uint(8*(j-i))
					y |= uint64(b[j]) << uint(8*(j-i))
				}
				if x != y {
					cmp(site, x, y)
					break
				}
			}
		}
		return bytes.Equal(a, b)
	}
}
`

type edit struct {
	off  int
	seq  int
	text string
}

var sites []string

type imp struct{ done map[string]*types.Package }

var std = importer.ForCompiler(token.NewFileSet(), "source", nil)

// The types of what the standard library returns matter less than an answer
// in a second: only packages that are read quickly are loaded.
func (i imp) Import(path string) (*types.Package, error) {
	if p := i.done[path]; p != nil {
		return p, nil
	}
	switch path {
	case "math/bits", "encoding/binary", "math/big", "bytes":
		return std.Import(path)
	}
	return nil, fmt.Errorf("not loaded: %s", path)
}

func main() {
	repo, tags, out := os.Args[1], os.Args[2], os.Args[3]
	mod := "github.com/bwesterb/go-ristretto"
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				mod = f[1]
			}
		}
	}
	ctx := build.Default
	ctx.CgoEnabled = true
	if tags != "" {
		ctx.BuildTags = strings.Split(tags, ",")
	}
	rep := map[string]string{}
	im := imp{done: map[string]*types.Package{}}
	dirs := []string{"edwards25519", ""}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		r, _ := filepath.Rel(repo, p)
		if r == "." {
			return nil
		}
		if strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || r == "cref" || strings.HasPrefix(r, "examples") {
			return filepath.SkipDir
		}
		if r != "edwards25519" {
			dirs = append([]string{r}, dirs...)
		}
		return nil
	})
	for _, d := range dirs {
		instrument(repo, mod, d, out, &ctx, im, rep)
	}
	src := runtimeSrc + fmt.Sprintf("\nconst NSites = %d\n\nvar Sites = []string{\n", len(sites)+1)
	for _, s := range sites {
		src += fmt.Sprintf("\t%q,\n", s)
	}
	tr := filepath.Join(out, "verifguide.go")
	must(os.WriteFile(tr, []byte(src+"}\n"), 0o644))
	rep[filepath.Join(repo, "verifguide", "guide.go")] = tr
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(repo, mod, dir, out string, ctx *build.Context, im imp, rep map[string]string) {
	full := filepath.Join(repo, dir)
	es, err := os.ReadDir(full)
	must(err)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || e.IsDir() {
			continue
		}
		if ok, err := ctx.MatchFile(full, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(full, n), nil, parser.ParseComments)
		must(err)
		files = append(files, f)
		names = append(names, n)
	}
	if len(files) == 0 {
		return
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	cfg := types.Config{Importer: im, Error: func(error) {}, FakeImportC: true}
	path := mod
	if dir != "" {
		path += "/" + filepath.ToSlash(dir)
	}
	pkg, _ := cfg.Check(path, fset, files, info)
	if pkg != nil {
		pkg.MarkComplete()
		im.done[path] = pkg
	}
	for i, f := range files {
		src, err := os.ReadFile(filepath.Join(full, names[i]))
		must(err)
		res := rewrite(fset, f, info, src, mod, filepath.Join(dir, names[i]))
		dst := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, names[i]), string(filepath.Separator), "__"))
		must(os.WriteFile(dst, res, 0o644))
		rep[filepath.Join(full, names[i])] = dst
	}
}

var ops = map[token.Token][2]string{
	token.EQL: {"Eq", "Eq"}, token.NEQ: {"Ne", "Ne"},
	token.LSS: {"LtU", "LtS"}, token.LEQ: {"LeU", "LeS"},
	token.GTR: {"GtU", "GtS"}, token.GEQ: {"GeU", "GeS"},
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src []byte, mod, name string) []byte {
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p int, s string) { eds = append(eds, edit{p, len(eds), s}) }
	site := func(p token.Pos, what string) int {
		sites = append(sites, fmt.Sprintf("%s:%d %s", name, fset.Position(p).Line, what))
		return len(sites) - 1
	}
	block := func(b *ast.BlockStmt, what string) {
		if b != nil {
			add(off(b.Lbrace)+1, fmt.Sprintf(" vg__.B(%d); ", site(b.Lbrace, what)))
		}
	}
	// kind of an integer operand: its basic type, or nil
	intType := func(e ast.Expr) *types.Basic {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil || tv.IsType() {
			return nil
		}
		b, ok := tv.Type.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
		return b
	}
	composite := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil || tv.IsType() {
			return false
		}
		switch tv.Type.Underlying().(type) {
		case *types.Array, *types.Struct:
			return true
		}
		return false
	}
	bytesName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"bytes"` {
			bytesName = "bytes"
			if im.Name != nil {
				bytesName = im.Name.Name
			}
		}
	}
	plain := map[ast.Expr]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.IfStmt:
			block(x.Body, "if")
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				block(b, "else")
			}
		case *ast.ForStmt:
			// loops over a fixed range need no guidance and would be slowed down
			if c, ok := x.Cond.(*ast.BinaryExpr); ok {
				if _, ok := c.X.(*ast.Ident); ok && info.Types[c.Y].Value != nil {
					plain[c] = true
				}
			}
		case *ast.CaseClause:
			add(off(x.Colon)+1, fmt.Sprintf(" vg__.B(%d); ", site(x.Colon, "case")))
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok && bytesName != "" && id.Name == bytesName && sel.Sel.Name == "Equal" {
					add(off(sel.Pos()), fmt.Sprintf("vg__.BytesEqual(%d)/*", site(sel.Pos(), "bytes.Equal")))
					add(off(sel.End()), "*/")
				}
			}
		case *ast.BinaryExpr:
			if tv, ok := info.Types[x]; ok && tv.Value != nil {
				return false
			}
			op, ok := ops[x.Op]
			if !ok || plain[x] {
				return true
			}
			n := len(x.Op.String())
			if (x.Op == token.EQL || x.Op == token.NEQ) && composite(x.X) && composite(x.Y) {
				not := ""
				if x.Op == token.NEQ {
					not = "!"
				}
				add(off(x.Pos()), fmt.Sprintf("%svg__.EqA(%d, ", not, site(x.OpPos, "comparison")))
				add(off(x.OpPos), ",/*")
				add(off(x.OpPos)+n, "*/")
				add(off(x.End()), ")")
				return true
			}
			a, b := intType(x.X), intType(x.Y)
			if a == nil || b == nil {
				return true
			}
			if a.Info()&types.IsUntyped != 0 {
				a = b
			}
			conv, fn := "uint64", op[0]
			if a.Info()&types.IsUnsigned == 0 && x.Op != token.EQL && x.Op != token.NEQ {
				conv, fn = "int64", op[1]
			}
			lit := func(e ast.Expr) string {
				tv := info.Types[e]
				if tv.Value == nil {
					return ""
				}
				if v, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
					if conv == "int64" {
						return fmt.Sprint(v)
					}
					return fmt.Sprint(uint64(v))
				}
				v, _ := constant.Uint64Val(constant.ToInt(tv.Value))
				return fmt.Sprint(v)
			}
			la, lb := lit(x.X), lit(x.Y)
			// vg__.Fn(site, conv(A), conv(B))
			head := fmt.Sprintf("vg__.%s(%d, ", fn, site(x.OpPos, x.Op.String()))
			if la != "" {
				add(off(x.Pos()), head+la+"/*")
				add(off(x.OpPos), "*/, "+conv+"(/*")
				add(off(x.OpPos)+n, "*/")
				add(off(x.End()), "))")
				return true
			}
			add(off(x.Pos()), head+conv+"(")
			if lb != "" {
				add(off(x.OpPos), "), "+lb+"/*")
				add(off(x.End()), "*/)")
				return true
			}
			add(off(x.OpPos), "), "+conv+"(/*")
			add(off(x.OpPos)+n, "*/")
			add(off(x.End()), "))")
		case *ast.GenDecl:
			if x.Tok == token.CONST || x.Tok == token.TYPE {
				return false
			}
		case *ast.ArrayType:
			return false
		}
		return true
	})
	add(off(f.Name.End()), fmt.Sprintf("; import vg__ %q", mod+"/verifguide"))
	tail := "\nvar _ = vg__.B\n"
	if bytesName != "" && bytesName != "_" && bytesName != "." {
		tail += "var _ = " + bytesName + ".Equal\n"
	}
	isEnd := func(s string) bool { return strings.HasPrefix(s, ")") || strings.HasPrefix(s, "*/)") }
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		ei, ej := isEnd(eds[i].text), isEnd(eds[j].text)
		if ei != ej {
			return ei
		}
		if ei {
			return eds[i].seq > eds[j].seq
		}
		return eds[i].seq < eds[j].seq
	})
	var res []byte
	last := 0
	for _, e := range eds {
		res = append(res, src[last:e.off]...)
		res = append(res, e.text...)
		last = e.off
	}
	res = append(res, src[last:]...)
	return append(res, tail...)
}
