// Command instr makes copies of the library's sources that record, at run
// time, which blocks are executed, how often, and which index is used in every
// array, slice or string access.  It writes an overlay file for go build; the
// repository is not touched.
//
//	instr REPO TAGS OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const tracer = `package veriftrace

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
)

// Sum and Count describe the sequence of events so far.
var Sum, Count uint64

// Rec, if not nil, records every event.
var Rec func(site int, v int)

func ev(site, v int) {
	z := uint64(site)<<40 ^ uint64(v)
	z = (z + 0x9e3779b97f4a7c15)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	Sum = (Sum<<7 | Sum>>57) * 0x9e3779b97f4a7c15 + (z ^ (z >> 31))
	Count++
	if Rec != nil {
		Rec(site, v)
	}
}

// B is the start of a block.
func B(site int) { ev(site, 0) }

// I is an index.
func I(site int, v int) int { ev(site, v); return v }

// K records the key of a map.
func K(site int, k interface{}) interface{} {
	h := fnv.New32a()
	fmt.Fprintf(h, "%v", k)
	ev(site, int(h.Sum32()))
	return k
}

// T and F mark the evaluation of the right side of && and ||.
func T(site int) bool { ev(site, 0); return true }
func F(site int) bool { ev(site, 0); return false }

// prefix is how far a comparison that stops early gets.
func prefix(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

func BytesEqual(site int) func(a, b []byte) bool {
	return func(a, b []byte) bool { ev(site, prefix(a, b)); return bytes.Equal(a, b) }
}

func BytesHasPrefix(site int) func(a, b []byte) bool {
	return func(a, b []byte) bool { ev(site, prefix(a, b)); return bytes.HasPrefix(a, b) }
}

func BytesCompare(site int) func(a, b []byte) int {
	return func(a, b []byte) int { ev(site, prefix(a, b)); return bytes.Compare(a, b) }
}

func BytesIndex(site int) func(a, b []byte) int {
	return func(a, b []byte) int { r := bytes.Index(a, b); ev(site, r); return r }
}

func BytesContains(site int) func(a, b []byte) bool {
	return func(a, b []byte) bool { ev(site, bytes.Index(a, b)); return bytes.Contains(a, b) }
}

func BytesIndexByte(site int) func(a []byte, b byte) int {
	return func(a []byte, b byte) int { r := bytes.IndexByte(a, b); ev(site, r); return r }
}

// Eq is a comparison of arrays or structures.
func Eq(site int, a, b interface{}) bool {
	ev(site, same(reflect.ValueOf(a), reflect.ValueOf(b)))
	return a == b
}

func same(a, b reflect.Value) int {
	n := 0
	if a.Type() != b.Type() {
		return 0
	}
	switch a.Kind() {
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			k := same(a.Index(i), b.Index(i))
			n += k
			if k == 0 || k < size(a.Index(i)) {
				return n
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			k := same(a.Field(i), b.Field(i))
			n += k
			if k == 0 || k < size(a.Field(i)) {
				return n
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() == b.Int() {
			n = 1
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() == b.Uint() {
			n = 1
		}
	default:
		n = 1
	}
	return n
}

func size(a reflect.Value) int {
	n := 0
	switch a.Kind() {
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			n += size(a.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			n += size(a.Field(i))
		}
	default:
		n = 1
	}
	return n
}

// Big is an operand of arithmetic on numbers of varying length.
func Big(site int, x *big.Int) *big.Int {
	if x != nil {
		ev(site, x.BitLen())
	}
	return x
}
`

type edit struct {
	off  int
	seq  int
	text string
}

var sites []string

type imp struct {
	done map[string]*types.Package
}

// std reads the few packages whose types matter; the others stay unknown.
var std = importer.ForCompiler(token.NewFileSet(), "source", nil)

func (i imp) Import(path string) (*types.Package, error) {
	if p := i.done[path]; p != nil {
		return p, nil
	}
	if path == "math/big" {
		return std.Import(path)
	}
	// enough to know the type of a digest
	if n, ok := digests[path]; ok {
		p := types.NewPackage(path, path[strings.LastIndexByte(path, '/')+1:])
		b := types.NewSlice(types.Typ[types.Byte])
		for f, k := range n {
			in := types.NewTuple(types.NewVar(token.NoPos, p, "data", b))
			res := types.NewTuple(types.NewVar(token.NoPos, p, "", types.NewArray(types.Typ[types.Byte], k)))
			p.Scope().Insert(types.NewFunc(token.NoPos, p, f, types.NewSignatureType(nil, nil, nil, in, res, false)))
		}
		p.MarkComplete()
		i.done[path] = p
		return p, nil
	}
	return nil, fmt.Errorf("not loaded: %s", path)
}

var digests = map[string]map[string]int64{
	"crypto/sha256": {"Sum256": 32, "Sum224": 28},
	"crypto/sha512": {"Sum512": 64, "Sum384": 48, "Sum512_256": 32, "Sum512_224": 28},
}

var leaky = map[string]bool{"Equal": true, "HasPrefix": true, "Compare": true, "Index": true, "Contains": true, "IndexByte": true}

func main() {
	repo, tags, out := os.Args[1], os.Args[2], os.Args[3]
	mod := "github.com/bwesterb/go-ristretto"
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				mod = f[1]
			}
		}
	}
	ctx := build.Default
	ctx.CgoEnabled = true
	if tags != "" {
		ctx.BuildTags = strings.Split(tags, ",")
	}
	rep := map[string]string{}
	im := imp{done: map[string]*types.Package{}}
	// packages below the root that the root imports, then the root
	dirs := []string{"edwards25519", ""}
	// any other package directory (a refactoring may add one), except the C one
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		r, _ := filepath.Rel(repo, p)
		if r == "." {
			return nil
		}
		if strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || r == "cref" || strings.HasPrefix(r, "examples") {
			return filepath.SkipDir
		}
		if r != "edwards25519" {
			dirs = append([]string{r}, dirs...)
		}
		return nil
	})
	for _, d := range dirs {
		instrument(repo, mod, d, out, &ctx, im, rep)
	}
	tr := filepath.Join(out, "veriftrace.go")
	names := "\nvar Sites = []string{\n"
	for _, s := range sites {
		names += fmt.Sprintf("\t%q,\n", s)
	}
	must(os.WriteFile(tr, []byte(tracer+names+"}\n"), 0o644))
	rep[filepath.Join(repo, "veriftrace", "trace.go")] = tr
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(repo, mod, dir, out string, ctx *build.Context, im imp, rep map[string]string) {
	full := filepath.Join(repo, dir)
	es, err := os.ReadDir(full)
	must(err)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || e.IsDir() {
			continue
		}
		if ok, err := ctx.MatchFile(full, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(full, n), nil, parser.ParseComments)
		must(err)
		files = append(files, f)
		names = append(names, n)
	}
	if len(files) == 0 {
		return
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	cfg := types.Config{Importer: im, Error: func(error) {}, FakeImportC: true}
	path := mod
	if dir != "" {
		path += "/" + filepath.ToSlash(dir)
	}
	pkg, _ := cfg.Check(path, fset, files, info)
	if pkg != nil {
		pkg.MarkComplete()
		im.done[path] = pkg
	}
	for i, f := range files {
		src, err := os.ReadFile(filepath.Join(full, names[i]))
		must(err)
		res := rewrite(fset, f, info, src, mod, filepath.Join(dir, names[i]))
		dst := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, names[i]), string(filepath.Separator), "__"))
		must(os.WriteFile(dst, res, 0o644))
		rep[filepath.Join(full, names[i])] = dst
	}
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src []byte, mod, name string) []byte {
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p int, s string) { eds = append(eds, edit{p, len(eds), s}) }
	site := func(p token.Pos, what string) int {
		sites = append(sites, fmt.Sprintf("%s:%d %s", name, fset.Position(p).Line, what))
		return len(sites) - 1
	}
	block := func(b *ast.BlockStmt, what string) {
		if b == nil {
			return
		}
		add(off(b.Lbrace)+1, fmt.Sprintf(" vt__.B(%d); ", site(b.Lbrace, what)))
	}
	isInt := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil || tv.Value != nil {
			return false
		}
		b, ok := tv.Type.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	indexable := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil || tv.IsType() {
			return false
		}
		switch u := tv.Type.Underlying().(type) {
		case *types.Array, *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Basic:
			return u.Info()&types.IsString != 0
		}
		return false
	}
	// keyType is the type of x's index if x is an element of a map.
	keyType := func(x *ast.IndexExpr) string {
		tv, ok := info.Types[x.X]
		if !ok || tv.Type == nil || tv.IsType() {
			return ""
		}
		m, ok := tv.Type.Underlying().(*types.Map)
		if !ok {
			return ""
		}
		k, ok := info.Types[x.Index]
		if !ok || k.Value != nil || !types.Identical(k.Type, m.Key()) {
			return ""
		}
		return types.TypeString(m.Key(), func(p *types.Package) string {
			if p == nil || p.Name() == f.Name.Name {
				return ""
			}
			return p.Name()
		})
	}
	wrap := func(e ast.Expr, what string) {
		if e == nil || !isInt(e) {
			return
		}
		add(off(e.Pos()), fmt.Sprintf("vt__.I(%d, int(", site(e.Pos(), what)))
		add(off(e.End()), "))")
	}
	bytesName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"bytes"` {
			bytesName = "bytes"
			if im.Name != nil {
				bytesName = im.Name.Name
			}
		}
	}
	isBig := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		return ok && !tv.IsType() && tv.Type != nil && tv.Type.String() == "*math/big.Int"
	}
	composite := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		switch tv.Type.Underlying().(type) {
		case *types.Array, *types.Struct:
			return true
		}
		return false
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncDecl:
			block(x.Body, "func "+x.Name.Name)
		case *ast.FuncLit:
			block(x.Body, "func literal")
		case *ast.IfStmt:
			block(x.Body, "if")
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				block(b, "else")
			}
		case *ast.ForStmt:
			block(x.Body, "for")
		case *ast.RangeStmt:
			block(x.Body, "range")
		case *ast.CaseClause:
			add(off(x.Colon)+1, fmt.Sprintf(" vt__.B(%d); ", site(x.Colon, "case")))
		case *ast.CommClause:
			add(off(x.Colon)+1, fmt.Sprintf(" vt__.B(%d); ", site(x.Colon, "select")))
		case *ast.IndexExpr:
			if indexable(x.X) {
				wrap(x.Index, "index")
			} else if t := keyType(x); t != "" {
				add(off(x.Index.Pos()), fmt.Sprintf("vt__.K(%d, ", site(x.Index.Pos(), "map key")))
				add(off(x.Index.End()), ").("+t+")")
			}
		case *ast.SliceExpr:
			if indexable(x.X) {
				wrap(x.Low, "slice")
				wrap(x.High, "slice")
				wrap(x.Max, "slice")
			}
		case *ast.CallExpr:
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if id, ok := sel.X.(*ast.Ident); ok && bytesName != "" && id.Name == bytesName && leaky[sel.Sel.Name] {
				add(off(sel.Pos()), fmt.Sprintf("vt__.Bytes%s(%d)/*", sel.Sel.Name, site(sel.Pos(), "bytes."+sel.Sel.Name)))
				add(off(sel.End()), "*/")
				return true
			}
			if isBig(sel.X) {
				for _, a := range append([]ast.Expr{sel.X}, x.Args...) {
					if _, lit := a.(*ast.UnaryExpr); lit || !isBig(a) {
						continue
					}
					add(off(a.Pos()), fmt.Sprintf("vt__.Big(%d, ", site(a.Pos(), "big.Int")))
					add(off(a.End()), ")")
				}
			}
		case *ast.BinaryExpr:
			if (x.Op == token.EQL || x.Op == token.NEQ) && composite(x.X) && composite(x.Y) {
				not := ""
				if x.Op == token.NEQ {
					not = "!"
				}
				add(off(x.Pos()), fmt.Sprintf("%svt__.Eq(%d, ", not, site(x.OpPos, "comparison")))
				add(off(x.OpPos), ",/*")
				add(off(x.OpPos)+2, "*/")
				add(off(x.End()), ")")
				return true
			}
			if x.Op != token.LAND && x.Op != token.LOR {
				return true
			}
			if tv, ok := info.Types[x]; ok && tv.Value != nil {
				return false
			}
			if x.Op == token.LAND {
				add(off(x.Y.Pos()), fmt.Sprintf("vt__.T(%d) && (", site(x.Y.Pos(), "&&")))
			} else {
				add(off(x.Y.Pos()), fmt.Sprintf("vt__.F(%d) || (", site(x.Y.Pos(), "||")))
			}
			add(off(x.Y.End()), ")")
		case *ast.GenDecl:
			// constant expressions stay as they are
			if x.Tok == token.CONST || x.Tok == token.TYPE {
				return false
			}
		case *ast.ArrayType:
			return false
		}
		return true
	})
	add(off(f.Name.End()), fmt.Sprintf("; import vt__ %q", mod+"/veriftrace"))
	tail := "\nvar _ = vt__.B\n"
	if bytesName != "" && bytesName != "_" && bytesName != "." {
		tail += "var _ = " + bytesName + ".Equal\n"
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		// an end comes before a start at the same place; otherwise
		// outer starts first, inner ends first
		ei, ej := strings.HasPrefix(eds[i].text, ")"), strings.HasPrefix(eds[j].text, ")")
		if ei != ej {
			return ei
		}
		if ei {
			return eds[i].seq > eds[j].seq
		}
		return eds[i].seq < eds[j].seq
	})
	var res []byte
	last := 0
	for _, e := range eds {
		res = append(res, src[last:e.off]...)
		res = append(res, e.text...)
		last = e.off
	}
	res = append(res, src[last:]...)
	return append(res, tail...)
}
