// Command sched makes copies of the library's sources in which other goroutines
// may get their turn before any statement.  It writes an overlay file for go
// build; the repository is not touched.
//
//	sched REPO TAGS OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeSrc = `package verifsched

import "runtime"

// Schedule says when goroutines take turns.
type Schedule struct {
	Seed   uint64
	Rate   uint64   // before one in Rate statements
	Places uint64   // at one in Places places
	At     []uint64 // before these statements, in order
	Pause  []uint64 // at these places, for long
}

// These are plain variables: the program runs on one processor and is only
// interrupted here.
var (
	on     bool
	record bool
	cur    Schedule
	count  uint64 // statements so far
	next   uint64 // when to look at the schedule again
	yields uint64
	flag   [NSites]uint8 // what to do at a place

	Passed [NSites]uint32 // how often each place was passed
	Shared [NSites]bool   // near a variable of the package
)

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Start lets goroutines take turns as s says.
func Start(s Schedule) {
	cur = s
	count, next, yields = 0, 0, 0
	for i := range flag {
		flag[i] = 0
		if s.Places > 0 && mix(s.Seed+uint64(i))%s.Places == 0 {
			flag[i] = 1
		}
	}
	for _, p := range s.Pause {
		flag[p%NSites] = 2
	}
	record = false
	plan()
	on = true
}

// Record counts how often places are passed.
func Record() {
	for i := range Passed {
		Passed[i] = 0
		flag[i] = 3
	}
	record, on = true, true
}

func Stop() { on = false }

// plan sets next.
func plan() {
	next = count + 20000 // nobody waits for ever for somebody who has no turn
	if cur.Rate > 0 {
		if n := count + 1 + mix(cur.Seed+count)%(2*cur.Rate-1); n < next {
			next = n
		}
	}
	if len(cur.At) > 0 && cur.At[0] < next {
		next = cur.At[0]
	}
}

// Y stands before every statement.
func Y(site int, shared bool) {
	if on {
		count++
		if flag[site] != 0 || count >= next {
			yield(site, shared)
		}
	}
}

func yield(site int, shared bool) {
	if record {
		Passed[site]++
		Shared[site] = shared
		return
	}
	n := 0
	if count >= next {
		for len(cur.At) > 0 && cur.At[0] <= count {
			cur.At = cur.At[1:]
		}
		n = 1 + int(mix(cur.Seed^count)>>62)
		plan()
	} else if flag[site] == 2 {
		if mix(cur.Seed^count)>>62 == 0 {
			return
		}
		n = 1 + int(mix(cur.Seed-count)%300)
	} else {
		if mix(cur.Seed^count)>>63 == 0 {
			return
		}
		n = 1 + int(mix(cur.Seed-count)>>62)
	}
	if yields > 1500 && mix(cur.Seed+3*count)%32 != 0 {
		// more of the same: go on more slowly
		n = 0
	}
	for ; n > 0; n-- {
		yields++
		runtime.Gosched()
	}
}
`

var sites int

func main() {
	repo, tags, out := os.Args[1], os.Args[2], os.Args[3]
	mod := "github.com/bwesterb/go-ristretto"
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				mod = f[1]
			}
		}
	}
	ctx := build.Default
	ctx.CgoEnabled = true
	if tags != "" {
		ctx.BuildTags = strings.Split(tags, ",")
	}
	rep := map[string]string{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		r, _ := filepath.Rel(repo, p)
		if r != "." && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || r == "cref" || strings.HasPrefix(r, "examples")) {
			return filepath.SkipDir
		}
		instrument(repo, mod, r, out, &ctx, rep)
		return nil
	})
	tr := filepath.Join(out, "verifsched.go")
	must(os.WriteFile(tr, []byte(runtimeSrc+fmt.Sprintf("\nconst NSites = %d\n", sites+1)), 0o644))
	rep[filepath.Join(repo, "verifsched", "sched.go")] = tr
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(repo, mod, dir, out string, ctx *build.Context, rep map[string]string) {
	full := filepath.Join(repo, dir)
	es, err := os.ReadDir(full)
	must(err)
	// names of the variables of the package
	globals := map[string]bool{}
	for _, e := range es {
		if n := e.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && !e.IsDir() {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(full, n), nil, 0)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							globals[id.Name] = true
						}
					}
				}
			}
		}
	}
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || e.IsDir() {
			continue
		}
		if ok, err := ctx.MatchFile(full, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(full, n))
		must(err)
		res := rewrite(filepath.Join(full, n), src, mod, globals)
		dst := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, n), string(filepath.Separator), "__"))
		must(os.WriteFile(dst, res, 0o644))
		rep[filepath.Join(full, n)] = dst
	}
}

func rewrite(name string, src []byte, mod string, globals map[string]bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	must(err)
	type edit struct {
		off  int
		text string
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	y := func(p token.Pos, shared bool) {
		sites++
		eds = append(eds, edit{off(p), fmt.Sprintf("vs__.Y(%d, %v); ", sites, shared)})
	}
	// mentions says whether a statement, without the blocks in it, names a
	// variable of the package.
	mentions := func(s ast.Node) (yes bool) {
		ast.Inspect(s, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				return false
			case *ast.Ident:
				yes = yes || globals[x.Name]
			}
			return true
		})
		return
	}
	list := func(l []ast.Stmt) {
		before := false
		for _, s := range l {
			now := mentions(s)
			shared := now || before
			before = now
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				// of a switch or select: their bodies are lists of their own
			case *ast.EmptyStmt:
			default:
				y(s.Pos(), shared)
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				y(x.Body.Rbrace, false)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.FuncDecl:
			// before returning from a function without results
			if x.Body != nil && x.Type.Results == nil && len(x.Body.List) > 0 {
				switch x.Body.List[len(x.Body.List)-1].(type) {
				case *ast.ReturnStmt:
				default:
					sites++
					eds = append(eds, edit{off(x.Body.Rbrace), fmt.Sprintf("; vs__.Y(%d, %v) ", sites, mentions(x.Body.List[len(x.Body.List)-1]))})
				}
			}
		}
		return true
	})
	eds = append(eds, edit{off(f.Name.End()), fmt.Sprintf("; import vs__ %q", mod+"/verifsched")})
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var res []byte
	last := 0
	for _, e := range eds {
		res = append(res, src[last:e.off]...)
		res = append(res, e.text...)
		last = e.off
	}
	res = append(res, src[last:]...)
	return append(res, "\nvar _ = vs__.Y\n"...)
}
