package crefgo

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/bwesterb/go-ristretto/cref"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// threads runs each program in its own goroutine, all starting at once.
func threads(progs []func() string) []string {
	old := runtime.GOMAXPROCS(len(progs) + 1)
	defer runtime.GOMAXPROCS(old)
	out := make([]string, len(progs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range progs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			out[i] = progs[i]()
		}(i)
	}
	close(start)
	wg.Wait()
	return out
}

func init() {
	for _, prop := range []string{"C17", "C18"} {
		pbt.Reg(prop, &pbt.Law{Name: "go-threads", Rule: "2-4 threads start together and each repeat one to four operations of the Go interface of the C reference (scalar multiplication, addition, doubling, negation, packing, unpacking, Elligator, scalars) on operands of their own with the same values for all or different ones; results equal those of the same program run alone; non-trivial: all", Quick: 1500, Thorough: 60000, NoShrink: true, Run: func(t *pbt.T) {
			t.NonTrivial()
			n := t.Range(2, 4)
			var progs []func() string
			kinds := []int{t.Intn(5), t.Intn(5)}
			for k := 0; k < n; k++ {
				a, _ := gen.Even(t)
				b, _ := gen.Even(t)
				x, _ := gen.ScalarBig(t)
				eb, _ := gen.ElligatorBytes(t)
				var ops []int
				for j := t.Range(1, 4); j > 0; j-- {
					op := kinds[0]
					switch t.Intn(4) {
					case 2:
						op = kinds[1]
					case 3:
						op = t.Intn(5)
					}
					ops = append(ops, op)
				}
				t.Note("thread %d: %v a = %x b = %x k = %x", k, ops, ref.Encode(a), ref.Encode(b), x)
				ga, gb, s := *ge(t, a), *ge(t, b), *scalar(x)
				rounds := t.Range(2, 20)
				progs = append(progs, func() string {
					var out string
					show := func(g cref.GroupGe) {
						p := junkBytes()
						g.Pack(&p)
						out += fmt.Sprintf("%x ", p)
					}
					for i := 0; i < rounds; i++ {
						for _, op := range ops {
							ga, gb, s := ga, gb, s
							r := junkGe()
							switch op {
							case 0:
								r.ScalarMult(&ga, &s)
								show(r)
							case 1:
								r.Add(&ga, &gb)
								show(r)
								r.Double(&r)
								show(r)
								r.Neg(&gb)
								show(r)
							case 2:
								e := eb
								f := junkFe()
								f.Unpack(&e)
								r.Elligator(&f)
								show(r)
								f.Pack(&e)
								out += fmt.Sprintf("%x ", e)
							case 3:
								p := junkBytes()
								ga.Pack(&p)
								out += fmt.Sprint(r.Unpack(&p))
								show(r)
								out += fmt.Sprint(r.Unpack(&eb)) + " "
							case 4:
								e := eb
								e[31] &= 0x1f
								var u cref.GroupScalar
								u.Unpack(&e)
								u.Pack(&e)
								out += fmt.Sprintf("%x ", e)
								s.Pack(&e)
								out += fmt.Sprintf("%x ", e)
							}
						}
					}
					return out
				})
			}
			got := threads(progs)
			for k := range progs {
				if want := progs[k](); got[k] != want {
					t.Fatalf("thread %d: %s, alone %s", k, clip(got[k]), clip(want))
				}
			}
		}})
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}
