// Package runner runs the laws of one property against the library the binary
// was built with, replays a recorded case, or serves cases to a parent of
// another backend.
package runner

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"vh/pbt"
	"vh/ref"
)

// Report is what one process writes.
type Report struct {
	Prop     string         `json:"property"`
	Config   string         `json:"config"`
	Shard    int            `json:"shard"`
	Laws     []*pbt.Stats   `json:"laws"`
	Failures []*pbt.Failure `json:"failures"`
	Harness  string         `json:"harness_error,omitempty"`
}

type peerFlag []string

func (p *peerFlag) String() string     { return strings.Join(*p, ",") }
func (p *peerFlag) Set(s string) error { *p = append(*p, s); return nil }

// Hooks that law packages may set.
var (
	Serve   func()                           // serve cases on stdin/stdout
	Child   func(mode string, args []string) // internal child modes
	AddPeer func(name, path string)          // register a co-process
	Close   = func() {}                      // stop co-processes
)

// Settings seen by laws.
var (
	Config string
	Dict   string
	Tier   = "quick"
	AltBin string
)

// Main is the main function of every harness binary.
func Main() {
	var (
		prop    = flag.String("prop", "", "property")
		config  = flag.String("config", "default", "configuration name")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		shard   = flag.Int("shard", 0, "shard")
		shards  = flag.Int("shards", 1, "shards")
		scale   = flag.Float64("scale", 1, "multiplies case counts")
		out     = flag.String("out", "", "report file")
		law     = flag.String("law", "", "only laws with this substring")
		cur     = flag.String("current", "", "file that names the case being run")
		replay  = flag.String("replay", "", "replay file")
		serve   = flag.Bool("serve", false, "serve cases on stdin/stdout")
		child   = flag.String("child", "", "internal: child mode")
		one     = flag.String("one", "", "run the single case LAW:INDEX")
		noself  = flag.Bool("noselftest", false, "skip the model's self test")
		budget  = flag.Float64("budget", 0, "stop generating after this many seconds of wall time")
		salt    = flag.Bool("salt", true, "mix the configuration into the seed")
		nosh    = flag.Bool("noshrink", false, "report failures as they were generated")
		peers   peerFlag
		dict    = flag.String("dict", "", "file of integers, one per line")
		gofault = flag.String("altbin", "", "binary built with another toolchain")
	)
	flag.Var(&peers, "peer", "name=path of a binary of another backend")
	flag.Parse()
	start := time.Now()
	Config = *config
	Dict = *dict
	pbt.NoShrink = *nosh
	Tier = *tier
	AltBin = *gofault
	if *dict != "" {
		b, err := os.ReadFile(*dict)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, f := range strings.Fields(string(b)) {
			v, err := strconv.ParseUint(f, 10, 64)
			if err == nil {
				pbt.Dictionary = append(pbt.Dictionary, v)
			}
		}
	}
	if *child != "" {
		Child(*child, flag.Args())
		return
	}
	if *serve {
		Serve()
		return
	}
	for _, p := range peers {
		i := strings.IndexByte(p, '=')
		AddPeer(p[:i], p[i+1:])
	}
	defer Close()

	if *replay != "" {
		os.Exit(doReplay(*replay))
	}

	s := *seed
	if *salt {
		for _, c := range *config {
			s = s*1000003 + uint64(c)
		}
	}
	rep := &Report{Prop: *prop, Config: *config, Shard: *shard}
	write := func() {
		b, err := json.Marshal(rep)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if *out == "" {
			os.Stdout.Write(append(b, '\n'))
			return
		}
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}

	if !*noself {
		x := s + uint64(*shard)*7919
		next := func() uint64 {
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			return z ^ (z >> 31)
		}
		if err := ref.SelfTest(next, 300); err != nil {
			fmt.Fprintln(os.Stderr, "model self test failed:", err)
			os.Exit(3)
		}
	}

	laws := pbt.Registry[*prop]
	if len(laws) == 0 {
		fmt.Fprintln(os.Stderr, "no laws for", *prop)
		os.Exit(2)
	}

	// Progress: the current case is named in a file (for processes that
	// die), and a watchdog on CPU time catches cases that do not terminate.
	var progress atomic.Uint64
	var curLaw atomic.Value
	var curIdx atomic.Int64
	curLaw.Store("")
	var curf *os.File
	if *cur != "" {
		var err error
		if curf, err = os.Create(*cur); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	pbt.OnCase = func(law string, idx int) {
		progress.Add(1)
		curLaw.Store(law)
		curIdx.Store(int64(idx))
		if curf != nil {
			curf.WriteAt([]byte(fmt.Sprintf("%-60s", fmt.Sprintf("%d %s %d", s, law, idx))), 0)
		}
	}
	pbt.OnRun = func() { progress.Add(1) }
	go func() {
		last, since, ticks := uint64(0), cpu(), 0
		for {
			time.Sleep(500 * time.Millisecond)
			p := progress.Load()
			if p != last {
				last, since, ticks = p, cpu(), 0
				continue
			}
			ticks++
			if cpu()-since > 100 || ticks > 300 {
				l, i := curLaw.Load().(string), int(curIdx.Load())
				if l == "" {
					continue
				}
				msg := "the case does not terminate (100 s of CPU time, normally milliseconds)"
				if ticks > 300 {
					msg = "the case does not terminate (blocked for 150 s, normally milliseconds)"
				}
				rep.Failures = append(rep.Failures, &pbt.Failure{Law: l, Seed: s, Index: i, Msg: msg, Hang: true})
				write()
				os.Exit(1)
			}
		}
	}()

	if *one != "" {
		i := strings.LastIndexByte(*one, ':')
		var idx int
		fmt.Sscan((*one)[i+1:], &idx)
		for _, l := range laws {
			if l.Name == (*one)[:i] {
				st, f := pbt.RunSingle(l, *seed, idx)
				rep.Laws = append(rep.Laws, st)
				if f != nil {
					rep.Failures = append(rep.Failures, f)
				}
			}
		}
		write()
		if len(rep.Failures) > 0 {
			os.Exit(1)
		}
		return
	}

	var active []*pbt.Law
	for _, l := range laws {
		if *law != "" && !strings.Contains(l.Name, *law) {
			continue
		}
		if l.Only != nil && !l.Only(*config) {
			continue
		}
		active = append(active, l)
	}
	for i, l := range active {
		if *budget > 0 {
			// What is left, shared equally between the laws left.
			left := *budget - time.Since(start).Seconds()
			pbt.Deadline = time.Now().Add(time.Duration(left / float64(len(active)-i) * 1e9))
		}
		n := l.Quick
		if *tier == "thorough" {
			n = l.Thorough
		}
		if l.Enum == 0 {
			n = int(float64(n) * *scale)
			if n < 1 {
				n = 1
			}
		} else if *tier == "thorough" && n < l.Enum {
			n = l.Enum
		}
		st, f := pbt.RunLaw(l, s, n, *shard, *shards)
		rep.Laws = append(rep.Laws, st)
		if f != nil {
			if strings.Contains(f.Msg, "HARNESS:") {
				rep.Harness = f.Msg
				write()
				os.Exit(3)
			}
			rep.Failures = append(rep.Failures, f)
		}
	}
	write()
	if len(rep.Failures) > 0 {
		Close()
		os.Exit(1)
	}
}

func cpu() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// doReplay runs the case in a replay file: exit 1 if it still fails.
func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Prop    string      `json:"property"`
		Failure pbt.Failure `json:"failure"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range pbt.Registry[r.Prop] {
		if l.Name != r.Failure.Law {
			continue
		}
		var t *pbt.T
		if r.Failure.Tape == nil {
			t = pbt.CaseT(l, r.Failure.Seed, r.Failure.Index)
		} else {
			t = pbt.FromTape(r.Failure.Tape, true)
		}
		t.Verbose = true
		res := pbt.RunOne(l, t)
		for _, n := range t.Notes() {
			fmt.Println("  ", n)
		}
		if res.Failed {
			fmt.Println("FAILS:", res.Msg)
			return 1
		}
		fmt.Println("holds")
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown law", r.Failure.Law)
	return 2
}
