package props

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"vh/pbt"
	"vh/runner"
)

// The step law watches the machine code itself: a child process performs the
// operation under ptrace, one instruction at a time, and the addresses of the
// instructions executed outside the Go runtime are compared.

const (
	ptraceSingleBlock = 33
	stepMagic         = 0x5eed0001
	stepBegin         = 1
	stepClass         = 2
	stepDone          = 3
	stepSets          = 8
)

//go:noinline
func stepEnd() {}

func stepPrep(op ctOp, x uint64, i, pub int) func() int {
	return op.prep(pbt.Seeded(x, "step", i), pub)
}

func marker(a, b uintptr) {
	syscall.RawSyscall(syscall.SYS_GETPPID, stepMagic, a, b)
}

func stepChild(args []string) {
	op, _ := strconv.Atoi(args[0])
	x, _ := strconv.ParseUint(args[1], 10, 64)
	pub, _ := strconv.Atoi(args[2])
	var order []int
	for _, a := range args[3:] {
		i, _ := strconv.Atoi(a)
		order = append(order, i)
	}
	for i := -1; i < len(order); i++ {
		// -1: warm up, so that the stack has grown and everything is
		// initialised
		j := order[0]
		if i >= 0 {
			j = order[i]
		}
		run := stepPrep(ctOps[op], x, j, pub)
		if i < 0 {
			run()
			stepEnd()
			run = stepPrep(ctOps[op], x, j, pub)
			run()
			continue
		}
		marker(stepBegin, uintptr(i))
		c := run()
		stepEnd()
		marker(stepClass, uintptr(c))
	}
	marker(stepDone, 0)
}

func init() {
	// ptrace watches the main thread
	for i := range os.Args {
		if i > 0 && os.Args[i] == "step" && os.Args[i-1] == "-child" {
			runtime.LockOSThread()
		}
	}
	children["step"] = stepChild
	reg("C22", &pbt.Law{Name: "step", Rule: "exhaustive over the operations on secrets: a child process performs the operation on up to 8 generated sets of operands under single-stepping; the sequence of instruction addresses executed in the library and in the standard library below it (not the Go runtime's allocator and copying) must be the same for all sets with the same public outcome; a difference counts only if it follows the operands in a second process that runs them in another order; non-trivial: at least two sets with the same outcome were compared", Enum: len(ctOps), Quick: len(ctOps), Thorough: 20 * len(ctOps), NoShrink: true,
		Only: func(c string) bool { return c == "default" || c == "generic" },
		Run:  stepCase})
}

type stepTrace struct {
	class int
	pcs   []uint32
}

var errTooLong = errors.New("too many steps")
var errNoPtrace = errors.New("ptrace is not available")

func stepCase(t *pbt.T) {
	op := t.Intn(len(ctOps))
	x := t.Raw()
	pub := pubLengths[t.Intn(len(pubLengths))]
	t.Note("%s, length %d, operands from seed %d", ctOps[op].name, pub, x)
	order := make([]int, stepSets)
	for i := range order {
		order[i] = i
	}
	one, err := stepRun(op, x, pub, order)
	if err == errNoPtrace {
		t.Class("ptrace not available")
		return
	}
	if err == errTooLong {
		t.Class("too long to be single-stepped, see the trace law")
		return
	}
	if err != nil {
		t.Class("child gave no trace")
		return
	}
	t.Class(ctOps[op].name)
	first := map[int]int{}
	for i, tr := range one {
		f, ok := first[tr.class]
		if !ok {
			first[tr.class] = i
			continue
		}
		t.NonTrivial()
		if samePath(one[f].pcs, tr.pcs) {
			continue
		}
		// in another process, in another order: what differs must
		// follow the operands, not the history
		two, err := stepRun(op, x, pub, []int{i, f, f, i, i, f})
		same := err == nil && len(two) == 6
		for k := 0; same && k < 6; k++ {
			w := one[i]
			if k == 1 || k == 2 || k == 5 {
				w = one[f]
			}
			same = two[k].class == w.class && samePath(two[k].pcs, w.pcs)
		}
		if !same {
			t.Class("not repeatable, ignored: " + ctOps[op].name)
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, pathDiff(one[f].pcs, tr.pcs))
			}
			continue
		}
		for _, k := range []int{f, i} {
			vt := pbt.Seeded(x, "step", k)
			vt.Verbose = true
			ctOps[op].prep(vt, pub)
			t.Note("set %d: %s", k, strings.Join(vt.Notes(), "; "))
		}
		t.Fatalf("%s executes different instructions on operand sets %d and %d (outcome %d): %s", ctOps[op].name, f, i, tr.class, pathDiff(one[f].pcs, tr.pcs))
	}
}

func samePath(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pcName(pc uint32) string {
	f := runtime.FuncForPC(uintptr(pc))
	if f == nil {
		return fmt.Sprintf("%#x", pc)
	}
	file, line := f.FileLine(uintptr(pc))
	return fmt.Sprintf("%s (%s:%d)", f.Name(), file[strings.LastIndexByte(file, '/')+1:], line)
}

func pathDiff(a, b []uint32) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := fmt.Sprintf("%d and %d instructions", len(a), len(b))
	if i > 0 {
		s += ", they part after " + pcName(a[i-1])
	}
	if i < len(a) {
		s += ", the first goes to " + pcName(a[i])
	}
	if i < len(b) {
		s += ", the second to " + pcName(b[i])
	}
	return s
}

const (
	pcOther = iota
	pcWatched
	pcMorestack
)

// kindOf tells whether the instruction counts.
func kindOf(pc uint64) int {
	f := runtime.FuncForPC(uintptr(pc))
	if f == nil {
		return pcOther
	}
	// the function that was compiled, not one inlined in it
	if o := runtime.FuncForPC(f.Entry()); o != nil {
		f = o
	}
	n := f.Name()
	if strings.HasPrefix(n, "runtime.morestack") {
		return pcMorestack
	}
	for _, p := range []string{"github.com/bwesterb/", "crypto/", "encoding/", "math/", "bytes.", "strings.", "reflect.", "sort.", "slices.", "strconv.", "container/", "hash/", "runtime.memequal", "memeqbody", "cmpbody", "internal/bytealg."} {
		if strings.HasPrefix(n, p) {
			return pcWatched
		}
	}
	return pcOther
}

func stepRun(op int, x uint64, pub int, order []int) (trs []stepTrace, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	args := []string{"-child", "step", strconv.Itoa(op), strconv.FormatUint(x, 10), strconv.Itoa(pub)}
	for _, i := range order {
		args = append(args, strconv.Itoa(i))
	}
	sets := len(order)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, errNoPtrace
	}
	pid := cmd.Process.Pid
	defer func() {
		syscall.Kill(pid, syscall.SIGKILL)
		for {
			var ws syscall.WaitStatus
			w, e := syscall.Wait4(pid, &ws, 0, nil)
			if e == syscall.EINTR {
				continue
			}
			if e != nil || w == pid && (ws.Exited() || ws.Signaled()) {
				break
			}
		}
		cmd.Process.Release()
	}()
	wait := func() (syscall.WaitStatus, error) {
		var ws syscall.WaitStatus
		for {
			_, e := syscall.Wait4(pid, &ws, syscall.WALL, nil)
			if e == syscall.EINTR {
				continue
			}
			return ws, e
		}
	}
	ws, e := wait()
	if e != nil || !ws.Stopped() {
		return nil, errNoPtrace
	}
	if e := syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|0x00100000); e != nil { // EXITKILL
		return nil, errNoPtrace
	}
	limit, budget := 150000, 60000
	if runner.Tier == "thorough" {
		limit, budget = 3<<20, 400000
	}
	end := uint64(reflect.ValueOf(stepEnd).Pointer())
	var regs syscall.PtraceRegs
	sig := 0
	seen := map[uint64]int{}
	last := pcOther
	block := true
	entry := false
	total := 0
	for {
		if e := syscall.PtraceSyscall(pid, sig); e != nil {
			return trs, e
		}
		sig = 0
		ws, e := wait()
		if e != nil {
			return trs, e
		}
		if ws.Exited() || ws.Signaled() {
			return trs, fmt.Errorf("child ended: %v", ws)
		}
		if ws.StopSignal() != syscall.SIGTRAP|0x80 {
			if ws.StopSignal() != syscall.SIGTRAP {
				sig = int(ws.StopSignal())
			}
			continue
		}
		if e := syscall.PtraceGetRegs(pid, &regs); e != nil {
			return trs, e
		}
		if regs.Orig_rax != syscall.SYS_GETPPID || regs.Rdi != stepMagic {
			continue
		}
		// every system call stops twice
		entry = !entry
		if entry {
			continue
		}
		switch regs.Rsi {
		case stepDone:
			return trs, nil
		case stepClass:
			if len(trs) > 0 {
				trs[len(trs)-1].class = int(int64(regs.Rdx))
			}
			if len(trs) >= sets || sets == stepSets && len(trs) >= 2 && total > budget {
				return trs, nil
			}
		case stepBegin:
			pcs := make([]uint32, 0, 1<<14)
			skip := uint64(0)
			for n := 0; ; n++ {
				if block {
					if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, ptraceSingleBlock, uintptr(pid), 0, 0, 0, 0); e != 0 {
						block = false
					}
				}
				if !block {
					if e := syscall.PtraceSingleStep(pid); e != nil {
						return trs, e
					}
				}
				ws, e := wait()
				if e != nil {
					return trs, e
				}
				if !ws.Stopped() || ws.StopSignal() != syscall.SIGTRAP {
					// some signal: this process is of no use
					return trs, fmt.Errorf("child stopped: %v", ws)
				}
				if e := syscall.PtraceGetRegs(pid, &regs); e != nil {
					return trs, e
				}
				if regs.Rip == end {
					break
				}
				w, ok := seen[regs.Rip]
				if !ok {
					w = kindOf(regs.Rip)
					seen[regs.Rip] = w
				}
				if skip != 0 {
					if regs.Rip != skip {
						last = w
						continue
					}
					skip = 0
				}
				if w == pcWatched {
					pcs = append(pcs, uint32(regs.Rip))
				} else if w == pcMorestack && last == pcWatched && len(pcs) > 0 {
					// The scheduler wants a word (or the stack
					// grows): the function starts again.
					ent := uint64(runtime.FuncForPC(uintptr(pcs[len(pcs)-1])).Entry())
					k := len(pcs) - 1
					for k > 0 && uint64(pcs[k]) != ent {
						k--
					}
					pcs, skip = pcs[:k], ent
				}
				last = w
				if n&0xffff == 0 && pbt.OnRun != nil {
					pbt.OnRun()
				}
				if n > limit {
					return trs, errTooLong
				}
			}
			total += len(pcs)
			trs = append(trs, stepTrace{0, pcs})
			if pbt.OnRun != nil {
				pbt.OnRun()
			}
		}
	}
}
