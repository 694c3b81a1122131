//go:build vsched

package props

import "github.com/bwesterb/go-ristretto/verifsched"

// schedStart makes the goroutines started next take turns as s says.
func schedStart(s schedule) {
	verifsched.Start(verifsched.Schedule{Seed: s.seed, Rate: s.rate, Places: s.places,
		At: append([]uint64(nil), s.at...), Pause: s.pause})
}

// schedStop ends that.
func schedStop() { verifsched.Stop() }

// schedRecord runs f alone and returns how often each place is passed; places
// near variables of a package are marked by bit 30.
func schedRecord(f func()) map[uint64]int {
	verifsched.Record()
	f()
	verifsched.Stop()
	out := map[uint64]int{}
	for i, n := range verifsched.Passed {
		if n > 0 {
			k := uint64(i)
			if verifsched.Shared[i] {
				k |= 1 << 30
			}
			out[k] = int(n)
		}
	}
	return out
}
