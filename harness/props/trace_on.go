//go:build vinstr

package props

import "github.com/bwesterb/go-ristretto/veriftrace"

const traceOn = true

// traced runs f and returns a hash of the sequence of events, and their number.
func traced(f func()) (uint64, uint64) {
	veriftrace.Sum, veriftrace.Count = 0, 0
	f()
	return veriftrace.Sum, veriftrace.Count
}

type traceEvent struct{ site, v int }

// recorded runs f and returns its events.
func recorded(f func()) []traceEvent {
	var es []traceEvent
	veriftrace.Rec = func(s, v int) { es = append(es, traceEvent{s, v}) }
	defer func() { veriftrace.Rec = nil }()
	f()
	return es
}

func siteName(i int) string { return veriftrace.Sites[i] }
