//go:build !vinstr

package props

const traceOn = false

func traced(f func()) (uint64, uint64) { f(); return 0, 0 }

type traceEvent struct{ site, v int }

func recorded(f func()) []traceEvent { f(); return nil }

func siteName(i int) string { return "" }
