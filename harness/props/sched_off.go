//go:build !vsched

package props

func schedStart(s schedule)               {}
func schedStop()                          {}
func schedRecord(f func()) map[uint64]int { f(); return nil }
