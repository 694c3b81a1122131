//go:build vguide

package props

import (
	"vh/pbt"

	"github.com/bwesterb/go-ristretto/verifguide"
)

type guide struct{}

func (guide) Begin() { verifguide.Begin() }

// End reports the blocks reached and, per comparison, the best distance.
func (guide) End(visit func(int)) [][2]uint64 {
	verifguide.End()
	for _, s := range verifguide.Used {
		visit(int(s)*128 + int(verifguide.Dist[s]))
	}
	return verifguide.Pairs
}

func init() { pbt.Guide = guide{} }
