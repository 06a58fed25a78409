//go:build go1.23

package world

import (
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestSmoke(t *testing.T) {
	for _, im := range []bool{false, true} {
		vt.Check(t, 20, 20, "", func(rt *rapid.T, c *vt.Case) {
			In(rt, Opts{InMemory: im}, func(rt *rapid.T, w *World) {
				w.FundFee(5000, 5000)
				m := w.CreateMarket(txlib.Asset(1), []uint64{100000000}, []uint64{650000000000})
				w.Open(m)
				l, err := w.Operator.ListMarket(Ctx)
				_ = l
				_ = err
			})
		})
	}
}
