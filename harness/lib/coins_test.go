//go:build go1.23

package lib

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
)

type coinList struct {
	utxos  []explorer.Utxo
	totals map[string]uint64
}

func genCoins(rt *rapid.T, max, assets int) coinList {
	l := coinList{totals: map[string]uint64{}}
	n := rapid.IntRange(0, max).Draw(rt, "coins")
	spread := rapid.IntRange(0, 3).Draw(rt, "spread")
	for i := 0; i < n; i++ {
		asset := txlib.Asset(within(rt, "asset", assets))
		var v uint64
		switch spread {
		case 0: // about the same
			v = 1000 + uint64(within(rt, "value", 3))
		case 1:
			v = uint64(rapid.IntRange(1, 100).Draw(rt, "value"))
		case 2: // each much larger or smaller than the others
			v = amount(rt, "value")
		case 3:
			v = rapid.SampledFrom([]uint64{1, 10, 100, 1000, 5000}).Draw(rt, "value")
		}
		k := txlib.NewKey("coin", i)
		// the same transaction may have several outputs
		hash := fmt.Sprintf("%x", txlib.H("coin tx", i/2))
		if rapid.IntRange(0, 3).Draw(rt, "confidential") == 0 {
			l.utxos = append(l.utxos, esplora.NewWitnessUtxo(hash, uint32(i), v, asset, "0b"+strings.Repeat("11", 32), "0a"+strings.Repeat("22", 32),
				txlib.H("vb", i), txlib.H("ab", i), k.Script, k.BlindPub.SerializeCompressed(), []byte{1}, []byte{1}, true))
		} else {
			l.utxos = append(l.utxos, esplora.NewUnconfidentialWitnessUtxo(hash, uint32(i), v, asset, k.Script))
		}
		l.totals[asset] += v
	}
	return l
}

func genTarget(rt *rapid.T, l coinList, asset string) uint64 {
	total := l.totals[asset]
	switch rapid.IntRange(0, 4).Draw(rt, "target kind") {
	case 0:
		return uint64(int64(total) + int64(rapid.IntRange(-2, 2).Draw(rt, "off")) + 2)
	case 1:
		return total + uint64(rapid.IntRange(0, 1).Draw(rt, "more")) // exactly all, or just too much
	case 2:
		if len(l.utxos) > 0 {
			return l.utxos[within(rt, "like", len(l.utxos))].Value() + uint64(rapid.IntRange(0, 1).Draw(rt, "more"))
		}
		return 1
	case 3:
		if total > 1 {
			return rapid.Uint64Range(1, total).Draw(rt, "target")
		}
		return 1
	}
	return amount(rt, "target")
}

func show(us []explorer.Utxo) string {
	var s []string
	for _, u := range us {
		s = append(s, fmt.Sprintf("%s:%d=%d", u.Hash()[:4], u.Index(), u.Value()))
	}
	return strings.Join(s, " ")
}

func judgeSelection(l coinList, asset string, target uint64, coins []explorer.Utxo, change uint64, err error) error {
	if l.totals[asset] < target {
		if err == nil {
			return fmt.Errorf("selected %s although only %d of %d is there", show(coins), l.totals[asset], target)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("refused (%v) although %d of %d is there", err, l.totals[asset], target)
	}
	known := map[string]explorer.Utxo{}
	for _, u := range l.utxos {
		known[fmt.Sprintf("%s:%d", u.Hash(), u.Index())] = u
	}
	var sum uint64
	for _, u := range coins {
		k := fmt.Sprintf("%s:%d", u.Hash(), u.Index())
		o, ok := known[k]
		if !ok {
			return fmt.Errorf("%s selected twice or never given", k)
		}
		delete(known, k)
		if u.Asset() != asset || o.Asset() != asset || o.Value() != u.Value() {
			return fmt.Errorf("%s is of another asset or amount", k)
		}
		sum += u.Value()
	}
	if sum < target {
		return fmt.Errorf("selected %s, less than %d", show(coins), target)
	}
	if change != sum-target {
		return fmt.Errorf("change %d of %d for %d", change, sum, target)
	}
	return nil
}

func TestC16Select(t *testing.T) {
	rule := "lists of 0-12 coins, or 0-120 of similar or very different amounts, of 1-3 assets, confidential or not, targets at and around all coins, single coins, anything; non-trivial: 2 or more coins selected, or refused with 2 or more coins of the asset"
	vt.Check(t, 3000, 300000, rule, func(rt *rapid.T, c *vt.Case) {
		max := rapid.SampledFrom([]int{12, 12, 12, 40, 120}).Draw(rt, "size")
		assets := rapid.IntRange(1, 3).Draw(rt, "assets")
		l := genCoins(rt, max, assets)
		asset := txlib.Asset(within(rt, "asked", assets+1))
		target := genTarget(rt, l, asset)
		if target == 0 {
			target = 1
		}
		given := append([]explorer.Utxo{}, l.utxos...)
		var coins []explorer.Utxo
		var change uint64
		var err error
		vt.NoCrash(rt, fmt.Sprintf("selecting %d from %d coins", target, len(given)), func() {
			coins, change, err = explorer.SelectUnspents(given, target, asset)
		})
		if e := judgeSelection(l, asset, target, coins, change, err); e != nil {
			rt.Fatalf("%d of %s from %s: %v", target, asset[:4], show(l.utxos), e)
		}
		for i := range given {
			if given[i].Hash() != l.utxos[i].Hash() || given[i].Index() != l.utxos[i].Index() {
				rt.Fatalf("the list given was reordered")
			}
		}
		again, change2, err2 := explorer.SelectUnspents(given, target, asset)
		if show(again) != show(coins) || change2 != change || (err == nil) != (err2 == nil) {
			rt.Fatalf("%s, then %s for the same arguments", show(coins), show(again))
		}
		if len(coins) > 1 {
			c.NonTrivial("%d with %s of %d coins", target, show(coins), len(given))
		} else if err != nil && len(given) > 1 {
			c.Class("refused")
			c.NonTrivial("%d refused with %s", target, show(given))
		}
	})
}

func TestC16Blinded(t *testing.T) {
	rule := "lists with a confidential coin that was not unblinded; non-trivial: always"
	vt.Check(t, 100, 2000, rule, func(rt *rapid.T, c *vt.Case) {
		l := genCoins(rt, 5, 2)
		u := esplora.NewConfidentialWitnessUtxo(fmt.Sprintf("%x", txlib.H("blind")), 0, "0b"+strings.Repeat("11", 32), "0a"+strings.Repeat("22", 32), []byte{0}, []byte{2}, []byte{1}, []byte{1})
		i := rapid.IntRange(0, len(l.utxos)).Draw(rt, "at")
		us := append(append(append([]explorer.Utxo{}, l.utxos[:i]...), u), l.utxos[i:]...)
		if coins, _, err := explorer.SelectUnspents(us, 1, txlib.Asset(0)); err == nil {
			for _, x := range coins {
				if x.Hash() == u.Hash() {
					rt.Fatalf("selected a coin of unknown amount")
				}
			}
		}
		c.NonTrivial("at %d of %d", i, len(us))
	})
}

func TestC16Concurrent(t *testing.T) {
	rule := "4-16 selections of up to 12 coins each at once, repeated 20 times, compared with each alone; non-trivial: two or more selections of several coins"
	vt.Check(t, 60, 3000, rule, func(rt *rapid.T, c *vt.Case) {
		type job struct {
			l      coinList
			asset  string
			target uint64
			want   string
		}
		var jobs []job
		several := 0
		for i, n := 0, rapid.IntRange(4, 16).Draw(rt, "selections"); i < n; i++ {
			l := genCoins(rt, 12, 1)
			j := job{l: l, asset: txlib.Asset(0), target: genTarget(rt, l, txlib.Asset(0))}
			if j.target == 0 {
				j.target = 1
			}
			coins, change, err := explorer.SelectUnspents(l.utxos, j.target, j.asset)
			j.want = fmt.Sprint(show(coins), change, err)
			if len(coins) > 1 {
				several++
			}
			jobs = append(jobs, j)
		}
		var mu sync.Mutex
		problems := map[string]bool{}
		for r := 0; r < 20; r++ {
			var wg sync.WaitGroup
			for _, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					bad := func(s string) {
						mu.Lock()
						problems[s] = true
						mu.Unlock()
					}
					defer func() {
						if p := recover(); p != nil {
							bad(fmt.Sprint("panic: ", p))
						}
					}()
					coins, change, err := explorer.SelectUnspents(j.l.utxos, j.target, j.asset)
					if got := fmt.Sprint(show(coins), change, err); got != j.want {
						bad(fmt.Sprintf("%d of %s: %s, alone: %s", j.target, show(j.l.utxos), got, j.want))
					}
				}()
			}
			wg.Wait()
		}
		if len(problems) > 0 {
			var ps []string
			for p := range problems {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			rt.Fatalf("%d problems: %s", len(ps), ps[0])
		}
		if several > 1 {
			c.NonTrivial("%d selections, %d of several coins", len(jobs), several)
		}
	})
}
