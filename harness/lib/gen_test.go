//go:build go1.23

package lib

import (
	"encoding/hex"
	"fmt"
	"math"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

func within(rt *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, label) }
func chance(rt *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(rt, label) == n-1
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("[verif-error] %v", err))
	}
}

// amount draws amounts of very different sizes, up to the total supply.
func amount(rt *rapid.T, label string) uint64 {
	top := uint64(math.Pow10(rapid.IntRange(0, 15).Draw(rt, label+" digits"))) + 1
	return rapid.Uint64Range(1, top).Draw(rt, label)
}

// shape is a transaction under construction with all its secrets.
type shape struct {
	coins []*txlib.Coin
	outs  []*transaction.TxOutput
	clear []txlib.Opening // what the outputs are
	keys  []*txlib.Key    // whose the outputs are (nil: fee)
}

// genShape draws coins and outputs of few assets, confidential or not.
func genShape(rt *rapid.T, ins, outs, assets int, confidential bool) *shape {
	s := &shape{}
	for i, n := 0, rapid.IntRange(1, ins).Draw(rt, "inputs"); i < n; i++ {
		k := txlib.NewKey("in", within(rt, "owner", 3))
		c := txlib.NewCoin(hex.EncodeToString(txlib.H("tx", i)), uint32(within(rt, "vout", 3)), txlib.Asset(within(rt, "asset", assets)), amount(rt, "value"), k)
		if confidential && rapid.Bool().Draw(rt, "confidential") {
			c.Confidential()
		}
		s.coins = append(s.coins, c)
	}
	for i, n := 0, rapid.IntRange(1, outs).Draw(rt, "outputs"); i < n; i++ {
		asset, v := txlib.Asset(within(rt, "asset", assets)), amount(rt, "value")
		k := txlib.NewKey("out", within(rt, "owner", 3))
		switch {
		case chance(rt, "fee", 5):
			s.add(txlib.Out(asset, v, nil), asset, v, nil)
		case confidential && rapid.Bool().Draw(rt, "confidential"):
			s.add(txlib.BlindOut(asset, v, k.Script, k.BlindPub.SerializeCompressed(), txlib.H("oabf", i), txlib.H("ovbf", i), txlib.H("oeph", i)), asset, v, k)
		default:
			s.add(txlib.Out(asset, v, k.Script), asset, v, k)
		}
	}
	return s
}

func (s *shape) add(o *transaction.TxOutput, asset string, v uint64, k *txlib.Key) {
	s.outs, s.clear, s.keys = append(s.outs, o), append(s.clear, txlib.Opening{Asset: asset, Value: v}), append(s.keys, k)
}

func (s *shape) inKeys() map[string][]byte {
	m := map[string][]byte{}
	for _, c := range s.coins {
		m[c.Key.ScriptHex()] = c.Key.Blind.Serialize()
	}
	return m
}

func (s *shape) outKeys() map[string][]byte {
	m := map[string][]byte{}
	for _, k := range s.keys {
		if k != nil {
			m[k.ScriptHex()] = k.Blind.Serialize()
		}
	}
	return m
}

// pset gives the partial transaction; how its prevouts are given is drawn.
// broken tells that one of them is missing.
func (s *shape) pset(rt *rapid.T) (p *pset.Pset, broken bool) {
	var ins []*transaction.TxInput
	ways := make([]int, len(s.coins))
	spoil := -1
	if chance(rt, "spoil an input", 6) {
		spoil = within(rt, "which", len(s.coins))
	}
	prevs := make([]*transaction.Transaction, len(s.coins))
	for i, c := range s.coins {
		if rapid.IntRange(0, 3).Draw(rt, "prevout as transaction") == 0 {
			ways[i] = 1
		}
		if i == spoil {
			ways[i] = rapid.IntRange(2, 3).Draw(rt, "how")
			broken = true
		}
		t := transaction.NewTx(2)
		t.AddInput(transaction.NewTxInput(txlib.H("prev", i), 0))
		for len(t.Outputs) < int(c.Vout) {
			t.AddOutput(txlib.Out(txlib.Asset(9), 5, txlib.NewKey("none").Script))
		}
		if ways[i] != 3 {
			t.AddOutput(c.Out)
		}
		t.AddOutput(txlib.Out(txlib.Asset(9), 5, txlib.NewKey("none").Script))
		if ways[i] == 3 {
			t.Outputs = t.Outputs[:c.Vout]
			if len(t.Outputs) == 0 {
				ways[i] = 2
			}
		}
		prevs[i] = t
		h := c.TxHash()
		if ways[i] == 1 || ways[i] == 3 {
			x := t.TxHash()
			h = x[:]
		}
		ins = append(ins, transaction.NewTxInput(h, c.Vout))
	}
	p, err := pset.New(ins, s.outs, 2, 0)
	must(err)
	for i, c := range s.coins {
		switch ways[i] {
		case 0:
			p.Inputs[i].WitnessUtxo = c.Out
		case 1, 3:
			p.Inputs[i].NonWitnessUtxo = prevs[i]
		}
	}
	return p, broken
}

// genKeys draws what is done with a key map: given as is, with more than
// needed, nil, or lacking one; full tells that nothing needed is missing.
func genKeys(rt *rapid.T, label string, m map[string][]byte) (res map[string][]byte, full bool) {
	switch rapid.IntRange(0, 9).Draw(rt, label) {
	case 0:
		return nil, true
	case 1:
		if len(m) == 0 {
			return m, true
		}
		n := within(rt, label+" missing", len(m))
		for _, k := range sortedKeys(m) {
			if n == 0 {
				delete(m, k)
			}
			n--
		}
		return m, false
	case 2:
		m[txlib.NewKey("other").ScriptHex()] = txlib.H("key")
	}
	return m, true
}
