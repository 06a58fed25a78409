//go:build go1.23

package trading

import (
	"fmt"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

func TestC06Proposals(t *testing.T) {
	rule := "1-2 markets (open, closed, re-priced; balanced or operator-priced), fees, slippage; up to 5 proposals each fair or altered (amounts, assets, direction, market, transaction); non-trivial: at least one accepted and one refused"
	vt.Check(t, 200, 8000, rule, func(rt *rapid.T, c *vt.Case) {
		o := sceneOpts{markets: rapid.IntRange(1, 2).Draw(rt, "markets"), closed: true, feeCoins: 4, fees: true, maxCoins: 3}
		In(rt, genOpts(rt, o), func(rt *rapid.T, w *World) {
			s := newScene(rt, c, w, o)
			tr := w.NewTrader("t")
			accepted, refused := 0, 0
			for i, n := 0, rapid.IntRange(2, 5).Draw(rt, "proposals"); i < n; i++ {
				if s.proposal(tr) {
					accepted++
				} else {
					refused++
				}
				if m := s.Markets[rapid.IntRange(0, len(s.Markets)-1).Draw(rt, "touch")]; rapid.IntRange(0, 3).Draw(rt, "toggle") == 0 {
					if m.open {
						if err := w.Operator.CloseMarket(Ctx, m.BaseAsset, m.QuoteAsset); err != nil {
							rt.Fatalf("close: %v", err)
						}
					} else {
						w.Open(m.Market)
					}
					m.open = !m.open
				}
			}
			if accepted > 0 && refused > 0 {
				c.NonTrivial("%s", strings.Join(s.log, "; "))
			}
		})
	})
}

// proposal makes one and judges whether it may be, and is, accepted.
func (s *scene) proposal(tr *Trader) bool {
	rt := s.rt
	m := s.Markets[rapid.IntRange(0, len(s.Markets)-1).Draw(rt, "market")]
	sell := rapid.Bool().Draw(rt, "sell")
	kind := rapid.SampledFrom([]string{"fair", "fair", "slip", "slip", "slip", "amounts", "swapped", "otherquote", "samequote", "foreign", "direction",
		"direction+", "wrongbase", "unknown", "wrongbasemarket", "notx", "noout", "poor", "allsame"}).Draw(rt, "kind")
	P, p, R, r, ok := s.terms(m, sell)
	if !ok {
		// closed or too small: some terms all the same
		P, p, R, r = m.QuoteAsset, 1000, m.BaseAsset, 1000
		if sell {
			P, R = R, P
		}
	}
	market := m.Market
	kindSell := sell
	scale := func(v uint64) uint64 {
		f := rapid.SampledFrom([]uint64{1, 10, 500, 800, 900, 940, 960, 985, 995, 999, 1001, 1005, 1015, 1040, 1060, 1100, 1300, 3000, 100000}).Draw(rt, "scale")
		x := v / 1000 * f
		if v < 1000000 {
			x = v * f / 1000
		}
		if x == 0 {
			x = 1
		}
		return x
	}
	other := txlib.Asset(9)
	if len(s.Markets) > 1 {
		for _, x := range s.Markets {
			if x != m {
				other = x.QuoteAsset
			}
		}
	}
	switch kind {
	case "slip":
		if rapid.Bool().Draw(rt, "side") {
			p = scale(p)
		} else {
			r = scale(r)
		}
	case "amounts":
		p, r = scale(p), scale(r)
	case "swapped":
		P, R = R, P
	case "otherquote":
		if sell {
			R = other
		} else {
			P = other
		}
	case "samequote":
		P, R = m.QuoteAsset, m.QuoteAsset
	case "allsame":
		P, R = m.BaseAsset, m.BaseAsset
	case "foreign":
		if rapid.Bool().Draw(rt, "which") {
			P = txlib.Asset(77)
		} else {
			R = txlib.Asset(77)
		}
	case "direction":
		kindSell = !sell
	case "direction+":
		P, p, R, r = R, r, P, p
	case "wrongbase":
		if sell {
			P = other
		} else {
			R = other
		}
	case "unknown":
		market.QuoteAsset = txlib.Asset(55)
	case "wrongbasemarket":
		market.BaseAsset = txlib.Asset(56)
	}
	change := uint64(0)
	if rapid.Bool().Draw(rt, "change") {
		change = uint64(rapid.IntRange(1, 100000).Draw(rt, "changeAmount"))
	}
	req := tr.Request(market, kindSell, P, p, R, r, change, rapid.IntRange(1, 2).Draw(rt, "coins"), rapid.Bool().Draw(rt, "conf"))
	switch kind {
	case "notx":
		req.Msg.Transaction = rapid.SampledFrom([]string{"", "AAAA", "cHNldP8=", "not base64 at all"}).Draw(rt, "tx")
	case "noout":
		small := tr.Request(market, kindSell, P, p, R, r/2+1, change, 1, true)
		if r > 2 {
			req.Msg.Transaction, req.Msg.InputBlindingKey, req.Msg.OutputBlindingKey = small.Msg.Transaction, small.Msg.InputBlindingKey, small.Msg.OutputBlindingKey
		} else {
			kind = "fair"
		}
	case "poor":
		if p > 2 {
			small := tr.Request(market, kindSell, P, p/2, R, r, 0, 1, true)
			req.Msg.Transaction, req.Msg.InputBlindingKey, req.Msg.OutputBlindingKey = small.Msg.Transaction, small.Msg.InputBlindingKey, small.Msg.OutputBlindingKey
		} else {
			kind = "fair"
		}
	}
	base, quote := p, r
	if !kindSell {
		base, quote = r, p
	}
	wantP, wantR := m.QuoteAsset, m.BaseAsset
	if kindSell {
		wantP, wantR = m.BaseAsset, m.QuoteAsset
	}
	right := m.open && market == m.Market && P == wantP && R == wantR
	// the market's own quote right now, from either side
	priced := false
	for _, k := range []struct {
		in, out uint64
		asset   string
	}{{base, quote, m.BaseAsset}, {quote, base, m.QuoteAsset}} {
		if x := s.preview(m.Market, kindSell, k.in, k.asset); x > 0 && s.within(k.out, x) {
			priced = true
		}
	}
	may := right && priced && kind != "notx"
	must := may && kind != "noout" && kind != "poor" // these cannot be completed anyway
	freeR, _ := s.free(m.account, R)
	freeFee, nFee := s.free(-1, Base)
	freeFee2, nFee2 := s.free(0, Base)
	before := s.state()
	sent := len(s.Chain.Sent)
	desc := fmt.Sprintf("%s sell=%v p=%d r=%d open=%v plug=%v", kind, kindSell, p, r, m.open, m.plug)
	acc, fail, err := tr.Propose(req)
	s.log = append(s.log, fmt.Sprintf("%s -> %v", desc, acc != nil))
	if acc == nil {
		if fail == nil && err == nil {
			rt.Fatalf("%s: neither accepted nor refused", desc)
		}
		if fail != nil && fail.GetMessageId() != req.Msg.Id {
			rt.Fatalf("%s: failure answers message %q, not %q", desc, fail.GetMessageId(), req.Msg.Id)
		}
		if after := s.state(); after != before {
			rt.Fatalf("%s: refused but state changed\nbefore:\n%s\nafter:\n%s", desc, before, after)
		}
		if len(s.Chain.Sent) != sent {
			rt.Fatalf("%s: refused but something was broadcast", desc)
		}
		_ = nFee
		if must && freeR >= r && (freeFee > 4000 && nFee > 0 || freeFee2 > 4000 && nFee2 > 0) {
			rt.Fatalf("%s: fair proposal refused: %v %v", desc, err, fail)
		}
		s.c.Class("refused %s", kind)
		return false
	}
	if fail != nil || err != nil {
		rt.Fatalf("%s: accepted and refused at once: %v %v", desc, fail, err)
	}
	if !may {
		rt.Fatalf("%s: accepted although right market=%v, right price=%v (quote for base %d, for quote %d)", desc, right, priced,
			s.preview(m.Market, kindSell, base, m.BaseAsset), s.preview(m.Market, kindSell, quote, m.QuoteAsset))
	}
	s.c.Class("accepted %s sell=%v", kind, kindSell)
	return true
}

func TestC07Accepted(t *testing.T) {
	rule := "fair proposals of every shape (trader coins, change, confidential or not) to markets with 1-4 coins per side, one after the other; the accepted transaction is opened, judged, signed and verified; non-trivial: accepted"
	vt.Check(t, 330, 8000, rule, func(rt *rapid.T, c *vt.Case) {
		o := sceneOpts{markets: 1, feeCoins: rapid.IntRange(1, 4).Draw(rt, "feeCoins"), fees: true, maxCoins: 4}
		In(rt, genOpts(rt, o), func(rt *rapid.T, w *World) {
			s := newScene(rt, c, w, o)
			tr := w.NewTrader("t")
			for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "proposals"); i < n; i++ {
				m := s.Markets[0]
				sell := rapid.Bool().Draw(rt, "sell")
				P, p, R, r, ok := s.terms(m, sell)
				if !ok {
					c.Class("nothing quoted")
					continue
				}
				if rapid.IntRange(0, 9).Draw(rt, "exact") == 0 {
					// exactly one coin: no change for the market
					for _, u := range w.Unspents() {
						if u.AssetHash == R && !u.Spent && !u.Locked && w.Account(fmt.Sprintf("%x", u.ScriptPubKey)) == m.account {
							if x := s.preview(m.Market, sell, u.Value, R); x > 0 {
								r, p = u.Value, x
							}
							break
						}
					}
				}
				change := uint64(0)
				if rapid.IntRange(0, 3).Draw(rt, "change") > 0 {
					change = amountOf(rt, "changeAmount", 2, 9)
				}
				conf := rapid.IntRange(0, 3).Draw(rt, "conf") > 0
				nc := rapid.IntRange(1, 4).Draw(rt, "coins")
				req := tr.Request(m.Market, sell, P, p, R, r, change, nc, conf)
				store := w.Unspents()
				acc, _, err := tr.Propose(req)
				if acc == nil {
					c.Class("refused: %v", err)
					continue
				}
				desc := fmt.Sprintf("sell=%v p=%d r=%d change=%d coins=%d conf=%v", sell, p, r, change, nc, conf)
				if err := w.JudgeAccept(req, acc, m.account, store); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				signed, err := tr.Sign(acc.GetTransaction())
				if err != nil {
					rt.Fatalf("%s: trader cannot sign: %v", desc, err)
				}
				raw, tx, err := FinalHex(signed)
				if err != nil {
					rt.Fatalf("%s: does not finalise: %v", desc, err)
				}
				if err := w.Chain.Verify(tx); err != nil {
					rt.Fatalf("%s: final transaction invalid: %v", desc, err)
				}
				fee := uint64(0)
				for _, o := range tx.Outputs {
					if len(o.Script) == 0 {
						fee = txlib.ValueOf(o.Value)
					}
				}
				if vs := uint64(tx.VirtualSize()); (fee+3)*10 < vs || fee > vs { // 0.1 sat/vB; signatures vary by a byte or two
					rt.Fatalf("%s: network fee %d for %d vbytes", desc, fee, vs)
				}
				_ = raw
				if t := s.storedTrade(acc.GetId()); t.PsetBase64 != acc.GetTransaction() || !t.IsAccepted() || t.SwapRequest.ID != req.Msg.Id {
					rt.Fatalf("%s: stored trade does not match", desc)
				}
				scripts := map[string]bool{}
				for _, in := range tx.Inputs[len(req.Coins):] {
					scripts[fmt.Sprintf("%x", w.Chain.Output(InHash(in), in.Index).Script)] = true
				}
				added := len(tx.Inputs) - len(req.Coins)
				c.Class("wallet inputs %d, same address %v", added, len(scripts) < added)
				c.Class("accepted, change %v, outputs %d", change > 0, len(tx.Outputs))
				c.NonTrivial("%s fee=%d ins=%d outs=%d", desc, fee, len(tx.Inputs), len(tx.Outputs))
			}
		})
	})
}

var _ = application.TradeBuy
