//go:build go1.23

package funds

import (
	"encoding/hex"
	"fmt"
	"sort"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

// bank is a daemon with funded and open markets, fee and wallet accounts, and
// traders.
type bank struct {
	*story
	*World
	markets []application.Market
	fees    []application.Fee
	deals   []*pending
	n       int    // of traders
	why     string // outcome of the last order
}

// pending is an accepted trade.
type pending struct {
	who       *Trader
	id        string
	signed    string
	over      bool // completed or aborted
	completed bool
	txid      string
	market    int
	req       *Request
	fee       application.Fee
}

func coins(rt *rapid.T, name string, min, max int, scale uint64) []uint64 {
	l := []uint64{}
	for i, n := 0, rapid.IntRange(min, max).Draw(rt, name+"Coins"); i < n; i++ {
		l = append(l, scale/1000*uint64(rapid.IntRange(200, 1000).Draw(rt, name+"Value"))+uint64(within(rt, "odd", 1000)))
	}
	return l
}

func newBank(rt *rapid.T, s *story, w *World) *bank {
	b := &bank{story: s, World: w}
	w.FundFee(coins(rt, "fee", 1, 5, []uint64{4000, 40000, 400000}[within(rt, "feeScale", 3)])...)
	for i, n := 0, 1+within(rt, "markets", 2); i < n; i++ {
		m := w.CreateMarket(txlib.Asset(1+i), coins(rt, "base", 1, 4, 100000000), coins(rt, "quote", 1, 4, 100000000))
		w.Open(m)
		b.markets = append(b.markets, m)
		b.fees = append(b.fees, application.Fee{BasisPoint: w.Opts.MarketFee})
	}
	for i, n := 0, within(rt, "deposits", 5); i < n; i++ {
		b.depositWallet()
	}
	return b
}

// depositWallet pays to a new address of the wallet account.
func (b *bank) depositWallet() {
	rt := b.rt
	a, _, err := b.Wallet.GenerateAddressAndBlindingKey(Ctx)
	if err != nil {
		b.fatalf("address: %v", err)
	}
	asset := []string{Base, Base, txlib.Asset(1), txlib.Asset(7)}[within(rt, "asset", 4)]
	b.Chain.Fund(chance(rt, "confirmed", 70), Pay{Asset: asset, Value: uint64(rapid.IntRange(500, 5000000).Draw(rt, "value")), Key: b.KeyOf(a), Confidential: chance(rt, "confidential", 70)})
	b.did("deposit to the wallet")
}

// rarely is like chance, for what should not happen in most cases (small
// numbers are drawn more often).
func rarely(rt *rapid.T, name string, percent int) bool { return within(rt, name, 100) >= 100-percent }

func kindOf(sell bool) int {
	if sell {
		return application.TradeSell
	}
	return application.TradeBuy
}

// propose makes a fair proposal.
func (b *bank) propose() *pending {
	rt := b.rt
	i := within(rt, "market", len(b.markets))
	m := b.markets[i]
	sell := chance(rt, "sell", 50)
	free := b.free(domain.MarketAccountStart+i, Base)
	amount := free / 1000 * uint64(1+within(rt, "perMille", 500))
	price, err := b.Trade.GetMarketPrice(Ctx, m, kindOf(sell), amount, Base)
	if err != nil {
		b.did("no price: %v", err)
		return nil
	}
	P, p, R, r := Base, amount, m.QuoteAsset, price.Amount
	if !sell {
		P, p, R, r = R, r, P, p
	}
	b.n++
	who := b.NewTrader(fmt.Sprint("trader", b.n))
	req := who.Request(m, sell, P, p, R, r, uint64(within(rt, "change", 3)*700), 1+within(rt, "coins", 2), chance(rt, "conf", 60))
	acc, _, err := who.Propose(req)
	b.did("propose %d for %d to market %d: %v", p, r, i, acc != nil)
	if acc == nil {
		return nil
	}
	signed, err := who.Sign(acc.GetTransaction())
	if err != nil {
		b.fatalf("sign: %v", err)
	}
	d := &pending{who: who, id: acc.GetId(), signed: signed, market: i, req: req, fee: b.fees[i]}
	b.deals = append(b.deals, d)
	return d
}

// terms changes the fees of a market.
func (b *bank) terms() {
	rt := b.rt
	i := within(rt, "market", len(b.markets))
	m := b.markets[i]
	if err := b.Operator.CloseMarket(Ctx, m.BaseAsset, m.QuoteAsset); err != nil {
		b.fatalf("close: %v", err)
	}
	f := application.Fee{BasisPoint: int64(within(rt, "fee", 500)), FixedBaseFee: int64(1 + within(rt, "fixedBase", 900)), FixedQuoteFee: int64(1 + within(rt, "fixedQuote", 900))}
	if rarely(rt, "noFixed", 30) {
		f.FixedBaseFee, f.FixedQuoteFee = 0, 0
	}
	got, err := b.Operator.UpdateMarketPercentageFee(Ctx, application.MarketWithFee{Market: m, Fee: application.Fee{BasisPoint: f.BasisPoint}})
	if err != nil || got.Fee.BasisPoint != f.BasisPoint {
		b.fatalf("percentage fee %+v: %+v %v", f, got, err)
	}
	got, err = b.Operator.UpdateMarketFixedFee(Ctx, application.MarketWithFee{Market: m, Fee: application.Fee{FixedBaseFee: f.FixedBaseFee, FixedQuoteFee: f.FixedQuoteFee}})
	if err != nil || got.Fee != f {
		b.fatalf("fixed fee %+v: %+v %v", f, got, err)
	}
	b.fees[i] = f
	b.Open(m)
	b.Settle()
	b.did("market %d has fee %+v", i, f)
}

// finish completes or aborts a pending trade.
func (b *bank) finish() {
	for _, d := range b.deals {
		if d.over {
			continue
		}
		d.over = true
		if chance(b.rt, "complete", 60) {
			txid, _, err := d.who.Complete(d.id, d.signed)
			b.did("complete: %.8s %v", txid, err)
			d.txid, d.completed = txid, err == nil && txid != ""
		} else {
			_, err := d.who.Abort(d.id)
			b.did("abort: %v", err)
		}
		return
	}
}

// mine confirms some of the unconfirmed transactions.
func (b *bank) mine() {
	for _, id := range b.Chain.Txs() {
		if t := b.Chain.Tx(id); !t.Confirmed && chance(b.rt, "mined", 70) {
			b.Confirmed(id)
			b.did("%.8s confirmed", id)
		}
	}
}

// free sums what the store holds available for an account.
func (b *bank) free(account int, asset string) (total uint64) {
	for _, u := range b.Unspents() {
		if available(u) && u.AssetHash == asset && b.Account(hex.EncodeToString(u.ScriptPubKey)) == account {
			total += u.Value
		}
	}
	return
}

func available(u domain.Unspent) bool { return !u.Spent && !u.Locked && u.Confirmed }

func keyOf(u domain.Unspent) Outpoint { return Outpoint{TxID: u.TxID, Vout: u.VOut} }

// textOf tells everything about an unspent.
func textOf(u domain.Unspent) string { return fmt.Sprintf("%+v", u) }

func (b *bank) storeText() string {
	l := []string{}
	for _, u := range b.Unspents() {
		l = append(l, textOf(u))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}
