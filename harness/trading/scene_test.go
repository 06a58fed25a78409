//go:build go1.23

package trading

import (
	"encoding/hex"
	"fmt"
	"sort"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

// scene is a daemon with a few markets and a funded fee account.
type scene struct {
	*World
	rt      *rapid.T
	c       *vt.Case
	Markets []*mkt
	log     []string
}

type mkt struct {
	application.Market
	account int
	plug    bool
	open    bool
}

func split(rt *rapid.T, name string, total uint64, n int) []uint64 {
	out := []uint64{}
	even := rapid.Bool().Draw(rt, name+"Even")
	for i := n; i > 1; i-- {
		v := total / uint64(i)
		if !even {
			v = total / 100 * uint64(rapid.IntRange(1, 99).Draw(rt, name))
		}
		if v == 0 || v >= total {
			break
		}
		out = append(out, v)
		total -= v
	}
	return append(out, total)
}

func amountOf(rt *rapid.T, name string, lo, hi int) uint64 {
	e := rapid.IntRange(lo, hi).Draw(rt, name+"Exp")
	v := uint64(rapid.IntRange(100, 999).Draw(rt, name))
	for i := 2; i < e; i++ {
		v *= 10
	}
	return v
}

type sceneOpts struct {
	markets  int
	closed   bool // some markets may be closed
	feeCoins int
	expiry   time.Duration
	fees     bool
	maxCoins int
}

func genOpts(rt *rapid.T, o sceneOpts) Opts {
	w := Opts{InMemory: rapid.IntRange(0, 3).Draw(rt, "store") == 0, Seed: rapid.IntRange(0, 2).Draw(rt, "seed"), Expiry: o.expiry, Shape: rapid.IntRange(0, 3).Draw(rt, "shape"),
		Slippage: rapid.SampledFrom([]string{"0.05", "0.01", "0.1", "0"}).Draw(rt, "slippage")}
	if o.fees {
		w.MarketFee = int64(rapid.SampledFrom([]int{0, 25, 100, 1000, 4000}).Draw(rt, "fee"))
	}
	return w
}

func newScene(rt *rapid.T, c *vt.Case, w *World, o sceneOpts) *scene {
	s := &scene{World: w, rt: rt, c: c}
	fee := []uint64{}
	small := rapid.IntRange(0, 2).Draw(rt, "smallFeeCoins") == 0
	for i := 0; i < o.feeCoins; i++ {
		if small && i%4 != 3 {
			fee = append(fee, uint64(rapid.IntRange(200, 900).Draw(rt, "feeCoin")))
		} else {
			fee = append(fee, uint64(rapid.IntRange(2500, 60000).Draw(rt, "feeCoin")))
		}
	}
	w.FundFee(fee...)
	for i := 0; i < o.markets; i++ {
		nb, nq := rapid.IntRange(1, o.maxCoins).Draw(rt, "baseCoins"), rapid.IntRange(1, o.maxCoins).Draw(rt, "quoteCoins")
		base := amountOf(rt, "baseReserve", 5, 9)
		quote := amountOf(rt, "quoteReserve", 5, 12)
		m := w.CreateMarket(txlib.Asset(i+1), split(rt, "b", base, nb), split(rt, "q", quote, nq))
		_, acct, err := w.RM.MarketRepository().GetMarketByAsset(Ctx, m.QuoteAsset)
		if err != nil || acct < 0 {
			rt.Fatalf("market just created not found: %v %d", err, acct)
		}
		k := &mkt{Market: m, account: acct, open: true}
		if o.fees && rapid.IntRange(0, 3).Draw(rt, "fixed") == 0 {
			if _, err := w.Operator.UpdateMarketFixedFee(Ctx, application.MarketWithFee{Market: m, Fee: application.Fee{
				FixedBaseFee: int64(rapid.IntRange(1, 300).Draw(rt, "fixBase")), FixedQuoteFee: int64(rapid.IntRange(1, 300).Draw(rt, "fixQuote")),
			}}); err != nil {
				rt.Fatalf("update fixed fee: %v", err)
			}
		}
		if rapid.IntRange(0, 2).Draw(rt, "plug") == 0 {
			k.plug = true
			skew := decimal.New(int64(rapid.IntRange(5, 30).Draw(rt, "skew")), -1)
			qp := decimal.New(int64(quote), 0).DivRound(decimal.New(int64(base), 0), 12).Mul(skew)
			bp := decimal.New(1, 0).DivRound(qp, 12)
			w.Pluggable(m, bp.String(), qp.String())
		}
		w.Open(m)
		if o.closed && rapid.IntRange(0, 4).Draw(rt, "closed") == 0 {
			if err := w.Operator.CloseMarket(Ctx, m.BaseAsset, m.QuoteAsset); err != nil {
				rt.Fatalf("close market: %v", err)
			}
			k.open = false
		}
		s.Markets = append(s.Markets, k)
	}
	w.Settle()
	return s
}

func tradeType(sell bool) int {
	if sell {
		return application.TradeSell
	}
	return application.TradeBuy
}

// preview is the daemon's own quote; 0 when it has none.
func (s *scene) preview(m application.Market, sell bool, amount uint64, asset string) uint64 {
	p, err := s.Trade.GetMarketPrice(Ctx, m, tradeType(sell), amount, asset)
	if err != nil {
		return 0
	}
	return p.Amount
}

// within tells whether v is within the configured slippage of x.
func (s *scene) within(v, x uint64) bool {
	d, p := decimal.New(int64(v), 0), decimal.New(int64(x), 0)
	one := decimal.New(1, 0)
	return d.GreaterThanOrEqual(p.Mul(one.Sub(s.Slippage))) && d.LessThanOrEqual(p.Mul(one.Add(s.Slippage)))
}

// free sums the wallet's available outputs of an account.
func (s *scene) free(account int, asset string) (total uint64, n int) {
	for _, u := range s.Unspents() {
		if !u.Spent && u.Confirmed && !u.Locked && u.AssetHash == asset && s.Account(hex.EncodeToString(u.ScriptPubKey)) == account {
			total += u.Value
			n++
		}
	}
	return
}

// terms draws fair terms for a market: assets and amounts in the direction of
// the trade. ok is false if the market quotes nothing for the amount drawn.
func (s *scene) terms(m *mkt, sell bool) (assetP string, amountP uint64, assetR string, amountR uint64, ok bool) {
	byBase := rapid.Bool().Draw(s.rt, "byBase")
	asset := m.BaseAsset
	if !byBase {
		asset = m.QuoteAsset
	}
	total, _ := s.free(m.account, asset)
	amount := total / 1000 * uint64(rapid.SampledFrom([]int{1, 20, 100, 250, 400, 550, 700, 830}).Draw(s.rt, "perMille")+rapid.IntRange(0, 9).Draw(s.rt, "perMille2"))
	counter := s.preview(m.Market, sell, amount, asset)
	if amount == 0 || counter == 0 {
		return
	}
	base, quote := amount, counter
	if !byBase {
		base, quote = counter, amount
	}
	if sell {
		return m.BaseAsset, base, m.QuoteAsset, quote, true
	}
	return m.QuoteAsset, quote, m.BaseAsset, base, true
}

// state is everything a refused request must leave alone.
func (s *scene) state() string {
	us := s.Unspents()
	sort.Slice(us, func(i, j int) bool {
		if us[i].TxID != us[j].TxID {
			return us[i].TxID < us[j].TxID
		}
		return us[i].VOut < us[j].VOut
	})
	out := ""
	for _, u := range us {
		out += fmt.Sprintf("%.10s:%d spent=%v locked=%v confirmed=%v\n", u.TxID, u.VOut, u.Spent, u.Locked, u.Confirmed)
	}
	// the address counters are not part of it: a refused proposal may leave a gap
	ms, err := s.RM.MarketRepository().GetAllMarkets(Ctx)
	if err != nil {
		s.rt.Fatalf("markets: %v", err)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].AccountIndex < ms[j].AccountIndex })
	for _, m := range ms {
		out += fmt.Sprintf("market %d %.6s %v fee=%d/%d/%d price=%s/%s\n", m.AccountIndex, m.QuoteAsset, m.Tradable, m.Fee,
			m.FixedFee.BaseFee, m.FixedFee.QuoteFee, m.Price.BasePrice, m.Price.QuotePrice)
	}
	return out
}

func (s *scene) storedTrade(acceptID string) *domain.Trade {
	t, err := s.RM.TradeRepository().GetTradeBySwapAcceptID(Ctx, acceptID)
	if err != nil || t == nil {
		s.rt.Fatalf("trade with accept id %s not stored: %v", acceptID, err)
	}
	return t
}
