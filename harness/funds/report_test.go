//go:build go1.23

package funds

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"google.golang.org/protobuf/proto"
)

// due is an entry a fee report must have.
type due struct {
	id             string
	bps            int64
	asset          string
	paid, received uint64
}

func (d due) amount() uint64 {
	x := new(big.Int).Mul(new(big.Int).SetUint64(d.paid), big.NewInt(d.bps))
	return x.Div(x, big.NewInt(10000)).Uint64()
}

// price of a unit of what was received, in what was paid, to 8 decimals (the
// last may be rounded).
func (d due) price() decimal.Decimal {
	x := new(big.Int).Mul(new(big.Int).SetUint64(d.paid), big.NewInt(100000000))
	x.Div(x, new(big.Int).SetUint64(d.received))
	return decimal.NewFromBigInt(x, -8)
}

func checkReport(s *story, w *World, m application.Market, want []due) {
	rep, err := w.Operator.GetCollectedMarketFee(Ctx, m)
	if err != nil {
		s.fatalf("report: %v", err)
	}
	by := map[string]due{}
	totals := map[string]int64{}
	for _, d := range want {
		by[d.id] = d
		totals[d.asset] += int64(d.amount())
	}
	for _, f := range rep.CollectedFees {
		d, ok := by[f.TradeID]
		if !ok {
			s.fatalf("the report of %.4s has trade %s which is not a completed one of the market, or is there twice", m.QuoteAsset, f.TradeID)
		}
		delete(by, f.TradeID)
		if f.BasisPoint != d.bps || f.Asset != d.asset || f.Amount != d.amount() || f.MarketPrice.Sub(d.price()).Abs().GreaterThan(decimal.New(1, -8)) {
			s.fatalf("trade of %d %.4s for %d at %d bps is reported as %+v, the fee is %d at price %v", d.paid, d.asset, d.received, d.bps, f, d.amount(), d.price())
		}
	}
	for id, d := range by {
		s.fatalf("completed trade %s of %d %.4s is not in the report", id, d.paid, d.asset)
	}
	for a, v := range rep.TotalCollectedFeesPerAsset {
		if totals[a] != v {
			s.fatalf("total of %.4s is %d, want %d", a, v, totals[a])
		}
	}
	for a, v := range totals {
		if rep.TotalCollectedFeesPerAsset[a] != v {
			s.fatalf("total of %.4s is %d, want %d", a, rep.TotalCollectedFeesPerAsset[a], v)
		}
	}
}

// The report of what the daemon did.
func TestC32Histories(t *testing.T) {
	rule := "histories of trades (completed, aborted, refused, expired, settled by a block) on one or two markets whose fees change meanwhile, with restarts, the reports compared with the completed proposals; non-trivial: some trade completed and another did not"
	vt.Check(t, 150, 3000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		o.MarketFee = []int64{25, 0, 333}[within(rt, "marketFee", 3)]
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			b := newBank(rt, s, w)
			check := func() (done, not int) {
				w.Settle()
				all, err := w.RM.TradeRepository().GetAllTrades(Ctx)
				if err != nil {
					s.fatalf("trades: %v", err)
				}
				ids := map[string]string{}
				for _, t := range all {
					ids[t.SwapRequest.ID] = t.ID.String()
				}
				want := make([][]due, len(b.markets))
				for _, d := range b.deals {
					// a block with the transaction completes a trade as well
					if x := w.Chain.Tx(d.txid); !d.completed && (d.txid == "" || x == nil || !x.Confirmed) {
						not++
						continue
					}
					done++
					want[d.market] = append(want[d.market], due{ids[d.req.Msg.GetId()], d.fee.BasisPoint, d.req.AssetP, d.req.AmountP, d.req.AmountR})
				}
				for i, m := range b.markets {
					checkReport(s, w, m, want[i])
				}
				return
			}
			check()
			done, not := 0, 0
			for step, steps := 0, rapid.IntRange(3, 9).Draw(rt, "steps"); step < steps; step++ {
				switch n := within(rt, "step", 12); {
				case n < 4:
					b.propose()
				case n < 8:
					b.finish()
				case n == 8:
					b.mine()
				case n < 11:
					b.terms()
				default:
					if rarely(rt, "restart", 50) {
						w.Restart()
						w.Unlock()
						s.did("restart")
					} else {
						w.Advance(w.Opts.Expiry + time.Minute)
						for _, d := range b.deals {
							d.over = true
						}
						s.did("expiry")
					}
				}
				done, not = check()
			}
			c.Class("completed=%v others=%v", done > 0, not > 0)
			if done > 0 && not > 0 {
				c.NonTrivial("%v", s.txt)
			}
		})
	})
}

// The report of any stored trades.
func TestC32Stored(t *testing.T) {
	rule := "up to 12 stored trades of two markets in every status, failed or not, with any amounts and fees, compared with the report of each market; non-trivial: two entries in the same asset, and a trade not reported"
	vt.Check(t, 300, 10000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		o.Bare = true
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			markets := []application.Market{}
			for i := 0; i < 2; i++ {
				m, err := domain.NewMarket(domain.MarketAccountStart+i, 25)
				if err != nil {
					s.fatalf("market: %v", err)
				}
				m.BaseAsset, m.QuoteAsset = Base, txlib.Asset(1+i)
				if _, err := w.RM.MarketRepository().GetOrCreateMarket(Ctx, m); err != nil {
					s.fatalf("market: %v", err)
				}
				if err := w.RM.MarketRepository().UpdateMarket(Ctx, m.AccountIndex, func(*domain.Market) (*domain.Market, error) { return m, nil }); err != nil {
					s.fatalf("market: %v", err)
				}
				markets = append(markets, application.Market{BaseAsset: Base, QuoteAsset: m.QuoteAsset})
			}
			amount := func(name string) uint64 {
				switch within(rt, name+"Kind", 4) {
				case 0:
					return uint64(1 + within(rt, name, 20000))
				case 1:
					return rapid.Uint64Range(1, 2100000000000000).Draw(rt, name)
				case 2:
					return uint64(1+within(rt, name, 1000)) * 10000
				}
				return uint64(1+within(rt, name, 1000))*10000 - 1
			}
			want := make([][]due, 2)
			left := 0
			for i, n := 0, within(rt, "trades", 13); i < n; i++ {
				mi := within(rt, "market", 2)
				m := markets[mi]
				d := due{bps: []int64{25, 0, 1, 100, 9999, int64(within(rt, "bps", 10000))}[within(rt, "fee", 6)], paid: amount("paid"), received: amount("received"), asset: m.BaseAsset}
				other := m.QuoteAsset
				if chance(rt, "buy", 50) {
					d.asset, other = other, d.asset
				}
				msg, err := proto.Marshal(&pbswap.SwapRequest{Id: fmt.Sprint("req", i), AssetP: d.asset, AmountP: d.paid, AssetR: other, AmountR: d.received})
				if err != nil {
					s.fatalf("%v", err)
				}
				tr := domain.NewTrade()
				t0, err := w.RM.TradeRepository().GetOrCreateTrade(Ctx, nil)
				if err != nil {
					s.fatalf("trade: %v", err)
				}
				tr.ID = t0.ID
				d.id = tr.ID.String()
				code := within(rt, "status", 8)
				if code > domain.Expired {
					code = domain.Completed + within(rt, "done", 2)
				}
				tr.Status = domain.Status{Code: code, Failed: code > domain.Undefined && code < domain.Settled && rarely(rt, "failed", 25)}
				if code == domain.Expired {
					tr.Status = domain.ExpiredStatus
				}
				tr.MarketQuoteAsset, tr.MarketFee = m.QuoteAsset, d.bps
				tr.MarketFixedBaseFee, tr.MarketFixedQuoteFee = int64(within(rt, "fixed", 1000)), int64(within(rt, "fixed", 1000))
				tr.SwapRequest = domain.Swap{ID: fmt.Sprint("req", i), Message: msg}
				tr.TxID = fmt.Sprint("tx", i)
				tr.SwapAccept.ID = fmt.Sprint("acc", i)
				tr.MarketPrice = domain.Prices{BasePrice: due{paid: d.paid, received: d.received}.price(), QuotePrice: due{paid: d.received, received: d.paid}.price()}
				if d.asset == m.QuoteAsset {
					tr.MarketPrice.BasePrice, tr.MarketPrice.QuotePrice = tr.MarketPrice.QuotePrice, tr.MarketPrice.BasePrice
				}
				if err := w.RM.TradeRepository().UpdateTrade(Ctx, &t0.ID, func(*domain.Trade) (*domain.Trade, error) { return tr, nil }); err != nil {
					s.fatalf("trade: %v", err)
				}
				s.did("trade %d of market %d: %+v %+v", i, mi, tr.Status, d)
				if (code == domain.Completed || code == domain.Settled) && !tr.Status.Failed {
					want[mi] = append(want[mi], d)
				} else {
					left++
				}
			}
			same := false
			for i, m := range markets {
				checkReport(s, w, m, want[i])
				n := map[string]int{}
				for _, d := range want[i] {
					n[d.asset]++
					same = same || n[d.asset] > 1
				}
			}
			if same && left > 0 {
				c.NonTrivial("%v", s.txt)
			}
		})
	})
}
