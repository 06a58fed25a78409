//go:build go1.23

package domainsm

import (
	"fmt"
	"testing"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
)

// marketModel is the reference of a market's lifecycle.
type marketModel struct {
	account                int
	base, quote            string
	fee                    int64
	fixedBase, fixedQuote  int64
	open, pluggable        bool
	basePrice, quotePrice  decimal.Decimal
}

func (m marketModel) String() string {
	return fmt.Sprintf("{acc %d base %q quote %q fee %d fixed %d/%d open %v pluggable %v price %s/%s}", m.account,
		m.base, m.quote, m.fee, m.fixedBase, m.fixedQuote, m.open, m.pluggable, m.basePrice, m.quotePrice)
}

func modelOf(m *domain.Market) marketModel {
	return marketModel{
		account: m.AccountIndex, base: m.BaseAsset, quote: m.QuoteAsset, fee: m.Fee,
		fixedBase: m.FixedFee.BaseFee, fixedQuote: m.FixedFee.QuoteFee,
		open: m.IsTradable(), pluggable: m.IsStrategyPluggable(),
		basePrice: m.Price.BasePrice, quotePrice: m.Price.QuotePrice,
	}
}

func (m marketModel) equal(o marketModel) bool {
	return m.account == o.account && m.base == o.base && m.quote == o.quote && m.fee == o.fee &&
		m.fixedBase == o.fixedBase && m.fixedQuote == o.fixedQuote && m.open == o.open &&
		m.pluggable == o.pluggable && m.basePrice.Equal(o.basePrice) && m.quotePrice.Equal(o.quotePrice)
}

func genFee() *rapid.Generator[int64] {
	return rapid.OneOf(
		rapid.SampledFrom([]int64{0, 1, 25, 9998, 9999, 10000, 10001, -1, -9999, 1 << 40, -1 << 62}),
		rapid.Int64Range(0, 9999), rapid.Int64Range(-20000, 20000))
}

func genFixed() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.SampledFrom([]int64{0, 0, 1, -1, 1 << 50, -1 << 50}), rapid.Int64Range(0, 1000), rapid.Int64Range(-50, 50))
}

func genPrice() *rapid.Generator[decimal.Decimal] {
	return rapid.Custom(func(t *rapid.T) decimal.Decimal {
		if rapid.IntRange(0, 3).Draw(t, "zero") == 0 {
			return decimal.Zero
		}
		return decimal.New(rapid.Int64Range(1, 1<<40).Draw(t, "c"), -int32(rapid.IntRange(0, 12).Draw(t, "e")))
	})
}

func TestC04MarketHistories(t *testing.T) {
	assets := []string{"", "A", "B", "C"}
	vt.Check(t, 8000, 200000, "the history opened the market at least once and had an action refused", func(rt *rapid.T, c *vt.Case) {
		acc := rapid.SampledFrom([]int{0, 1, 5, 6, 1000, -1, -5}).Draw(rt, "account")
		fee := genFee().Draw(rt, "fee")
		real, err := domain.NewMarket(acc, fee)
		legal := acc >= 0 && fee >= 0 && fee <= 9999
		if (err == nil) != legal {
			rt.Fatalf("NewMarket(%d, %d): error %v", acc, fee, err)
		}
		if err != nil {
			c.Class("market refused")
			return
		}
		m := marketModel{account: acc, fee: fee}
		opened, refused := 0, 0
		hist := ""
		n := rapid.IntRange(1, 30).Draw(rt, "n")
		for i := 0; i < n; i++ {
			before := m
			var op string
			var want bool
			var err error
			funded := m.base != "" && m.quote != ""
			switch rapid.SampledFrom([]string{"fund", "fundok", "open", "open", "close", "fee", "fixed", "plug", "balance", "bprice", "qprice"}).Draw(rt, "op") {
			case "fund":
				base := rapid.SampledFrom(assets[1:]).Draw(rt, "base")
				outs := make([]domain.OutpointWithAsset, 0)
				set := map[string]bool{}
				for j, k := 0, rapid.IntRange(0, 4).Draw(rt, "outs"); j < k; j++ {
					a := rapid.SampledFrom(assets[1:]).Draw(rt, "asset")
					set[a] = true
					outs = append(outs, domain.OutpointWithAsset{Asset: a, Txid: fmt.Sprint("t", j), Vout: j})
				}
				op = fmt.Sprintf("fund %v base %s", outs, base)
				err = real.FundMarket(outs, base)
				want = funded || (set[base] && len(set) == 2)
				if !funded && want {
					m.base = base
					for a := range set {
						if a != base {
							m.quote = a
						}
					}
				}
			case "fundok":
				op = "fund A,B base A"
				err = real.FundMarket([]domain.OutpointWithAsset{{Asset: "A", Txid: "t"}, {Asset: "B", Txid: "u"}}, "A")
				want = true
				if !funded {
					m.base, m.quote = "A", "B"
				}
			case "open":
				op = "open"
				err = real.MakeTradable()
				priced := !m.pluggable || !(m.basePrice.IsZero() && m.quotePrice.IsZero())
				want = funded && priced
				if want {
					m.open = true
					opened++
				}
			case "close":
				op = "close"
				err = real.MakeNotTradable()
				want = funded
				if want {
					m.open = false
				}
			case "fee":
				f := genFee().Draw(rt, "fee")
				op = fmt.Sprintf("fee %d", f)
				err = real.ChangeFeeBasisPoint(f)
				want = funded && !m.open && f >= 0 && f <= 9999
				if want {
					m.fee = f
				}
			case "fixed":
				b, q := genFixed().Draw(rt, "b"), genFixed().Draw(rt, "q")
				op = fmt.Sprintf("fixed %d %d", b, q)
				err = real.ChangeFixedFee(b, q)
				want = funded && !m.open && b >= 0 && q >= 0 && (b == 0) == (q == 0)
				if want {
					m.fixedBase, m.fixedQuote = b, q
				}
			case "plug":
				op = "pluggable"
				err = real.MakeStrategyPluggable()
				want = !m.open
				if want {
					m.pluggable = true
					m.basePrice, m.quotePrice = decimal.Zero, decimal.Zero
				}
			case "balance":
				op = "balanced"
				err = real.MakeStrategyBalanced()
				want = !m.open
				if want {
					m.pluggable = false
				}
			case "bprice":
				p := genPrice().Draw(rt, "p")
				op = "base price " + p.String()
				err = real.ChangeBasePrice(p)
				want = funded
				if want {
					m.basePrice = p
				}
			case "qprice":
				p := genPrice().Draw(rt, "p")
				op = "quote price " + p.String()
				err = real.ChangeQuotePrice(p)
				want = funded
				if want {
					m.quotePrice = p
				}
			}
			hist += "; " + op
			if (err == nil) != want {
				rt.Fatalf("after %s: %s accepted=%v (%v), expected accepted=%v in state %v", hist, op, err == nil, err, want, before)
			}
			if err != nil {
				refused++
			}
			if got := modelOf(real); !got.equal(m) {
				rt.Fatalf("after %s: market is %v, expected %v", hist, got, m)
			}
			if real.IsFunded() != (m.base != "" && m.quote != "") {
				rt.Fatalf("after %s: IsFunded=%v in %v", hist, real.IsFunded(), m)
			}
			if !m.pluggable {
				if _, ok := real.Strategy.Formula().(formula.BalancedReserves); !ok {
					rt.Fatalf("after %s: balanced market has formula %T", hist, real.Strategy.Formula())
				}
			}
			if m.open && !(m.base != "" && m.quote != "") {
				rt.Fatalf("after %s: open market without assets", hist)
			}
		}
		if opened > 0 {
			c.Class("opened")
		}
		if opened > 0 && refused > 0 {
			c.NonTrivial("%s", hist)
		}
	})
}
