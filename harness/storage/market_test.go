//go:build go1.23

package storage

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

var base = txlib.Asset(100)

type marketModel map[int]domain.Market

func (m marketModel) indexes() []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func (m marketModel) byAsset(quote string) (int, bool) {
	for k, mkt := range m {
		if mkt.QuoteAsset == quote {
			return k, true
		}
	}
	return -1, false
}

func (m marketModel) clone() marketModel {
	c := marketModel{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func showMarket(m *domain.Market) string {
	if m == nil {
		return "none"
	}
	// a quote tells whether the strategy is there and works
	q := "-"
	if m.IsFunded() {
		open := *m
		open.Tradable = true
		info, err := open.Preview(1_000_000, 3_000_000, 1000, true, true)
		if err != nil {
			q = err.Error()
		} else {
			q = fmt.Sprintf("%d", info.Amount)
		}
	}
	return fmt.Sprintf("%d %.8s/%.8s fee=%d/%d/%d open=%v strategy=%v pluggable=%v price=%s/%s quote=%s", m.AccountIndex, m.BaseAsset, m.QuoteAsset,
		m.Fee, m.FixedFee.BaseFee, m.FixedFee.QuoteFee, m.Tradable, m.Strategy.Type, m.IsStrategyPluggable(),
		m.Price.BasePrice, m.Price.QuotePrice, q)
}

func showMarkets(ms []domain.Market) string {
	sort.Slice(ms, func(i, j int) bool { return ms[i].AccountIndex < ms[j].AccountIndex })
	var out []string
	for i := range ms {
		out = append(out, showMarket(&ms[i]))
	}
	return strings.Join(out, "\n")
}

func (m marketModel) check(repo domain.MarketRepository, indexes, assets int) error {
	var all, open []domain.Market
	for _, k := range m.indexes() {
		mkt := m[k]
		all = append(all, mkt)
		if mkt.Tradable {
			open = append(open, mkt)
		}
	}
	cmp := func(what, got, want string) error {
		if got != want {
			return fmt.Errorf("%s:\ngot  %s\nwant %s", what, got, want)
		}
		return nil
	}
	got, err := repo.GetAllMarkets(ctx)
	if err != nil {
		return fmt.Errorf("all markets: %v", err)
	}
	if err := cmp("all markets", showMarkets(got), showMarkets(all)); err != nil {
		return err
	}
	if got, err = repo.GetTradableMarkets(ctx); err != nil {
		return fmt.Errorf("tradable markets: %v", err)
	}
	if err := cmp("tradable markets", showMarkets(got), showMarkets(open)); err != nil {
		return err
	}
	for i := 0; i < indexes; i++ {
		k := domain.MarketAccountStart + i
		one, err := repo.GetMarketByAccount(ctx, k)
		if err != nil {
			return fmt.Errorf("market of account %d: %v", k, err)
		}
		var want *domain.Market
		if mkt, ok := m[k]; ok {
			want = &mkt
		}
		if err := cmp(fmt.Sprintf("market of account %d", k), showMarket(one), showMarket(want)); err != nil {
			return err
		}
	}
	for i := 0; i < assets; i++ {
		one, k, err := repo.GetMarketByAsset(ctx, txlib.Asset(i))
		if err != nil {
			return fmt.Errorf("market of asset %d: %v", i, err)
		}
		var want *domain.Market
		wk := -1
		if j, ok := m.byAsset(txlib.Asset(i)); ok {
			mkt := m[j]
			want, wk = &mkt, j
		}
		if err := cmp(fmt.Sprintf("market of asset %d", i), fmt.Sprint(k, " ", showMarket(one)), fmt.Sprint(wk, " ", showMarket(want))); err != nil {
			return err
		}
	}
	one, k, err := repo.GetLatestMarket(ctx)
	if err != nil {
		return fmt.Errorf("latest market: %v", err)
	}
	wk := domain.MarketAccountStart - 1
	var want *domain.Market
	if ks := m.indexes(); len(ks) > 0 {
		wk = ks[len(ks)-1]
		mkt := m[wk]
		want = &mkt
	}
	return cmp("latest market", fmt.Sprint(k, " ", showMarket(one)), fmt.Sprint(wk, " ", showMarket(want)))
}

var prices = []string{"0", "1", "0.00000001", "123456.789", "98765432109876543210.12345678", "3"}

func genPrice(rt *rapid.T, label string) decimal.Decimal {
	return decimal.RequireFromString(prices[within(rt, label, len(prices))])
}

// marketStep applies one generated step to the store and to the model. Every
// quote asset is used by one market at most, as the operator can not do
// otherwise. Without priced, prices are left alone: they have a store, and
// transactions, of their own.
func marketStep(rt *rapid.T, repo domain.MarketRepository, m marketModel, indexes, assets int, priced bool) (string, error) {
	k := domain.MarketAccountStart + within(rt, "index", indexes)
	known, has := m[k]
	switch op := rapid.IntRange(0, 13).Draw(rt, "op"); op {
	case 0, 1, 2: // create
		fee := int64(rapid.SampledFrom([]int{0, 25, 100, 9999, 10000, -1}).Draw(rt, "fee"))
		got, err := repo.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: k, Fee: fee, QuoteAsset: "ignored", Tradable: true})
		desc := fmt.Sprintf("create %d fee %d", k, fee)
		if !has {
			mkt, e := domain.NewMarket(k, fee)
			if (e != nil) != (err != nil) {
				return desc, fmt.Errorf("error %v, expected %v", err, e)
			}
			if e != nil {
				return desc + " refused", nil
			}
			m[k], known = *mkt, *mkt
		} else if err != nil {
			return desc, err
		}
		if g, w := showMarket(got), showMarket(&known); g != w {
			return desc, fmt.Errorf("returned %s, expected %s", g, w)
		}
		return desc, nil
	case 3, 4, 5, 6, 7, 8: // update
		what := rapid.SampledFrom([]string{"fund", "fund", "fee", "fixed", "pluggable", "balanced", "fail", "price"}).Draw(rt, "what")
		asset := txlib.Asset(within(rt, "asset", assets))
		if !priced && (what == "pluggable" || what == "price") {
			what = "fixed"
		}
		if what == "fund" {
			if _, used := m.byAsset(asset); used {
				what = "fee"
			}
		}
		a, b := int64(rapid.IntRange(-1, 10001).Draw(rt, "a")), int64(rapid.IntRange(-1, 5000).Draw(rt, "b"))
		pa, pb := genPrice(rt, "pa"), genPrice(rt, "pb")
		f := func(mkt *domain.Market) (*domain.Market, error) {
			var err error
			switch what {
			case "fund":
				err = mkt.FundMarket([]domain.OutpointWithAsset{{Asset: asset, Txid: "a", Vout: 0}, {Asset: base, Txid: "a", Vout: 1}}, base)
			case "fee":
				err = mkt.ChangeFeeBasisPoint(a)
			case "fixed":
				err = mkt.ChangeFixedFee(a, b)
			case "pluggable":
				err = mkt.MakeStrategyPluggable()
			case "balanced":
				err = mkt.MakeStrategyBalanced()
			case "price":
				if err = mkt.ChangeBasePrice(pa); err == nil {
					err = mkt.ChangeQuotePrice(pb)
				}
			case "fail":
				mkt.Fee, mkt.Tradable, mkt.QuoteAsset, mkt.Price.BasePrice = 7, true, asset, pa
				err = errors.New("refused")
			}
			if err != nil {
				return nil, err
			}
			return mkt, nil
		}
		desc := fmt.Sprintf("%s %d (%d,%d)", what, k, a, b)
		err := repo.UpdateMarket(ctx, k, f)
		if !has {
			if err == nil {
				return desc, errors.New("unknown market updated")
			}
			return desc + " unknown", nil
		}
		was := known
		_, e := f(&known)
		if (e != nil) != (err != nil) {
			return desc, fmt.Errorf("error %v, expected %v", err, e)
		}
		if e == nil {
			m[k] = known
		} else {
			m[k] = was
			desc += " refused"
		}
		return desc, nil
	case 9, 10: // price
		p := domain.Prices{BasePrice: genPrice(rt, "base"), QuotePrice: genPrice(rt, "quote")}
		desc := fmt.Sprintf("price %d %s/%s", k, p.BasePrice, p.QuotePrice)
		if has && !known.IsFunded() || !priced {
			return "-", nil // the operator names markets by their assets
		}
		err := repo.UpdatePrices(ctx, k, p)
		if has {
			if err != nil {
				return desc, err
			}
			known.Price = p
			m[k] = known
		}
		return desc, nil
	case 11, 12: // open, close
		asset := within(rt, "asset", assets)
		j, has := m.byAsset(txlib.Asset(asset))
		isOpen := op == 11
		desc := fmt.Sprintf("open=%v asset %d", isOpen, asset)
		var err, e error
		if isOpen {
			err = repo.OpenMarket(ctx, txlib.Asset(asset))
		} else {
			err = repo.CloseMarket(ctx, txlib.Asset(asset))
		}
		if !has {
			return desc + " unknown", nil
		}
		mkt := m[j]
		if isOpen {
			e = mkt.MakeTradable()
		} else {
			e = mkt.MakeNotTradable()
		}
		if (e != nil) != (err != nil) {
			return desc, fmt.Errorf("error %v, expected %v", err, e)
		}
		if e == nil {
			m[j] = mkt
		}
		return desc, nil
	default: // delete
		desc := fmt.Sprintf("delete %d", k)
		if err := repo.DeleteMarket(ctx, k); err != nil {
			return desc, err
		}
		delete(m, k)
		return desc, nil
	}
}

func TestC18Markets(t *testing.T) {
	rule := "both drivers; histories of 1-40 creations, fundings, fee, strategy and price changes, openings, closings, refused updates and deletions over 4 accounts and 3 quote assets, every lookup compared with a reference after each step; non-trivial: a market was funded"
	vt.Check(t, 500, 25000, rule, func(rt *rapid.T, c *vt.Case) {
		name, rm := open(rt)
		defer shut(rm)
		m := marketModel{}
		var hist []string
		funded := false
		for i, n := 0, rapid.IntRange(1, 40).Draw(rt, "steps"); i < n; i++ {
			op, err := marketStep(rt, rm.MarketRepository(), m, 4, 3, true)
			hist = append(hist, op)
			if err == nil {
				err = m.check(rm.MarketRepository(), 4, 3)
			}
			if err != nil {
				rt.Fatalf("%s: after %s: %v", name, strings.Join(hist, "; "), err)
			}
			for _, mkt := range m {
				funded = funded || mkt.IsFunded()
			}
		}
		c.Class("driver %s", name)
		if funded {
			c.NonTrivial("%s: %s", name, strings.Join(hist, "; "))
		}
	})
}
