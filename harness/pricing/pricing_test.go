//go:build go1.23

package pricing

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
)

const maxSupply = uint64(2100000000000000)

// magnitude draws an amount uniform in its order of magnitude, or an edge.
func magnitude(lo, hi uint64) *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		bits := rapid.IntRange(0, 51).Draw(t, "bits")
		top := uint64(1) << uint(bits)
		v := rapid.Uint64Range(top/2, top).Draw(t, "v")
		if rapid.IntRange(0, 9).Draw(t, "round") == 0 {
			// round decimal amounts
			p := uint64(1)
			for p*10 <= v {
				p *= 10
			}
			v = p
		}
		if v < lo {
			v = lo
		}
		if v > hi {
			v = hi
		}
		return v
	})
}

func big_(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func rat(x uint64) *big.Rat { return new(big.Rat).SetInt(big_(x)) }

// lessFee and plusFee are the reference percentage fees: floor of the exact value.
func lessFee(a, bp uint64) uint64 {
	return new(big.Int).Div(new(big.Int).Mul(big_(a), big_(10000-bp)), big.NewInt(10000)).Uint64()
}

func plusFee(a, bp uint64) uint64 {
	return new(big.Int).Div(new(big.Int).Mul(big_(a), big_(10000+bp)), big.NewInt(10000)).Uint64()
}

func genFee(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "feeKind") {
	case 0:
		return 0
	case 1:
		return 25
	case 2:
		return rapid.Uint64Range(0, 500).Draw(t, "fee")
	}
	return rapid.Uint64Range(0, 9999).Draw(t, "fee")
}

// withinPrecision reports |got-want| <= reserve/1e8 + slack.
func withinPrecision(got uint64, want *big.Rat, reserve uint64, slack int64) bool {
	d := new(big.Rat).Sub(rat(got), want)
	d.Abs(d)
	tol := new(big.Rat).SetFrac(big_(reserve), big.NewInt(100000000))
	tol.Add(tol, new(big.Rat).SetInt64(slack))
	return d.Cmp(tol) <= 0
}

func TestC01OutGivenIn(t *testing.T) {
	f := formula.BalancedReserves{}
	vt.Check(t, 40000, 3000000, "reserves and amounts log-uniform up to the 21M supply, fee 0..99.99% on either way; non-trivial: quoted without error", func(rt *rapid.T, c *vt.Case) {
		bIn := magnitude(1, maxSupply).Draw(rt, "balanceIn")
		bOut := magnitude(1, maxSupply).Draw(rt, "balanceOut")
		var amt uint64
		if rapid.Bool().Draw(rt, "relative") {
			// amounts comparable to the reserve
			pm := rapid.Uint64Range(1, 3000).Draw(rt, "perMille")
			amt = new(big.Int).Div(new(big.Int).Mul(big_(bIn), big_(pm)), big.NewInt(1000)).Uint64()
			if amt > maxSupply {
				amt = maxSupply
			}
		} else {
			amt = magnitude(0, maxSupply).Draw(rt, "amountIn")
		}
		fee := genFee(rt)
		way := rapid.Bool().Draw(rt, "feeOnTheWayIn")
		opts := formula.BalancedReservesOpts{BalanceIn: bIn, BalanceOut: bOut, Fee: fee, ChargeFeeOnTheWayIn: way}
		out, err := f.OutGivenIn(opts, amt)

		in := amt
		if way {
			in = lessFee(amt, fee)
		}
		exact := new(big.Rat).SetFrac(new(big.Int).Mul(big_(bOut), big_(in)), new(big.Int).Add(big_(bIn), big_(in)))
		if !way {
			exact.Mul(exact, new(big.Rat).SetFrac(big_(10000-fee), big.NewInt(10000)))
		}
		if err != nil {
			c.Class("refused")
			if amt > 0 && in > 0 && !withinPrecision(0, exact, bOut, 2) {
				rt.Fatalf("OutGivenIn(%+v, %d) refused (%v), exact is %s", opts, amt, err, exact.FloatString(3))
			}
			return
		}
		if amt == 0 || out == 0 {
			rt.Fatalf("OutGivenIn(%+v, %d) = %d without error", opts, amt, out)
		}
		if !withinPrecision(out, exact, bOut, 2) {
			rt.Fatalf("OutGivenIn(%+v, %d) = %d, exact is %s", opts, amt, out, exact.FloatString(3))
		}
		if out >= bOut {
			rt.Fatalf("OutGivenIn(%+v, %d) = %d drains the reserve", opts, amt, out)
		}
		// the pool never loses on its own rounding when paying out a fixed input
		left := new(big.Int).Mul(new(big.Int).Add(big_(bIn), big_(amt)), big_(bOut-out))
		if left.Cmp(new(big.Int).Mul(big_(bIn), big_(bOut))) < 0 {
			rt.Fatalf("OutGivenIn(%+v, %d) = %d shrinks the product of the reserves", opts, amt, out)
		}
		bigger := amt + magnitude(1, maxSupply).Draw(rt, "more")
		if bigger <= 2*maxSupply {
			out2, err := f.OutGivenIn(opts, bigger)
			if err != nil || out2 < out {
				rt.Fatalf("OutGivenIn(%+v): %d -> %d but %d -> %d (%v)", opts, amt, out, bigger, out2, err)
			}
		}
		c.Class("quoted fee-on-way-in=%v", way)
		c.NonTrivial("in=%d out=%d fee=%d way=%v amount=%d -> %d", bIn, bOut, fee, way, amt, out)
	})
}

func TestC01InGivenOut(t *testing.T) {
	f := formula.BalancedReserves{}
	vt.Check(t, 40000, 3000000, "as OutGivenIn with the wanted output drawn around the reserve; non-trivial: quoted without error", func(rt *rapid.T, c *vt.Case) {
		bIn := magnitude(1, maxSupply).Draw(rt, "balanceIn")
		bOut := magnitude(1, maxSupply).Draw(rt, "balanceOut")
		var amt uint64
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0:
			amt = magnitude(0, maxSupply).Draw(rt, "amountOut")
		case 1: // around the reserve
			d := rapid.Uint64Range(0, 3).Draw(rt, "d")
			amt = bOut + 1 - min64(d, bOut+1)
		default:
			pm := rapid.Uint64Range(1, 999).Draw(rt, "perMille")
			amt = new(big.Int).Div(new(big.Int).Mul(big_(bOut), big_(pm)), big.NewInt(1000)).Uint64()
		}
		fee := genFee(rt)
		way := rapid.Bool().Draw(rt, "feeOnTheWayIn")
		opts := formula.BalancedReservesOpts{BalanceIn: bIn, BalanceOut: bOut, Fee: fee, ChargeFeeOnTheWayIn: way}

		wanted := amt
		if !way {
			wanted = plusFee(amt, fee)
		}
		in, err := f.InGivenOut(opts, amt)
		if amt == 0 || wanted >= bOut {
			if err == nil {
				rt.Fatalf("InGivenOut(%+v, %d) = %d, want refusal", opts, amt, in)
			}
			c.Class("refused: amount")
			return
		}
		exact := new(big.Rat).SetFrac(new(big.Int).Mul(big_(bIn), big_(wanted)), new(big.Int).Sub(big_(bOut), big_(wanted)))
		reserve := bIn
		if way {
			exact.Mul(exact, new(big.Rat).SetFrac(big_(10000+fee), big.NewInt(10000)))
			reserve = plusFee(bIn, fee)
		}
		if exact.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63))) > 0 {
			c.Class("beyond 63 bits")
			return
		}
		if err != nil {
			if !withinPrecision(0, exact, reserve, 3) {
				rt.Fatalf("InGivenOut(%+v, %d) refused (%v), exact is %s", opts, amt, err, exact.FloatString(3))
			}
			c.Class("refused: dust")
			return
		}
		if in == 0 || !withinPrecision(in, exact, reserve, 3) {
			rt.Fatalf("InGivenOut(%+v, %d) = %d, exact is %s", opts, amt, in, exact.FloatString(3))
		}
		// more output never costs less
		if amt+1 < bOut {
			hi := bOut - 1
			more := rapid.Uint64Range(amt, hi).Draw(rt, "more")
			in2, err := f.InGivenOut(opts, more)
			if err == nil && in2 < in && in2 < 1<<62 {
				ex2 := new(big.Rat).SetFrac(new(big.Int).Mul(big_(bIn), big_(more)), new(big.Int).Sub(big_(bOut), big_(more)))
				if ex2.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 61))) < 0 {
					rt.Fatalf("InGivenOut(%+v): %d costs %d but %d costs %d", opts, amt, in, more, in2)
				}
			}
		}
		c.Class("quoted fee-on-way-in=%v", way)
		c.NonTrivial("in=%d out=%d fee=%d way=%v wanted=%d -> %d", bIn, bOut, fee, way, amt, in)
	})
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func TestC01SpotPriceAndRefusals(t *testing.T) {
	f := formula.BalancedReserves{}
	vt.Check(t, 20000, 100000, "two reserves, sometimes zero; non-trivial: both positive", func(rt *rapid.T, c *vt.Case) {
		bIn := magnitude(0, maxSupply).Draw(rt, "balanceIn")
		bOut := magnitude(0, maxSupply).Draw(rt, "balanceOut")
		if rapid.IntRange(0, 7).Draw(rt, "z") == 0 {
			bIn = 0
		}
		if rapid.IntRange(0, 7).Draw(rt, "z2") == 0 {
			bOut = 0
		}
		opts := formula.BalancedReservesOpts{BalanceIn: bIn, BalanceOut: bOut}
		p, err := f.SpotPrice(opts)
		if bIn == 0 || bOut == 0 {
			if err == nil {
				rt.Fatalf("SpotPrice(%+v) = %s, want refusal", opts, p)
			}
			if o, err := f.OutGivenIn(opts, 1000); err == nil {
				rt.Fatalf("OutGivenIn(%+v) = %d, want refusal", opts, o)
			}
			if o, err := f.InGivenOut(opts, 1); err == nil {
				rt.Fatalf("InGivenOut(%+v) = %d, want refusal", opts, o)
			}
			c.Class("zero reserve")
			return
		}
		if err != nil {
			rt.Fatalf("SpotPrice(%+v): %v", opts, err)
		}
		want := new(big.Rat).SetFrac(big_(bOut), big_(bIn))
		d := new(big.Rat).Sub(p.Rat(), want)
		d.Abs(d)
		if d.Cmp(big.NewRat(1, 100000000)) > 0 {
			rt.Fatalf("SpotPrice(%+v) = %s, exact %s", opts, p, want.FloatString(10))
		}
		c.NonTrivial("%d/%d", bOut, bIn)
	})
}

// TestC01Pool trades repeatedly against one pool through the market, applying
// every quote to the reserves, and bounds what the traders can have extracted.
func TestC01Pool(t *testing.T) {
	vt.Check(t, 6000, 20000, "1..12 successive swaps in random directions applied to the pool; non-trivial: at least two applied", func(rt *rapid.T, c *vt.Case) {
		base := magnitude(1000, maxSupply/4).Draw(rt, "base")
		quote := magnitude(1000, maxSupply/4).Draw(rt, "quote")
		fee := genFee(rt)
		m := balancedMarket(rt, int64(fee), 0, 0)
		applied := 0
		desc := fmt.Sprintf("base=%d quote=%d fee=%d:", base, quote, fee)
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "swaps"); i < n; i++ {
			isBuy := rapid.Bool().Draw(rt, "buy")
			isBase := rapid.Bool().Draw(rt, "baseAsset")
			ref := base
			if !isBase {
				ref = quote
			}
			pm := rapid.Uint64Range(1, 1500).Draw(rt, "perMille")
			amt := new(big.Int).Div(new(big.Int).Mul(big_(ref), big_(pm)), big.NewInt(1000)).Uint64()
			p, err := m.Preview(base, quote, amt, isBase, isBuy)
			if err != nil {
				continue
			}
			b, q := amt, p.Amount
			if !isBase {
				b, q = p.Amount, amt
			}
			nb, nq := base, quote
			var paidOut, payer uint64
			if isBuy { // trader buys base, sends quote
				if b >= base {
					rt.Fatalf("%s buy of %d base quoted on a reserve of %d", desc, b, base)
				}
				nb, nq, paidOut, payer = base-b, quote+q, base, quote
			} else {
				if q >= quote {
					rt.Fatalf("%s sell pays %d quote from a reserve of %d", desc, q, quote)
				}
				nb, nq, paidOut, payer = base+b, quote-q, quote, base
			}
			if nb > 4*maxSupply || nq > 4*maxSupply {
				break
			}
			// product may only shrink by the 8-decimals precision of the quote
			before := new(big.Int).Mul(big_(base), big_(quote))
			after := new(big.Int).Mul(big_(nb), big_(nq))
			slack := new(big.Int).Mul(big_(payer/100000000+3), big_(paidOut))
			if new(big.Int).Add(after, slack).Cmp(before) < 0 {
				rt.Fatalf("%s swap buy=%v base=%v amount=%d -> %d: product of reserves from %s to %s", desc, isBuy, isBase, amt, p.Amount, before, after)
			}
			base, quote = nb, nq
			desc += fmt.Sprintf(" (buy=%v base=%v %d->%d)", isBuy, isBase, amt, p.Amount)
			applied++
		}
		c.Class("applied %d", applied)
		if applied > 1 {
			c.NonTrivial("%s", desc)
		}
	})
}

const baseAsset = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"
const quoteAsset = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"

type fataler interface {
	Fatalf(string, ...interface{})
}

func fundedMarket(t fataler, fee int64) *domain.Market {
	m, err := domain.NewMarket(domain.MarketAccountStart, fee)
	if err != nil {
		t.Fatalf("NewMarket: %v", err)
	}
	if err := m.FundMarket([]domain.OutpointWithAsset{
		{Asset: baseAsset, Txid: "00", Vout: 0}, {Asset: quoteAsset, Txid: "00", Vout: 1},
	}, baseAsset); err != nil {
		t.Fatalf("FundMarket: %v", err)
	}
	return m
}

func balancedMarket(t fataler, fee, fixBase, fixQuote int64) *domain.Market {
	m := fundedMarket(t, fee)
	if err := m.MakeStrategyBalanced(); err != nil {
		t.Fatalf("MakeStrategyBalanced: %v", err)
	}
	if err := m.ChangeFixedFee(fixBase, fixQuote); err != nil {
		t.Fatalf("ChangeFixedFee: %v", err)
	}
	if err := m.MakeTradable(); err != nil {
		t.Fatalf("MakeTradable: %v", err)
	}
	return m
}

func pluggableMarket(t fataler, fee, fixBase, fixQuote int64, bp, qp decimal.Decimal) *domain.Market {
	m := fundedMarket(t, fee)
	if err := m.MakeStrategyPluggable(); err != nil {
		t.Fatalf("MakeStrategyPluggable: %v", err)
	}
	m.ChangeBasePrice(bp)
	m.ChangeQuotePrice(qp)
	if err := m.ChangeFixedFee(fixBase, fixQuote); err != nil {
		t.Fatalf("ChangeFixedFee: %v", err)
	}
	if err := m.MakeTradable(); err != nil {
		t.Fatalf("MakeTradable: %v", err)
	}
	return m
}

func genPrice(t *rapid.T, name string) decimal.Decimal {
	exp := rapid.IntRange(-18, 6).Draw(t, name+"Exp")
	mant := rapid.Int64Range(1, 99999999).Draw(t, name)
	return decimal.New(mant, int32(exp))
}

func mulFloor(a uint64, d decimal.Decimal) *big.Int {
	r := new(big.Rat).Mul(rat(a), d.Rat())
	return new(big.Int).Div(r.Num(), r.Denom())
}

func TestC02(t *testing.T) {
	vt.Check(t, 40000, 3000000, "price pair with up to 18 decimals, balances, amount, direction, asset, fee 0 in most; re-priced 0..2 times before; non-trivial: quoted", func(rt *rapid.T, c *vt.Case) {
		bp, qp := genPrice(rt, "basePrice"), genPrice(rt, "quotePrice")
		base := magnitude(0, maxSupply).Draw(rt, "base")
		quote := magnitude(0, maxSupply).Draw(rt, "quote")
		fee := uint64(0)
		if rapid.IntRange(0, 2).Draw(rt, "wf") == 0 {
			fee = genFee(rt)
		}
		m := pluggableMarket(rt, int64(fee), 0, 0, bp, qp)
		for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "reprice"); i < n; i++ {
			bp, qp = genPrice(rt, "basePrice"), genPrice(rt, "quotePrice")
			if err := m.ChangeBasePrice(bp); err != nil {
				rt.Fatalf("ChangeBasePrice: %v", err)
			}
			if err := m.ChangeQuotePrice(qp); err != nil {
				rt.Fatalf("ChangeQuotePrice: %v", err)
			}
		}
		isBuy := rapid.Bool().Draw(rt, "buy")
		isBase := rapid.Bool().Draw(rt, "baseAsset")
		var amt uint64
		ref := base
		if !isBase {
			ref = quote
		}
		if rapid.Bool().Draw(rt, "rel") {
			pm := rapid.Uint64Range(1, 1200).Draw(rt, "perMille")
			amt = new(big.Int).Div(new(big.Int).Mul(big_(ref), big_(pm)), big.NewInt(1000)).Uint64()
		} else {
			amt = magnitude(0, maxSupply).Draw(rt, "amount")
		}
		price := bp
		wantAsset := baseAsset
		if isBase {
			price = qp
			wantAsset = quoteAsset
		}
		exact := mulFloor(amt, price)
		if exact.BitLen() > 62 {
			c.Class("beyond 62 bits")
			return
		}
		var want uint64
		// the amount quoted is received by the trader when selling base or buying with quote
		received := isBuy != isBase
		balOut := quote
		if isBuy {
			balOut = base
		}
		if received {
			want = lessFee(exact.Uint64(), fee)
		} else {
			want = plusFee(exact.Uint64(), fee)
		}
		p, err := m.Preview(base, quote, amt, isBase, isBuy)
		desc := fmt.Sprintf("prices=%s/%s base=%d quote=%d fee=%d buy=%v base=%v amount=%d", bp, qp, base, quote, fee, isBuy, isBase, amt)
		paid := amt
		if received {
			paid = want
		}
		if amt == 0 || paid > balOut+1 {
			if err == nil {
				rt.Fatalf("%s: quoted %d, want refusal", desc, p.Amount)
			}
			c.Class("refused")
			return
		}
		if err != nil {
			if want > 1 && paid+1 < balOut {
				rt.Fatalf("%s: refused (%v), want %d", desc, err, want)
			}
			c.Class("refused: edge")
			return
		}
		if p.Amount == 0 || p.Amount+1 < want || p.Amount > want+1 {
			rt.Fatalf("%s: quoted %d, want %d", desc, p.Amount, want)
		}
		if received && p.Amount > balOut || !received && amt > balOut {
			rt.Fatalf("%s: quoted %d beyond the balance", desc, p.Amount)
		}
		if p.Asset != wantAsset {
			rt.Fatalf("%s: quoted in asset %s", desc, p.Asset)
		}
		if !p.Price.BasePrice.Equal(bp) || !p.Price.QuotePrice.Equal(qp) {
			rt.Fatalf("%s: price reported %s/%s", desc, p.Price.BasePrice, p.Price.QuotePrice)
		}
		c.Class("quoted buy=%v base=%v", isBuy, isBase)
		c.NonTrivial("%s -> %d", desc, p.Amount)
	})
}

func TestC03(t *testing.T) {
	vt.Check(t, 50000, 4000000, "both strategies, fee 0..9999bp, fixed fees, balances, amount, direction, asset; non-trivial: quoted with some fee", func(rt *rapid.T, c *vt.Case) {
		base := magnitude(1, maxSupply).Draw(rt, "base")
		quote := magnitude(1, maxSupply).Draw(rt, "quote")
		fee := genFee(rt)
		var fb, fq uint64
		if rapid.Bool().Draw(rt, "fixed") {
			fb = magnitude(1, maxSupply).Draw(rt, "fixBase")
			fq = magnitude(1, maxSupply).Draw(rt, "fixQuote")
			if rapid.Bool().Draw(rt, "small") {
				fb, fq = 1+fb%(base/50+1), 1+fq%(quote/50+1)
			}
		}
		plug := rapid.Bool().Draw(rt, "pluggable")
		var m, m0 *domain.Market
		if plug {
			bp, qp := genPrice(rt, "basePrice"), genPrice(rt, "quotePrice")
			m, m0 = pluggableMarket(rt, int64(fee), int64(fb), int64(fq), bp, qp), pluggableMarket(rt, 0, 0, 0, bp, qp)
		} else {
			m, m0 = balancedMarket(rt, int64(fee), int64(fb), int64(fq)), balancedMarket(rt, 0, 0, 0)
		}
		isBuy := rapid.Bool().Draw(rt, "buy")
		isBase := rapid.Bool().Draw(rt, "baseAsset")
		ref := base
		if !isBase {
			ref = quote
		}
		var amt uint64
		if rapid.Bool().Draw(rt, "rel") {
			pm := rapid.Uint64Range(1, 1200).Draw(rt, "perMille")
			amt = new(big.Int).Div(new(big.Int).Mul(big_(ref), big_(pm)), big.NewInt(1000)).Uint64()
		} else {
			amt = magnitude(0, maxSupply).Draw(rt, "amount")
		}
		desc := fmt.Sprintf("pluggable=%v base=%d quote=%d fee=%d fixed=%d/%d buy=%v base=%v amount=%d prices=%s/%s", plug, base, quote, fee, fb, fq, isBuy, isBase, amt, m.Price.BasePrice, m.Price.QuotePrice)
		if mulFloor(amt, m.Price.BasePrice).BitLen() > 61 || mulFloor(amt, m.Price.QuotePrice).BitLen() > 61 {
			c.Class("beyond 61 bits")
			return
		}
		received := isBuy != isBase // the quoted side is what the trader receives
		fixed := fb                 // fixed fee of the quoted asset
		if isBase {
			fixed = fq
		}
		own := fq // fixed fee of the asset given
		if isBase {
			own = fb
		}
		p, err := m.Preview(base, quote, amt, isBase, isBuy)
		// the market must still hold the asset it pays; a preview that does not
		// give a fee-less quote must not give one with fees either
		feeless := func(a uint64) (uint64, bool) {
			q, err := m0.Preview(base, quote, a, isBase, isBuy)
			if err != nil {
				return 0, false
			}
			return q.Amount, true
		}
		if amt < own {
			if err == nil {
				rt.Fatalf("%s: quoted %d although the amount does not cover the fixed fee", desc, p.Amount)
			}
			c.Class("refused: own fixed fee")
			return
		}
		var pre uint64
		var ok, small bool
		if received {
			if plug {
				pre, ok = feeless(amt)
				pre = lessFee(pre, fee)
			} else {
				pre, ok = feeless(lessFee(amt, fee))
			}
			small = pre <= fixed
		} else {
			pre, ok = feeless(amt)
			pre = plusFee(pre, fee)
		}
		if err != nil {
			if ok && pre > 2 && !small && !(received && pre-fixed <= 2) {
				// a fee-less reserve bound may differ: only the exact bound is required
				rt.Fatalf("%s: refused (%v), fee-less %d", desc, err, pre)
			}
			c.Class("refused")
			return
		}
		if received && small && ok {
			rt.Fatalf("%s: quoted %d although fees take everything (%d)", desc, p.Amount, pre)
		}
		if !ok {
			// the fee-less quote was refused as exceeding the balance or as dust,
			// fees may bring it back under the balance only
			if !received {
				rt.Fatalf("%s: quoted %d, refused without fees", desc, p.Amount)
			}
			bal := quote
			if isBuy {
				bal = base
			}
			if p.Amount >= bal {
				rt.Fatalf("%s: quoted %d beyond the balance", desc, p.Amount)
			}
			c.Class("only with fees")
			return
		}
		want := pre + fixed
		if received {
			want = pre - fixed
		}
		if p.Amount != want {
			if p.Amount+1 < want || p.Amount > want+1 {
				rt.Fatalf("%s: quoted %d, want %d", desc, p.Amount, want)
			}
		}
		nofee, ok2 := feeless(amt)
		if ok2 && (received && p.Amount > nofee || !received && p.Amount < nofee) {
			rt.Fatalf("%s: quoted %d, better than the fee-less %d", desc, p.Amount, nofee)
		}
		c.Class("quoted pluggable=%v buy=%v base=%v", plug, isBuy, isBase)
		if fee > 0 || fixed > 0 {
			c.NonTrivial("%s -> %d", desc, p.Amount)
		}
	})
}
