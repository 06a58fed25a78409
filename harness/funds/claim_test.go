//go:build go1.23

package funds

import (
	"encoding/hex"
	"fmt"
	"sort"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

// paid is an output a claim may name.
type paid struct {
	*txlib.Coin
	account  int // of a receiving address, -1: none
	sealed   bool
	conf     bool
	what     string
	asset    string
	value    uint64
	outpoint Outpoint
}

type claims struct {
	*story
	*World
	c     *vt.Case
	pairs map[int]string // quote asset by account, "" if not funded
	addr  map[int][]string
	outs  []*paid
}

func (k *claims) accounts() []int {
	l := []int{domain.FeeAccount}
	for a := range k.pairs {
		l = append(l, a)
	}
	sort.Ints(l)
	return l
}

// everything the store holds, to see what changed.
func (k *claims) text() string {
	l := []string{}
	for _, u := range k.Unspents() {
		l = append(l, textOf(u))
	}
	ms, err := k.RM.MarketRepository().GetAllMarkets(Ctx)
	if err != nil {
		k.fatalf("markets: %v", err)
	}
	for _, m := range ms {
		l = append(l, fmt.Sprintf("%d %s %s %v %d %v", m.AccountIndex, m.BaseAsset, m.QuoteAsset, m.Tradable, m.Fee, m.FixedFee))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// newMarket makes addresses of a market without funds.
func (k *claims) newMarket() {
	list, err := k.Operator.DepositMarket(Ctx, "", "", 1+within(k.rt, "addresses", 3))
	if err != nil {
		k.fatalf("new market: %v", err)
	}
	k.Settle()
	a := -1
	for _, x := range list {
		id := k.KeyOf(x.Address)
		a = k.Account(id.ScriptHex())
		k.addr[a] = append(k.addr[a], x.Address)
	}
	k.pairs[a] = ""
	k.did("market of account %d", a)
}

// pay makes a transaction with outputs of all kinds.
func (k *claims) pay() {
	rt := k.rt
	confirmed := !rarely(rt, "unconfirmed", 15)
	n := []int{2, 3, 4, 5, 1}[within(rt, "outputs", 5)]
	pays := []Pay{}
	made := []*paid{}
	right := []*txlib.Key{}
	main := k.accounts()[within(rt, "account", len(k.accounts()))]
	quote := txlib.Asset(1 + within(rt, "asset", 2))
	if q := k.pairs[main]; q != "" && !rarely(rt, "otherAsset", 10) {
		quote = q
	}
	for i := 0; i < n; i++ {
		p := &paid{account: main, what: "deposit"}
		asset := Base
		if i%2 == 1 || rarely(rt, "odd", 10) {
			if asset = quote; rarely(rt, "third", 8) {
				asset = txlib.Asset(9)
			}
		}
		var key *txlib.Key
		switch x := within(rt, "kind", 100); {
		case x > 96:
			key, p.account, p.what = payee2(k.World, fmt.Sprint("out", len(k.outs)+i)), -1, "foreign"
		case x > 92:
			key, p.account, p.what = k.HD.Key(main, 1, within(rt, "change", 3)), -1, "change address"
		case x > 88:
			key, p.account, p.what = k.HD.Key(domain.WalletAccount, 0, 0), -1, "wallet"
		case x > 84:
			l := k.accounts()
			p.account = l[within(rt, "other", len(l))]
			fallthrough
		default:
			l := k.addr[p.account]
			key = k.KeyOf(l[within(rt, "address", len(l))])
		}
		p.conf = chance(rt, "confidential", 60)
		p.value, p.asset = uint64(1+within(rt, "value", 1000000)), asset
		if p.conf && rarely(rt, "sealed", 4) {
			right = append(right, key)
			x := *key
			x.Blind, x.BlindPub = txlib.NewKey("other blinder").Blind, txlib.NewKey("other blinder").BlindPub
			key, p.sealed, p.what = &x, true, "sealed"
		}
		pays = append(pays, Pay{Asset: asset, Value: p.value, Key: key, Confidential: p.conf})
		made = append(made, p)
	}
	for i, c := range k.Chain.Fund(confirmed, pays...) {
		made[i].Coin, made[i].outpoint = c, Outpoint{TxID: c.TxID, Vout: c.Vout}
		k.outs = append(k.outs, made[i])
	}
	k.Chain.Register(right...)
	k.did("%.8s with %d outputs for account %d, confirmed %v", made[0].TxID, n, main, confirmed)
}

func payee2(w *World, id string) *txlib.Key { return txlib.NewKey("outside", id) }

// claim claims some outputs and judges the answer.
func (k *claims) claim() {
	rt := k.rt
	if len(k.outs) == 0 {
		return
	}
	l := k.accounts()
	target := l[within(rt, "target", len(l))]
	// mostly outputs that may be claimed together
	fits := []*paid{}
	for i := len(k.outs) - 1; i >= 0; i-- {
		if o := k.outs[i]; o.account == target && k.Chain.Tx(o.TxID).Confirmed && !o.sealed {
			fits = append(fits, o)
		}
	}
	if len(fits) == 0 && !rarely(rt, "whatever", 20) {
		return
	}
	if len(fits) == 0 || rarely(rt, "any", 6) {
		fits = k.outs
	}
	pick := []*paid{}
	ops := []application.TxOutpoint{}
	n := 1 + within(rt, "claimed", 5)
	if chance(rt, "whole", 50) {
		n = 0
		id := fits[0].TxID
		if last := len(fits) - 1; chance(rt, "first", 30) {
			id = fits[last].TxID
		}
		for _, o := range fits {
			if o.TxID == id {
				pick = append(pick, o)
				ops = append(ops, application.TxOutpoint{Hash: o.TxID, Index: int(o.Vout)})
			}
		}
	}
	for i := 0; i < n; i++ {
		o := fits[within(rt, "output", len(fits))]
		pick = append(pick, o)
		ops = append(ops, application.TxOutpoint{Hash: o.TxID, Index: int(o.Vout)})
	}
	bad := ""
	at := within(rt, "at", len(ops)+1)
	add := func(o application.TxOutpoint, why string) {
		ops = append(ops[:at], append([]application.TxOutpoint{o}, ops[at:]...)...)
		bad = why
	}
	switch n := within(rt, "flaw", 100); {
	case n > 97:
		add(application.TxOutpoint{Hash: hex.EncodeToString(txlib.H("no such")), Index: 0}, "unknown")
	case n > 95:
		add(application.TxOutpoint{Hash: pick[0].TxID, Index: len(k.Chain.Tx(pick[0].TxID).Tx.Outputs) + within(rt, "beyond", 2)}, "index too high")
	case n > 93:
		add(application.TxOutpoint{Hash: pick[0].TxID, Index: -1 - within(rt, "below", 3)}, "negative index")
	case n > 92:
		ops, bad = nil, "nothing"
	case n > 75:
		// one output among the others that may not fit
		o := k.outs[within(rt, "mixed", len(k.outs))]
		if chance(rt, "early", 50) {
			key := k.KeyOf(k.addr[target][0])
			x := k.Chain.Fund(false, Pay{Asset: Base, Value: 5000, Key: key, Confidential: true})[0]
			o = &paid{Coin: x, account: target, what: "deposit", conf: true, asset: Base, value: 5000, outpoint: Outpoint{TxID: x.TxID, Vout: x.Vout}}
			k.outs = append(k.outs, o)
		}
		pick = append(pick, o)
		add(application.TxOutpoint{Hash: o.TxID, Index: int(o.Vout)}, "")
	}
	for _, o := range pick {
		switch {
		case !k.Chain.Tx(o.TxID).Confirmed:
			bad = "unconfirmed"
		case o.account < 0:
			bad = o.what
		case o.sealed:
			bad = "sealed"
		case o.account != pick[0].account:
			bad = "of several accounts"
		}
	}
	m := application.Market{BaseAsset: Base}
	if target != domain.FeeAccount {
		if m.QuoteAsset = k.pairs[target]; m.QuoteAsset == "" {
			m.QuoteAsset = txlib.Asset(1 + within(rt, "quote", 2))
			for _, o := range pick {
				if o.asset != Base && !rarely(rt, "otherQuote", 10) {
					m.QuoteAsset = o.asset
				}
			}
		}
		if rarely(rt, "badBase", 3) {
			m.BaseAsset, bad = txlib.Asset(5), "base asset"
		}
		known := -1
		for a, q := range k.pairs {
			if q == m.QuoteAsset {
				known = a
			}
		}
		if pick[0].account == domain.FeeAccount || known >= 0 && pick[0].account != known || known < 0 && k.pairs[pick[0].account] != "" {
			bad = "of another account"
		}
		if known < 0 && bad == "" {
			assets := map[string]bool{}
			for _, o := range pick {
				assets[o.asset] = true
			}
			if len(assets) != 2 || !assets[Base] || !assets[m.QuoteAsset] {
				bad = "not a pair"
			}
		}
	} else if pick[0].account != domain.FeeAccount {
		bad = "of another account"
	}
	before := k.text()
	stored := map[Outpoint]string{}
	for _, u := range k.Unspents() {
		stored[keyOf(u)] = textOf(u)
	}
	calls, failAt := 0, -1
	if rarely(rt, "fault", 6) {
		failAt = within(rt, "failAt", 6)
	}
	failed := false
	k.Chain.Fail = func(method, arg string) error {
		if calls++; calls-1 == failAt {
			failed = true
			return fmt.Errorf("explorer is down")
		}
		return nil
	}
	var err error
	if target == domain.FeeAccount {
		err = k.Operator.ClaimFeeDeposit(Ctx, ops)
	} else {
		err = k.Operator.ClaimMarketDeposit(Ctx, m, ops)
	}
	k.Chain.Fail = nil
	k.Settle()
	desc := fmt.Sprintf("claim of %v for %d (%.4s)", ops, target, m.QuoteAsset)
	k.did("%s: %v", desc, err)
	if failed {
		k.c.Class("explorer fails: %v", err != nil)
	} else {
		k.c.Class("accepted %v, flaw %s", err == nil, bad)
	}
	if err != nil {
		if !failed && bad == "" {
			k.fatalf("%s refused: %v", desc, err)
		}
		if after := k.text(); after != before {
			k.fatalf("%s refused but changed\n%s\nto\n%s", desc, before, after)
		}
		return
	}
	if bad != "" {
		k.fatalf("%s accepted (%s)", desc, bad)
	}
	a := pick[0].account
	if a != domain.FeeAccount && k.pairs[a] == "" {
		k.pairs[a] = m.QuoteAsset
	}
	want := map[Outpoint]*paid{}
	for _, o := range pick {
		want[o.outpoint] = o
	}
	for _, u := range k.Unspents() {
		id := keyOf(u)
		if s, ok := stored[id]; ok {
			if s != textOf(u) {
				k.fatalf("%s changed %s to %s", desc, s, textOf(u))
			}
			delete(want, id)
			continue
		}
		o := want[id]
		if o == nil {
			k.fatalf("%s credited %s", desc, id)
		}
		delete(want, id)
		acct, _, err := k.RM.VaultRepository().GetAccountByAddress(Ctx, u.Address)
		if err != nil || acct.AccountIndex != a || u.Value != o.value || u.AssetHash != o.asset || !u.Confirmed || u.Spent || u.Locked || hex.EncodeToString(u.ScriptPubKey) != o.Key.ScriptHex() {
			k.fatalf("%s credited %+v, is %d %s", desc, u, o.value, o.asset)
		}
		op, err := txlib.Open(o.Out, k.Chain.BlindKey(o.Key.ScriptHex()))
		if err != nil {
			k.fatalf("[verif-error] %v", err)
		}
		if o.conf && (hex.EncodeToString(u.ValueBlinder) != hex.EncodeToString(op.VBF) || hex.EncodeToString(u.AssetBlinder) != hex.EncodeToString(op.ABF)) {
			k.fatalf("%s credited %s with other blinders", desc, id)
		}
		stored[id] = textOf(u)
	}
	if len(want) > 0 {
		k.fatalf("%s did not credit %v", desc, want)
	}
	k.checkPairs()
}

// checkPairs compares the markets with the claims.
func (k *claims) checkPairs() {
	for a, q := range k.pairs {
		m, err := k.RM.MarketRepository().GetMarketByAccount(Ctx, a)
		base := ""
		if q != "" {
			base = Base
		}
		if err != nil || m == nil || m.QuoteAsset != q || m.BaseAsset != base {
			k.fatalf("market of account %d: %+v %v, should have pair %q", a, m, err, q)
		}
		if q == "" {
			continue
		}
		_, got, err := k.RM.MarketRepository().GetMarketByAsset(Ctx, q)
		if err != nil || got != a {
			k.fatalf("market of %.8s: account %d %v, should be %d", q, got, err, a)
		}
		sum := [2]uint64{}
		for _, u := range k.Unspents() {
			if k.Account(hex.EncodeToString(u.ScriptPubKey)) == a {
				if u.AssetHash == Base {
					sum[0] += u.Value
				} else if u.AssetHash == q {
					sum[1] += u.Value
				}
			}
		}
		bal, err := k.Trade.GetMarketBalance(Ctx, application.Market{BaseAsset: Base, QuoteAsset: q})
		if err != nil || bal.Balance.BaseAmount != sum[0] || bal.Balance.QuoteAmount != sum[1] {
			k.fatalf("balance of market %d: %+v %v, is %v", a, bal, err, sum)
		}
	}
}

func TestC22Claims(t *testing.T) {
	rule := "deposits of all kinds and claims of mostly fitting sets of them, with unknown, unconfirmed, foreign, sealed, duplicated and out of range outpoints and explorer faults; non-trivial: claims accepted for the fee account and a market, and refused ones"
	vt.Check(t, 300, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		In(rt, genWorld(rt), func(rt *rapid.T, w *World) {
			k := &claims{story: &story{rt: rt}, World: w, c: c, pairs: map[int]string{}, addr: map[int][]string{}}
			list, err := w.Operator.DepositFeeAccount(Ctx, 2)
			if err != nil {
				rt.Fatalf("deposit: %v", err)
			}
			w.Settle()
			for _, x := range list {
				k.addr[domain.FeeAccount] = append(k.addr[domain.FeeAccount], x.Address)
			}
			k.newMarket()
			ok := 0
			for step, steps := 0, rapid.IntRange(6, 18).Draw(rt, "steps"); step < steps; step++ {
				switch n := within(rt, "step", 12); {
				case n < 6:
					k.claim()
				case n < 10:
					k.pay()
				case n == 10:
					for _, o := range k.outs {
						if !w.Chain.Tx(o.TxID).Confirmed {
							w.Chain.Confirm(o.TxID)
							k.did("%.8s confirmed", o.TxID)
							break
						}
					}
				default:
					if len(k.pairs) < 3 {
						k.newMarket()
					}
				}
			}
			k.checkPairs()
			for _, q := range k.pairs {
				if q != "" {
					ok++
				}
			}
			if ok > 0 && len(w.Unspents()) > 3 {
				c.NonTrivial("%v", k.txt)
			}
		})
	})
}
