//go:build go1.23

package funds

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/pset"
)

// books is what the daemon should report, kept from what happened.
type books struct {
	*bank
	given map[int][]string // external addresses by account
	known map[Outpoint]bool
}

func (k *books) reserved() map[Outpoint]bool {
	res := map[Outpoint]bool{}
	for _, d := range k.deals {
		if d.over {
			continue
		}
		p, err := pset.NewPsetFromBase64(d.signed)
		if err != nil {
			k.fatalf("[verif-error] %v", err)
		}
		for _, in := range p.UnsignedTx.Inputs {
			res[Outpoint{TxID: InHash(in), Vout: in.Index}] = true
		}
	}
	return res
}

// deposit pays to a new address of the fee account or of a market and maybe
// claims it.
func (k *books) deposit() {
	rt := k.rt
	i := within(rt, "depositTo", len(k.markets)+1) - 1
	account, assets := domain.FeeAccount, []string{Base}
	var list []application.AddressAndBlindingKey
	var err error
	if i >= 0 {
		m := k.markets[i]
		account, assets = domain.MarketAccountStart+i, []string{m.BaseAsset, m.QuoteAsset}
		list, err = k.Operator.DepositMarket(Ctx, m.BaseAsset, m.QuoteAsset, 1)
	} else {
		list, err = k.Operator.DepositFeeAccount(Ctx, 1)
	}
	if err != nil {
		k.fatalf("deposit: %v", err)
	}
	k.Settle()
	k.given[account] = append(k.given[account], list[0].Address)
	pays := []Pay{}
	for j, n := 0, rapid.IntRange(1, 3).Draw(rt, "coins"); j < n; j++ {
		pays = append(pays, Pay{Asset: assets[within(rt, "asset", len(assets))], Value: uint64(rapid.IntRange(1, 100000).Draw(rt, "value")), Key: k.KeyOf(list[0].Address), Confidential: chance(rt, "conf", 60)})
	}
	cs := k.Chain.Fund(true, pays...)
	if rarely(rt, "unclaimed", 15) {
		k.did("deposit not claimed")
		return
	}
	ops := []application.TxOutpoint{}
	for _, c := range cs {
		ops = append(ops, application.TxOutpoint{Hash: c.TxID, Index: int(c.Vout)})
		k.known[Outpoint{TxID: c.TxID, Vout: c.Vout}] = true
	}
	if i >= 0 {
		err = k.Operator.ClaimMarketDeposit(Ctx, k.markets[i], ops)
	} else {
		err = k.Operator.ClaimFeeDeposit(Ctx, ops)
	}
	if err != nil {
		k.fatalf("claim: %v", err)
	}
	k.Settle()
	k.did("deposit of %d coins for account %d", len(ops), account)
}

// check compares every report with the books.
func (k *books) check() (locked int) {
	for _, id := range k.Chain.Sent {
		for i := range k.Chain.Tx(id).Tx.Outputs {
			k.known[Outpoint{TxID: id, Vout: uint32(i)}] = true
		}
	}
	reserved := k.reserved()
	type key struct {
		account int
		asset   string
	}
	confirmed, free := map[key]uint64{}, map[key]uint64{}
	wallet := map[string]application.BalanceInfo{}
	utxos := map[uint64][3][]string{}
	for _, o := range k.Chain.OwnedBy(func(s string) bool { return k.Account(s) >= 0 }) {
		a := k.Account(o.Script)
		if a == domain.WalletAccount {
			if o.SpentBy == "" {
				w := wallet[o.Asset]
				w.TotalBalance += o.Value
				if o.Confirmed {
					w.ConfirmedBalance += o.Value
				} else {
					w.UnconfirmedBalance += o.Value
				}
				wallet[o.Asset] = w
			}
			continue
		}
		if !k.known[o.Outpoint] {
			continue
		}
		l := utxos[uint64(a)]
		t := fmt.Sprintf("%s of %d %s", o.Outpoint, o.Value, o.Asset)
		switch {
		case o.SpentBy != "":
			l[1] = append(l[1], t)
		case reserved[o.Outpoint]:
			l[2] = append(l[2], t)
			locked++
		default:
			l[0] = append(l[0], t)
		}
		utxos[uint64(a)] = l
		if o.SpentBy == "" && o.Confirmed {
			confirmed[key{a, o.Asset}] += o.Value
			if !reserved[o.Outpoint] {
				free[key{a, o.Asset}] += o.Value
			}
		}
	}
	// wallet
	got, err := k.Wallet.GetWalletBalance(Ctx)
	if len(k.given[domain.WalletAccount]) == 0 {
		if err == nil && len(got) > 0 {
			k.fatalf("balance of an unused wallet: %v", got)
		}
	} else if err != nil || len(got) != len(wallet) || len(wallet) > 0 && !reflect.DeepEqual(got, wallet) {
		k.fatalf("wallet balance %v (%v), is %v", got, err, wallet)
	}
	fee, err := k.Operator.FeeAccountBalance(Ctx)
	if want := confirmed[key{domain.FeeAccount, Base}]; err != nil || fee != int64(want) {
		k.fatalf("fee balance %d (%v), is %d", fee, err, want)
	}
	for i, m := range k.markets {
		a := domain.MarketAccountStart + i
		bal, err := k.Trade.GetMarketBalance(Ctx, m)
		if err != nil || bal.Balance.BaseAmount != confirmed[key{a, Base}] || bal.Balance.QuoteAmount != confirmed[key{a, m.QuoteAsset}] {
			k.fatalf("balance of market %d is %+v (%v), is %d and %d", i, bal, err, confirmed[key{a, Base}], confirmed[key{a, m.QuoteAsset}])
		}
		price, err := k.Trade.GetMarketPrice(Ctx, m, kindOf(i == 0), 1000, Base)
		if err == nil && (price.Balance.BaseAmount != free[key{a, Base}] || price.Balance.QuoteAmount != free[key{a, m.QuoteAsset}]) {
			k.fatalf("available balance of market %d is %+v, is %d and %d", i, price.Balance, free[key{a, Base}], free[key{a, m.QuoteAsset}])
		}
		addrs, err := k.Operator.ListMarketExternalAddresses(Ctx, m)
		if err != nil {
			k.fatalf("addresses: %v", err)
		}
		// those of accepted trades are there too
		missing := map[string]bool{}
		for _, x := range k.given[a] {
			missing[x] = true
		}
		seen := map[string]bool{}
		for _, x := range addrs {
			script, _ := address.ToOutputScript(x)
			id, key := k.HD.Find(hex.EncodeToString(script), 14, 90)
			if key == nil || id[0] != a || id[1] != 0 || seen[x] || key.ConfidentialAddress() != x {
				k.fatalf("addresses of market %d: %v (%v of %s)", i, addrs, id, x)
			}
			seen[x] = true
			delete(missing, x)
		}
		if len(missing) > 0 {
			k.fatalf("addresses of market %d: %v, missing %v", i, addrs, missing)
		}
	}
	// outputs
	list, err := k.Operator.ListUtxos(Ctx)
	if err != nil {
		k.fatalf("utxos: %v", err)
	}
	have := map[uint64][3][]string{}
	for a, l := range list {
		var x [3][]string
		for i, us := range [][]application.UtxoInfo{l.Unspents, l.Spents, l.Locks} {
			for _, u := range us {
				x[i] = append(x[i], fmt.Sprintf("%s of %d %s", Outpoint{TxID: u.Outpoint.Hash, Vout: uint32(u.Outpoint.Index)}, u.Value, u.Asset))
			}
		}
		have[a] = x
	}
	for a := uint64(0); a < 12; a++ {
		if a == domain.WalletAccount {
			continue
		}
		for i, what := range []string{"unspent", "spent", "locked"} {
			x, y := append([]string{}, have[a][i]...), append([]string{}, utxos[a][i]...)
			sort.Strings(x)
			sort.Strings(y)
			if fmt.Sprint(x) != fmt.Sprint(y) {
				k.fatalf("%s outputs of account %d: %v, are %v", what, a, x, y)
			}
		}
		delete(have, a)
	}
	// the wallet's list may lack some, but those listed are right
	chain := map[string]Owned{}
	for _, o := range k.Chain.OwnedBy(func(s string) bool { return k.Account(s) == domain.WalletAccount }) {
		chain[fmt.Sprintf("%s of %d %s", o.Outpoint, o.Value, o.Asset)] = o
	}
	for i, what := range []string{"unspent", "spent", "locked"} {
		for _, x := range have[domain.WalletAccount][i] {
			if o, ok := chain[x]; !ok || i == 2 || (o.SpentBy != "") != (i == 1) {
				k.fatalf("wallet output %s listed as %s (%v)", x, what, o)
			}
		}
	}
	delete(have, domain.WalletAccount)
	if len(have) > 0 {
		k.fatalf("outputs of unknown accounts: %v", have)
	}
	k.checkMarkets()
	k.checkTrades()
	return
}

func (k *books) feeOf(m application.Market) application.Fee {
	for i := range k.markets {
		if k.markets[i] == m {
			return k.fees[i]
		}
	}
	return application.Fee{BasisPoint: -1}
}

func (k *books) checkMarkets() {
	list, err := k.Operator.ListMarket(Ctx)
	if err != nil {
		k.fatalf("markets: %v", err)
	}
	seen := map[string]bool{}
	for _, m := range list {
		i := int(m.AccountIndex) - domain.MarketAccountStart
		if i < 0 || i >= len(k.markets) || k.markets[i] != m.Market || !m.Tradable || m.Fee != k.fees[i] || seen[m.Market.QuoteAsset] {
			k.fatalf("markets listed: %+v", list)
		}
		seen[m.Market.QuoteAsset] = true
	}
	open, err := k.Trade.GetTradableMarkets(Ctx)
	if err != nil || len(open) != len(k.markets) || len(list) != len(k.markets) {
		k.fatalf("%d markets listed, %d open (%v)", len(list), len(open), err)
	}
	for _, m := range open {
		if !seen[m.Market.QuoteAsset] || k.feeOf(m.Market) != m.Fee {
			k.fatalf("open markets: %+v", open)
		}
		delete(seen, m.Market.QuoteAsset)
	}
}

// checkTrades compares the listed trades with the accepted proposals.
func (k *books) checkTrades() {
	list, err := k.Operator.ListTrades(Ctx)
	if err != nil {
		k.fatalf("trades: %v", err)
	}
	all, err := k.RM.TradeRepository().GetAllTrades(Ctx)
	if err != nil {
		k.fatalf("trades: %v", err)
	}
	byReq := map[string]*domain.Trade{}
	ids := map[string]bool{}
	for _, t := range all {
		byReq[t.SwapRequest.ID] = t
		ids[t.ID.String()] = true
	}
	listed := map[string]application.TradeInfo{}
	for i, t := range list {
		if !ids[t.ID] {
			k.fatalf("trade %s is listed (twice or unknown)", t.ID)
		}
		delete(ids, t.ID)
		if listed[t.ID] = t; i > 0 && list[i-1].RequestTimeUnix > t.RequestTimeUnix {
			k.fatalf("trades not in order")
		}
	}
	if len(ids) > 0 {
		k.fatalf("trades %v are not listed", ids)
	}
	for i, d := range k.deals {
		t := byReq[d.req.Msg.GetId()]
		if t == nil {
			k.fatalf("deal %d is not stored", i)
		}
		info := listed[t.ID.String()]
		r := d.req
		if info.SwapInfo != (application.SwapInfo{AssetP: r.AssetP, AmountP: r.AmountP, AssetR: r.AssetR, AmountR: r.AmountR}) ||
			info.MarketWithFee != (application.MarketWithFee{Market: r.Market, Fee: d.fee}) || info.AcceptTimeUnix == 0 || (d.completed) != (info.CompleteTimeUnix != 0) {
			k.fatalf("deal %d listed as %+v", i, info)
		}
		want, failed := domain.Status{Code: domain.Accepted}.Code, false
		tx := k.Chain.Tx(d.txid)
		switch {
		case d.over && !d.completed:
			failed = true
		case d.completed && tx.Confirmed:
			want = domain.Settled
			if info.SettleTimeUnix != uint64(tx.BlockTime) || !strings.Contains(info.TxURL, d.txid) {
				k.fatalf("deal %d settled at %d in %s, is at %d in %s", i, info.SettleTimeUnix, info.TxURL, tx.BlockTime, d.txid)
			}
			for j, o := range tx.Tx.Outputs {
				if len(o.Script) == 0 || k.Account(hex.EncodeToString(o.Script)) < 0 && r.OutKey.ScriptHex() != hex.EncodeToString(o.Script) {
					continue
				}
				if op, err := k.open(o); err != nil || !strings.Contains(info.TxURL, fmt.Sprintf("%d,%s,", op.Value, op.Asset)) {
					k.fatalf("deal %d: %s does not show output %d (%v)", i, info.TxURL, j, err)
				}
			}
		case d.completed:
			want = domain.Completed
		}
		if info.Status.Code != want || info.Status.Failed != failed || failed != (info.SwapFailInfo.Message != "" || info.SwapFailInfo.Code != 0) {
			k.fatalf("deal %d listed with status %+v instead of %d %v", i, info.Status, want, failed)
		}
	}
}

func TestC21Reports(t *testing.T) {
	rule := "histories of deposits, claims, trades, withdrawals, sends, blocks and restarts, all reports compared with the chain after each step; non-trivial: outputs reserved at some step and spent ones at the end"
	vt.Check(t, 60, 2000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			k := &books{bank: newBank(rt, s, w), given: map[int][]string{}, known: map[Outpoint]bool{}}
			// what was set up
			vault, err := w.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil)
			if err != nil {
				rt.Fatalf("vault: %v", err)
			}
			for _, x := range vault.AllDerivedAddressesInfo() {
				if id, key := w.HD.Find(x.Script, 14, 90); key != nil && id[1] == 0 {
					k.given[id[0]] = append(k.given[id[0]], x.Address)
				}
			}
			for _, x := range w.Chain.OwnedBy(func(s string) bool { a := w.Account(s); return a >= 0 && a != domain.WalletAccount }) {
				k.known[x.Outpoint] = true
			}
			k.check()
			locked := 0
			for step, steps := 0, rapid.IntRange(3, 9).Draw(rt, "steps"); step < steps; step++ {
				switch n := within(rt, "step", 13); {
				case n < 2:
					k.deposit()
				case n < 5:
					k.propose()
				case n < 7:
					k.finish()
				case n < 9:
					k.mine()
				case n == 9:
					k.depositWallet()
					k.given[domain.WalletAccount] = append(k.given[domain.WalletAccount], "one")
				case n == 11:
					k.terms()
				case n == 10:
					m := k.markets[within(rt, "market", len(k.markets))]
					_, err := k.Operator.WithdrawMarketFunds(Ctx, application.WithdrawMarketReq{Market: m, Push: true, Address: payee(w, step),
						BalanceToWithdraw: application.Balance{BaseAmount: 1000, QuoteAmount: uint64(within(rt, "quote", 5000000))}})
					k.did("withdraw: %v", err)
					c.Class("withdrawal %v", err)
				default:
					_, err := k.Wallet.SendToMany(Ctx, application.SendToManyRequest{Push: true, Outputs: []application.TxOut{
						{Asset: Base, Value: int64(1 + within(rt, "amount", 1000000)), Address: payee(w, step)}}})
					k.did("send: %v", err)
					c.Class("send %v", err)
				}
				w.Settle()
				locked += k.check()
				if rarely(rt, "restart", 8) {
					if chance(rt, "reload", 50) {
						w.Restart()
						w.Unlock()
						k.did("restart")
					} else {
						if err := k.Operator.ReloadUtxos(Ctx); err != nil {
							k.fatalf("reload: %v", err)
						}
						w.Settle()
						k.did("reload")
					}
					// deposits that were not claimed are found
					for _, x := range w.Chain.OwnedBy(func(s string) bool { return w.Account(s) >= 0 }) {
						if x.SpentBy == "" {
							k.known[x.Outpoint] = true
						}
					}
					k.check()
				}
			}
			if locked > 0 && len(w.Chain.Sent) > 0 {
				c.NonTrivial("%v", s.txt)
			}
		})
	})
}

var _ = txlib.Asset
