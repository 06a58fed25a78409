//go:build go1.23

package funds

import (
	"encoding/hex"
	"errors"
	"fmt"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/transaction"
)

// order is a withdrawal or send to judge.
type order struct {
	account int // source
	outs    []application.TxOut
	rate    int64
	push    bool
}

// vsize of a transaction, witnesses discounted.
func vsize(tx *transaction.Transaction) int64 {
	return int64((tx.SerializeSize(false, true)*3 + tx.SerializeSize(true, true) + 3) / 4)
}

// spendable gives what an order may spend: account by outpoint.
func (b *bank) spendable(account int) map[Outpoint]Owned {
	res := map[Outpoint]Owned{}
	stored := map[Outpoint]bool{}
	for _, u := range b.Unspents() {
		stored[keyOf(u)] = available(u)
	}
	for _, o := range b.Chain.OwnedBy(func(s string) bool { a := b.Account(s); return a == account || a == domain.FeeAccount }) {
		a := b.Account(o.Script)
		if o.SpentBy != "" {
			continue
		}
		// the wallet account spends whatever the explorer lists
		if a == domain.WalletAccount || stored[o.Outpoint] {
			res[o.Outpoint] = o
		}
	}
	return res
}

// judgeTx compares a transaction made for an order with what it should be.
// can is what could be spent before.
func (b *bank) judgeTx(o order, tx *transaction.Transaction, can map[Outpoint]Owned) {
	in := map[int]map[string]uint64{o.account: {}, domain.FeeAccount: {}}
	for _, i := range tx.Inputs {
		c, ok := can[Outpoint{TxID: InHash(i), Vout: i.Index}]
		if !ok {
			b.fatalf("the transaction spends %.8s:%d, which it may not", InHash(i), i.Index)
		}
		in[b.Account(c.Script)][c.Asset] += c.Value
	}
	left := append([]application.TxOut{}, o.outs...)
	out := map[int]map[string]uint64{o.account: {}, domain.FeeAccount: {}}
	fee := uint64(0)
	for i, x := range tx.Outputs {
		if len(x.Script) == 0 {
			op, err := txlib.Open(x, nil)
			if err != nil || op.Asset != Base {
				b.fatalf("bad fee output: %v %v", op, err)
			}
			fee += op.Value
			continue
		}
		s := hex.EncodeToString(x.Script)
		found := false
		for j, r := range left {
			script, err := address.ToOutputScript(r.Address)
			if err != nil {
				b.fatalf("[verif-error] %v", err)
			}
			if hex.EncodeToString(script) != s {
				continue
			}
			op, err := b.open(x)
			if err != nil {
				b.fatalf("the recipient cannot open output %d: %v", i, err)
			}
			if op.Asset != r.Asset || op.Value != uint64(r.Value) {
				continue
			}
			if !x.IsConfidential() {
				b.fatalf("output %d to a confidential address is not blinded", i)
			}
			left = append(left[:j], left[j+1:]...)
			found = true
			break
		}
		if found {
			continue
		}
		a := b.Account(s)
		if out[a] == nil {
			b.fatalf("output %d pays to account %d / somebody who was to receive nothing (wanted %v, left %v)", i, a, o.outs, left)
		}
		op, err := b.open(x)
		if err != nil {
			b.fatalf("the wallet cannot open its change %d: %v", i, err)
		}
		if op.Value == 0 {
			b.fatalf("change %d is of nothing", i)
		}
		out[a][op.Asset] += op.Value
	}
	if len(left) > 0 {
		b.fatalf("the transaction does not pay %v", left)
	}
	want := map[string]uint64{}
	for _, r := range o.outs {
		want[r.Asset] += uint64(r.Value)
	}
	for asset := range in[o.account] {
		if in[o.account][asset]-want[asset] != out[o.account][asset] {
			b.fatalf("account %d: %d in, %d to pay, %d back", o.account, in[o.account][asset], want[asset], out[o.account][asset])
		}
		delete(out[o.account], asset)
		delete(want, asset)
	}
	if len(want) > 0 || len(out[o.account]) > 0 {
		b.fatalf("not paid by account %d: %v, unaccounted change %v", o.account, want, out[o.account])
	}
	if len(in[domain.FeeAccount]) > 1 || in[domain.FeeAccount][Base]-fee != out[domain.FeeAccount][Base] || len(out[domain.FeeAccount]) > 1 {
		b.fatalf("fee account: %v in, %d of fees, %v back", in[domain.FeeAccount], fee, out[domain.FeeAccount])
	}
	rate := o.rate
	if rate < domain.MinMilliSatPerByte {
		rate = domain.MinMilliSatPerByte
	}
	size := vsize(tx)
	low, high := uint64(size*rate/1000), uint64(size*rate/1000)
	if high += high/5 + 50; fee < low || fee > high {
		b.fatalf("fee %d for %d vbytes at %d", fee, size, rate)
	}
}

// open opens an output with the key of whoever it pays.
func (b *bank) open(o *transaction.TxOutput) (*txlib.Opening, error) {
	return txlib.Open(o, b.Chain.BlindKey(hex.EncodeToString(o.Script)))
}

func TestC15Spend(t *testing.T) {
	rule := "histories of withdrawals, sends, trades, deposits and blocks; non-trivial: at least one order succeeded spending several coins or after a trade, and one was refused or failed"
	vt.Check(t, 90, 3000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			b := newBank(rt, s, w)
			done, refused := 0, 0
			for step, steps := 0, rapid.IntRange(3, 9).Draw(rt, "steps"); step < steps; step++ {
				switch k := within(rt, "step", 10); k {
				case 0:
					b.propose()
				case 1:
					b.finish()
				case 2:
					b.mine()
				case 3:
					b.depositWallet()
				default:
					if chance(rt, "block", 60) {
						b.mine()
					}
					ok, rich := b.order(c, step, k < 7)
					if !ok {
						refused++
					} else if rich {
						done++
					}
					c.Class(fmt.Sprintf("order of wallet %v: %v", k < 7, b.why))
				}
			}
			if done > 0 && refused > 0 {
				c.NonTrivial("%v", s.txt)
			}
		})
	})
}

// order draws a withdrawal or a send, runs and judges it.
func (b *bank) order(c *vt.Case, step int, send bool) (ok, rich bool) {
	rt := b.rt
	b.why = "nothing to pay"
	o := order{push: chance(rt, "push", 92)}
	o.rate = []int64{0, 100, 150, 1000, 5000, 30000}[within(rt, "rate", 6)]
	mi := within(rt, "market", len(b.markets))
	if o.account = domain.MarketAccountStart + mi; send {
		o.account = domain.WalletAccount
	}
	can := b.spendable(o.account)
	have := map[int]map[string]uint64{o.account: {}, domain.FeeAccount: {}}
	for _, x := range can {
		have[b.Account(x.Script)][x.Asset] += x.Value
	}
	draw := func(asset string) uint64 {
		max := have[o.account][asset]
		switch within(rt, "amount", 10) {
		case 8:
			return max
		case 9:
			return max + 1 + uint64(within(rt, "over", 3))*max
		case 7:
			return max - min(max, uint64(within(rt, "under", 700)))
		case 6:
			return uint64(1 + within(rt, "few", 1000))
		default:
			return max / 1000 * uint64(rapid.IntRange(1, 999).Draw(rt, "part"))
		}
	}
	addr := func(i int) string {
		switch within(rt, "payee", 6) {
		case 0: // own
			list, err := b.Operator.DepositFeeAccount(Ctx, 1)
			if err != nil {
				b.fatalf("deposit: %v", err)
			}
			return list[0].Address
		case 1:
			return payee(b.World, "same")
		}
		return payee(b.World, step, i)
	}
	if send {
		assets := []string{}
		for _, a := range []string{Base, txlib.Asset(1), txlib.Asset(7)} {
			if have[o.account][a] > 0 {
				assets = append(assets, a)
			}
		}
		if len(assets) == 0 || rarely(rt, "any", 5) {
			assets = []string{Base, txlib.Asset(1)}
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "outs"); i < n; i++ {
			asset := assets[within(rt, "asset", len(assets))]
			if v := draw(asset); v > 0 {
				o.outs = append(o.outs, application.TxOut{Asset: asset, Value: int64(v), Address: addr(i)})
			}
		}
		if len(o.outs) == 0 {
			return false, false
		}
	} else {
		m := b.markets[mi]
		a := addr(0)
		for i, asset := range []string{Base, m.QuoteAsset} {
			if i == 1 && rarely(rt, "onlyBase", 30) {
				continue
			}
			if v := draw(asset); v > 0 && !(i == 0 && rarely(rt, "onlyQuote", 20)) {
				o.outs = append(o.outs, application.TxOut{Asset: asset, Value: int64(v), Address: a})
			}
		}
		if len(o.outs) == 0 {
			return false, false
		}
	}
	down := rarely(rt, "down", 8)
	if down {
		b.Chain.Fail = func(m, _ string) error {
			if m == "BroadcastTransaction" {
				return errors.New("node down")
			}
			return nil
		}
	}
	store, vault, sent, nrefused := b.Unspents(), vaultText(b.story, b.World), len(b.Chain.Sent), len(b.Chain.Refused)
	text := b.storeText()
	var raw []byte
	var err error
	if send {
		raw, err = b.Wallet.SendToMany(Ctx, application.SendToManyRequest{Outputs: o.outs, MillisatPerByte: o.rate, Push: o.push})
	} else {
		req := application.WithdrawMarketReq{Market: b.markets[mi], MillisatPerByte: o.rate, Push: o.push, Address: o.outs[0].Address}
		for _, x := range o.outs {
			if x.Asset == Base {
				req.BalanceToWithdraw.BaseAmount = uint64(x.Value)
			} else {
				req.BalanceToWithdraw.QuoteAmount = uint64(x.Value)
			}
		}
		raw, err = b.Operator.WithdrawMarketFunds(Ctx, req)
	}
	b.Settle()
	b.Chain.Fail = nil
	b.did("account %d at %d pays %s (push %v, node down %v): %v", o.account, o.rate, outsText(o.outs), o.push, down, err)
	if len(b.Chain.Refused) > nrefused {
		b.fatalf("the node refused the transaction: %s", b.Chain.Refused[nrefused])
	}
	b.why = fmt.Sprint(err)
	want := map[string]uint64{}
	over := false
	for _, x := range o.outs {
		if want[x.Asset] += uint64(x.Value); want[x.Asset] > have[o.account][x.Asset] {
			over = true
		}
	}
	if err == nil && over {
		b.fatalf("granted beyond the balance %v", have[o.account])
	}
	if err != nil {
		if len(b.Chain.Sent) > sent {
			b.fatalf("refused but broadcast")
		}
		if b.storeText() != text {
			b.fatalf("refused but the unspents changed from %s to %s", text, b.storeText())
		}
		if !(down && o.push) && vaultText(b.story, b.World) != vault {
			b.fatalf("refused but the wallet changed")
		}
		enough := have[domain.FeeAccount][Base] > uint64(300*len(can)+4000)*uint64(max(o.rate, 100))/1000+1000
		if m := o.account - domain.MarketAccountStart; m >= 0 {
			enough = enough && have[o.account][Base] > 0 && have[o.account][b.markets[m].QuoteAsset] > 0
		}
		if !over && enough && !(down && o.push) {
			b.fatalf("refused: %v, although there is enough: %v", err, have)
		}
		return false, false
	}
	if down && o.push {
		b.fatalf("granted although the node is down")
	}
	tx, err := transaction.NewTxFromHex(hex.EncodeToString(raw))
	if err != nil {
		b.fatalf("bad transaction: %v", err)
	}
	if o.push {
		if len(b.Chain.Sent) != sent+1 || b.Chain.Sent[sent] != tx.TxHash().String() {
			b.fatalf("broadcast %v instead of %s", b.Chain.Sent[sent:], tx.TxHash())
		}
	} else {
		if len(b.Chain.Sent) != sent {
			b.fatalf("broadcast without being asked to")
		}
		if err := b.Chain.Verify(tx); err != nil {
			b.fatalf("bad transaction: %v", err)
		}
	}
	b.judgeTx(o, tx, can)
	// the store: what is spent is, the rest is untouched, what comes back is new
	ins := map[Outpoint]bool{}
	for _, i := range tx.Inputs {
		ins[Outpoint{TxID: InHash(i), Vout: i.Index}] = true
	}
	now := map[Outpoint]domain.Unspent{}
	for _, u := range b.Unspents() {
		now[keyOf(u)] = u
	}
	for _, u := range store {
		v, ok := now[keyOf(u)]
		delete(now, keyOf(u))
		if !ok {
			b.fatalf("%v is gone from the unspents", keyOf(u))
		}
		if ins[keyOf(u)] {
			if !v.Spent {
				b.fatalf("%v is not spent", keyOf(u))
			}
		} else if textOf(u) != textOf(v) {
			b.fatalf("%v changed from %s to %s", keyOf(u), textOf(u), textOf(v))
		}
	}
	for k, u := range now {
		if k.TxID != tx.TxHash().String() || u.Spent || u.Locked || u.Confirmed {
			b.fatalf("new unspent %s", textOf(u))
		}
	}
	for i, x := range tx.Outputs {
		if a := b.Account(hex.EncodeToString(x.Script)); len(x.Script) > 0 && (a == domain.FeeAccount || a == o.account && a != domain.WalletAccount) {
			u, ok := now[Outpoint{TxID: tx.TxHash().String(), Vout: uint32(i)}]
			op, err := b.open(x)
			if !ok || err != nil || u.Value != op.Value || u.AssetHash != op.Asset {
				b.fatalf("the change %d is not stored right: %v", i, u)
			}
		}
	}
	if !o.push {
		// as the operator is expected to
		if _, err := b.Chain.BroadcastTransaction(hex.EncodeToString(raw)); err != nil {
			b.fatalf("the node refused the transaction: %v", err)
		}
	}
	return true, len(tx.Inputs) > 2 || len(b.deals) > 0
}

func outsText(l []application.TxOut) string {
	t := ""
	for _, x := range l {
		t += fmt.Sprintf("%d of %.4s to %.12s ", x.Value, x.Asset, x.Address[len(x.Address)-12:])
	}
	return t
}
