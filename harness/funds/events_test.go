//go:build go1.23

package funds

import (
	"encoding/hex"
	"sort"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
)

// fate of an accepted trade in the model.
type fate struct {
	*pending
	txid     string // whether or not broadcast
	hex      string
	selfSent bool // broadcast by the trader
	sentBy   bool // by the daemon
	failed   bool // aborted or expired before the daemon knew better
	told     bool // the daemon was told of its confirmation
	since    time.Time
}

type follower struct {
	*books
	fates  []*fate
	told   map[string]bool // confirmations delivered
	events int
}

// deliver gives the daemon the confirmation of a transaction.
func (f *follower) deliver(txid string) {
	t := f.Chain.Tx(txid)
	f.Emit(crawler.TransactionEvent{EventType: crawler.TransactionConfirmed, TxID: txid, TxHex: t.Hex,
		BlockHash: hex.EncodeToString(txlib.H(t.BlockTime)), BlockTime: float64(t.BlockTime)})
	f.did("event of %.8s", txid)
	f.told[txid] = true
	f.events++
	for _, d := range f.fates {
		if d.txid == txid {
			d.told = true
			for i := range t.Tx.Outputs {
				f.known[Outpoint{TxID: txid, Vout: uint32(i)}] = true
			}
		}
	}
}

// expire is to be called whenever time has passed.
func (f *follower) expire() {
	for _, d := range f.fates {
		if !d.failed && !d.told && !d.sentBy && time.Since(d.since) > f.Opts.Expiry+2*time.Minute {
			d.failed, d.over = true, true
			f.did("trade expired")
		}
	}
}

// findAll is what a reload of the outputs does.
func (f *follower) findAll() {
	for _, x := range f.Chain.OwnedBy(func(s string) bool { return f.Account(s) >= 0 }) {
		if x.SpentBy == "" {
			f.known[x.Outpoint] = true
		}
	}
}

// sound checks that the wallet knows nothing the chain does not.
func (f *follower) sound() {
	chain := map[Outpoint]Owned{}
	for _, x := range f.Chain.OwnedBy(func(s string) bool { return f.Account(s) >= 0 }) {
		chain[x.Outpoint] = x
	}
	seen := map[Outpoint]bool{}
	for _, u := range f.Unspents() {
		x, ok := chain[keyOf(u)]
		if !ok || seen[keyOf(u)] {
			f.fatalf("the wallet holds %s, not on chain (or twice)", keyOf(u))
		}
		seen[keyOf(u)] = true
		if u.Value != x.Value || u.AssetHash != x.Asset || hex.EncodeToString(u.ScriptPubKey) != x.Script {
			f.fatalf("the wallet holds %s with %d %s, is %d %s", keyOf(u), u.Value, u.AssetHash, x.Value, x.Asset)
		}
		if u.Confirmed && !x.Confirmed {
			f.fatalf("the wallet holds %s as confirmed, is not", keyOf(u))
		}
		if u.Spent && x.SpentBy == "" {
			f.fatalf("the wallet holds %s as spent, is not", keyOf(u))
		}
	}
}

// converged checks that the wallet knows all it should.
func (f *follower) converged() {
	f.sound()
	store := map[Outpoint]domain.Unspent{}
	for _, u := range f.Unspents() {
		store[keyOf(u)] = u
	}
	for _, x := range f.Chain.OwnedBy(func(s string) bool { return f.Account(s) >= 0 }) {
		u, ok := store[x.Outpoint]
		if f.known[x.Outpoint] && !ok && f.Account(x.Script) != domain.WalletAccount {
			f.fatalf("the wallet does not know %s", x.Outpoint)
		}
		if !ok {
			continue
		}
		if u.Confirmed != x.Confirmed && !u.Spent {
			f.fatalf("the wallet holds %s with confirmed %v, is %v", x.Outpoint, u.Confirmed, x.Confirmed)
		}
		if u.Spent != (x.SpentBy != "") && (u.Confirmed || f.Account(x.Script) != domain.WalletAccount) {
			f.fatalf("the wallet holds %s with spent %v, is spent by %q", x.Outpoint, u.Spent, x.SpentBy)
		}
	}
	trades, err := f.RM.TradeRepository().GetAllTrades(Ctx)
	if err != nil {
		f.fatalf("trades: %v", err)
	}
	byReq := map[string]*domain.Trade{}
	for _, t := range trades {
		byReq[t.SwapRequest.ID] = t
	}
	for i, d := range f.fates {
		t := byReq[d.req.Msg.GetId()]
		if t == nil {
			f.fatalf("trade %d is gone", i)
		}
		tx := f.Chain.Tx(d.txid)
		switch {
		case d.told || tx != nil && tx.Confirmed && !d.failed:
			if t.Status != domain.SettledStatus || t.SettlementTime != uint64(tx.BlockTime) {
				f.fatalf("trade %d has status %+v since %d, should be settled at %d", i, t.Status, t.SettlementTime, tx.BlockTime)
			}
		case t.Status.Code == domain.Settled:
			f.fatalf("trade %d is settled, its transaction did not confirm", i)
		}
	}
}

func TestC23Events(t *testing.T) {
	rule := "histories of trades, sends and withdrawals, transactions broadcast by traders behind the daemon's back, and confirmations delivered in any order, late, repeatedly, before and after reloads and restarts; non-trivial: two events or more, one out of order or repeated"
	vt.Check(t, 60, 2400, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			k := &books{bank: newBank(rt, s, w), given: map[int][]string{}, known: map[Outpoint]bool{}}
			f := &follower{books: k, told: map[string]bool{}}
			for _, x := range w.Chain.OwnedBy(func(s string) bool { a := w.Account(s); return a >= 0 && a != domain.WalletAccount }) {
				k.known[x.Outpoint] = true
			}
			odd := 0 // events out of order or repeated
			reload := func() {
				if chance(rt, "byRestart", 40) {
					w.Restart()
					w.Unlock()
					w.Advance(time.Minute) // it starts watching a bit later
					f.did("restart")
				} else {
					if err := k.Operator.ReloadUtxos(Ctx); err != nil {
						f.fatalf("reload: %v", err)
					}
					f.did("reload")
				}
				w.Settle()
				f.findAll()
				f.expire()
			}
			pick := func(want func(*fate) bool) *fate {
				l := []*fate{}
				for _, d := range f.fates {
					if want(d) {
						l = append(l, d)
					}
				}
				if len(l) == 0 {
					return nil
				}
				return l[within(rt, "which", len(l))]
			}
			// some transaction that confirmed, to tell the daemon of
			deliverable := func(forced bool) []string {
				l := []string{}
				for _, id := range w.Chain.Txs() {
					if w.Chain.Tx(id).Confirmed && (!f.told[id] || forced) && (w.Crawler.Watching(id) || forced) {
						l = append(l, id)
					}
				}
				return l
			}
			event := func(final bool) bool {
				// what is watched, or (rarely) anything: it was on its way already
				l := deliverable(!final && rarely(rt, "anything", 20))
				if len(l) == 0 {
					return false
				}
				i := len(l) - 1 - within(rt, "event", len(l))
				if i > 0 || f.told[l[i]] {
					odd++
				}
				f.deliver(l[i])
				if rarely(rt, "again", 15) {
					odd++
					f.deliver(l[i])
				}
				return true
			}
			for step, steps := 0, rapid.IntRange(8, 20).Draw(rt, "steps"); step < steps; step++ {
				switch n := within(rt, "step", 28); {
				case n >= 22 && n < 25:
					// to any address, unconfirmed at first: found by a reload
					v, err := w.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil)
					if err != nil {
						f.fatalf("vault: %v", err)
					}
					l := v.AllDerivedAddressesInfo()
					sort.Slice(l, func(i, j int) bool { return l[i].Address < l[j].Address })
					// preferably the same ones again
					key := w.KeyOf(l[within(rt, "address", len(l))/2].Address)
					for n := within(rt, "deposits", 3); n >= 0; n-- {
						w.Chain.Fund(false, Pay{Asset: []string{Base, txlib.Asset(1), txlib.Asset(9)}[within(rt, "asset", 3)], Value: uint64(1 + within(rt, "value", 100000)), Key: key, Confidential: chance(rt, "conf", 60)})
					}
					f.did("deposits not confirmed yet")
					if chance(rt, "found", 50) {
						reload()
					}
				case n == 25:
					k.deposit()
				case n < 5:
					if d := k.propose(); d != nil {
						hex, tx, err := FinalHex(d.signed)
						if err != nil {
							f.fatalf("the accepted transaction is not final: %v", err)
						}
						f.fates = append(f.fates, &fate{pending: d, hex: hex, txid: tx.TxHash().String(), since: time.Now()})
					}
				case n < 9: // the trader completes
					if d := pick(func(d *fate) bool { return !d.over && !d.told }); d != nil {
						txid, _, err := d.who.Complete(d.id, d.signed)
						f.did("complete %.8s: %v", d.txid, err)
						d.over = true
						if err == nil && txid == d.txid {
							d.sentBy = true
						}
					}
				case n == 21: // or aborts
					if d := pick(func(d *fate) bool { return !d.over && !d.told }); d != nil {
						_, err := d.who.Abort(d.id)
						f.did("abort %.8s: %v", d.txid, err)
						d.over, d.failed = true, true
					}
				case n < 12: // or broadcasts
					if d := pick(func(d *fate) bool { return !d.selfSent && w.Chain.Tx(d.txid) == nil }); d != nil {
						_, err := w.Chain.BroadcastTransaction(d.hex)
						f.did("%.8s broadcast by the trader: %v", d.txid, err)
						d.selfSent = err == nil
						if d.selfSent {
							c.Class("broadcast by the trader, failed %v", d.failed)
						}
					}
				case n < 15: // blocks
					for _, id := range w.Chain.Txs() {
						if !w.Chain.Tx(id).Confirmed && chance(rt, "mined", 60) {
							w.Chain.Confirm(id)
							f.did("%.8s confirmed", id)
						}
					}
				case n < 18:
					event(false)
				case n == 18:
					m := k.markets[within(rt, "market", len(k.markets))]
					_, err := k.Operator.WithdrawMarketFunds(Ctx, application.WithdrawMarketReq{Market: m, Push: true, Address: payee(w, step),
						BalanceToWithdraw: application.Balance{BaseAmount: 1000, QuoteAmount: uint64(within(rt, "quote", 5000000))}})
					f.did("withdraw: %v", err)
				case n == 19:
					k.depositWallet()
					_, err := k.Wallet.SendToMany(Ctx, application.SendToManyRequest{Push: true, Outputs: []application.TxOut{
						{Asset: Base, Value: int64(1 + within(rt, "amount", 1000000)), Address: payee(w, step)}}})
					f.did("send: %v", err)
				case n == 20:
					w.Advance(time.Duration(1+within(rt, "minutes", 90)) * time.Minute)
					f.expire()
				default:
					reload()
				}
				w.Settle()
				// whatever the daemon sent it knows
				for _, id := range w.Chain.Sent {
					mine := true
					for _, d := range f.fates {
						mine = mine && (d.txid != id || d.sentBy)
					}
					if mine {
						for i := range w.Chain.Tx(id).Tx.Outputs {
							k.known[Outpoint{TxID: id, Vout: uint32(i)}] = true
						}
					}
				}
				f.sound()
			}
			for _, id := range w.Chain.Txs() {
				if !w.Chain.Tx(id).Confirmed {
					w.Chain.Confirm(id)
				}
			}
			for event(true) {
			}
			// what was broadcast after the daemon stopped to watch is found by a reload
			for _, d := range f.fates {
				if tx := w.Chain.Tx(d.txid); tx != nil && !d.told && d.failed {
					c.Class("broadcast after it failed")
					reload()
					break
				}
			}
			w.Settle()
			f.converged()
			if f.events > 1 && odd > 0 {
				c.NonTrivial("%v", s.txt)
			}
		})
	})
}
