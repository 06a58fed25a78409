//go:build go1.23

package funds

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/vulpemventures/go-elements/transaction"
)

func within(rt *rapid.T, name string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, name) }

func chance(rt *rapid.T, name string, percent int) bool { return within(rt, name, 100) < percent }

func genWorld(rt *rapid.T) Opts {
	return Opts{InMemory: chance(rt, "memory", 30), Seed: within(rt, "seed", 3), Shape: within(rt, "shape", 4)}
}

// log keeps the story of a case for its messages.
type story struct {
	rt  *rapid.T
	txt []string
}

func (s *story) did(format string, a ...interface{}) {
	s.txt = append(s.txt, fmt.Sprintf(format, a...))
}

func (s *story) fatalf(format string, a ...interface{}) {
	s.rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), strings.Join(s.txt, "; "))
}

// handed is an address given out by the daemon.
type handed struct {
	addr, blind string
	account     int // -1: of a new market
}

// addresses judges the vault: the addresses of every account are those of the
// first indexes of its two chains.
func checkVault(s *story, w *World, given []handed) {
	vault, err := w.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil)
	if err != nil {
		s.fatalf("vault: %v", err)
	}
	type chain [2]int
	used := map[chain]map[int]bool{}
	external := map[string]domain.AddressInfo{}
	all := vault.AllDerivedAddressesInfo()
	for _, x := range all {
		id, k := w.HD.Find(x.Script, 14, 90)
		if k == nil {
			s.fatalf("derived address %s is not one of the seed's", x.Address)
		}
		if id[0] != x.AccountIndex || x.DerivationPath != txlib.Path(id) || x.Address != k.ConfidentialAddress() || !bytes.Equal(x.BlindingKey, k.Blind.Serialize()) {
			s.fatalf("address %v listed as %+v", id, x)
		}
		c := chain{id[0], id[1]}
		if used[c] == nil {
			used[c] = map[int]bool{}
		}
		if used[c][id[2]] {
			s.fatalf("address %v listed twice", id)
		}
		used[c][id[2]] = true
		if id[1] == 0 {
			external[x.Address] = x
		}
	}
	for c, m := range used {
		for i := range m {
			if i >= len(m) {
				s.fatalf("account %d chain %d: index %d used out of %d", c[0], c[1], i, len(m))
			}
		}
	}
	seen := map[string]bool{}
	for _, g := range given {
		if seen[g.addr] {
			s.fatalf("address %s was handed out twice", g.addr)
		}
		seen[g.addr] = true
		x, ok := external[g.addr]
		if !ok {
			s.fatalf("address %s was handed out but is not known to the wallet", g.addr)
		}
		if g.account >= 0 && x.AccountIndex != g.account {
			s.fatalf("address %s of account %d was handed out for account %d", g.addr, x.AccountIndex, g.account)
		}
		if g.account < 0 && x.AccountIndex < domain.MarketAccountStart {
			s.fatalf("address %s of account %d was handed out for a market", g.addr, x.AccountIndex)
		}
		if g.blind != "" && g.blind != hex.EncodeToString(x.BlindingKey) {
			s.fatalf("address %s was handed out with another blinding key", g.addr)
		}
	}
	if len(seen) != len(external) {
		for a, x := range external {
			if !seen[a] {
				s.fatalf("address %s of account %d was never handed out (%d of %d)", a, x.AccountIndex, len(seen), len(external))
			}
		}
	}
	// the lists per account agree
	if vault.IsLocked() {
		return
	}
	n := 0
	for account := range vault.Accounts {
		list, err := w.RM.VaultRepository().GetAllDerivedAddressesInfoForAccount(Ctx, account)
		if err != nil {
			s.fatalf("addresses of account %d: %v", account, err)
		}
		ext, err := w.RM.VaultRepository().GetAllDerivedExternalAddressesInfoForAccount(Ctx, account)
		if err != nil {
			s.fatalf("external addresses of account %d: %v", account, err)
		}
		byAddr := map[string]domain.AddressInfo{}
		for _, x := range all {
			if x.AccountIndex == account {
				byAddr[x.Address] = x
			}
		}
		if len(list) != len(byAddr) {
			s.fatalf("account %d lists %d addresses instead of %d", account, len(list), len(byAddr))
		}
		k := 0
		for _, x := range list {
			if y, ok := byAddr[x.Address]; !ok || fmt.Sprintf("%+v", x) != fmt.Sprintf("%+v", y) {
				s.fatalf("account %d lists %+v, is %+v", account, x, y)
			}
			delete(byAddr, x.Address)
			if _, ok := external[x.Address]; ok {
				k++
			}
			acct, i, err := w.RM.VaultRepository().GetAccountByAddress(Ctx, x.Address)
			if err != nil || i != account || acct.AccountIndex != account {
				s.fatalf("account of %s is found to be %d (%v)", x.Address, i, err)
			}
		}
		if len(ext) != k {
			s.fatalf("account %d lists %d external addresses instead of %d", account, len(ext), k)
		}
		for _, x := range ext {
			if _, ok := external[x.Address]; !ok {
				s.fatalf("account %d lists %s as external", account, x.Address)
			}
		}
		n += len(list)
	}
	if n != len(all) {
		s.fatalf("the accounts list %d addresses out of %d", n, len(all))
	}
	if byScript := domain.AddressesInfo(all); len(byScript.Addresses()) != len(all) {
		s.fatalf("bad number of addresses")
	}
}

func TestC11Service(t *testing.T) {
	rule := "histories of bursts of 1-4 simultaneous calls that derive addresses (deposits to new and known markets, to the fee account, wallet addresses, sends, withdrawals) with restarts in between; non-trivial: a burst of several calls gave out at least 2 addresses of one account"
	vt.Check(t, 120, 4000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		yield := within(rt, "yields", 4)
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			var given []handed
			mu := sync.Mutex{}
			give := func(account int, list ...application.AddressAndBlindingKey) {
				mu.Lock()
				defer mu.Unlock()
				for _, a := range list {
					given = append(given, handed{a.Address, a.BlindingKey, account})
				}
			}
			// a funded market, fee account and wallet
			m := application.Market{BaseAsset: Base, QuoteAsset: txlib.Asset(1)}
			fund := func(account int, addr application.AddressAndBlindingKey, asset string, v uint64) {
				give(account, addr)
				pay := Pay{Asset: asset, Value: v, Key: w.KeyOf(addr.Address), Confidential: true}
				coins := w.Chain.Fund(true, pay)
				op := []application.TxOutpoint{{Hash: coins[0].TxID, Index: int(coins[0].Vout)}}
				if account == domain.FeeAccount {
					if err := w.Operator.ClaimFeeDeposit(Ctx, op); err != nil {
						rt.Fatalf("claim: %v", err)
					}
				}
				w.Settle()
			}
			fee, err := w.Operator.DepositFeeAccount(Ctx, 0)
			if err != nil {
				rt.Fatalf("deposit: %v", err)
			}
			fund(domain.FeeAccount, fee[0], Base, 100000)
			mkt, err := w.Operator.DepositMarket(Ctx, "", "", 2)
			if err != nil {
				rt.Fatalf("deposit: %v", err)
			}
			account := domain.MarketAccountStart
			give(account, mkt...)
			w.Settle()
			var ops []application.TxOutpoint
			for i, a := range []string{Base, m.QuoteAsset} {
				co := w.Chain.Fund(true, Pay{Asset: a, Value: 50000000, Key: w.KeyOf(mkt[i].Address), Confidential: true})[0]
				ops = append(ops, application.TxOutpoint{Hash: co.TxID, Index: int(co.Vout)})
			}
			if err := w.Operator.ClaimMarketDeposit(Ctx, m, ops); err != nil {
				rt.Fatalf("claim: %v", err)
			}
			w.Settle()
			a, b, err := w.Wallet.GenerateAddressAndBlindingKey(Ctx)
			if err != nil {
				rt.Fatalf("generate address: %v", err)
			}
			fund(domain.WalletAccount, application.AddressAndBlindingKey{Address: a, BlindingKey: b}, Base, 30000000)
			w.RM.Gate = func(string) {
				for i := 0; i < yield; i++ {
					runtime.Gosched()
				}
			}
			out := map[string]bool{} // scripts paid so far
			sent := 0
			for step, steps := 0, rapid.IntRange(2, 6).Draw(rt, "steps"); step < steps; step++ {
				before := len(given)
				if chance(rt, "restart", 15) {
					s.did("restart")
					w.Restart()
					w.Unlock()
					checkVault(s, w, given)
					continue
				}
				var calls []func()
				names := []string{}
				var errs []string
				fail := func(what string, err error) {
					mu.Lock()
					defer mu.Unlock()
					// the stores may refuse simultaneous updates
					if len(calls) == 1 || !strings.Contains(err.Error(), "Transaction Conflict") {
						errs = append(errs, what+": "+err.Error())
					}
				}
				refused := func(err error) {
					mu.Lock()
					defer mu.Unlock()
					names = append(names, fmt.Sprint(err))
				}
				for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "calls"); i < n; i++ {
					count := rapid.IntRange(0, 3).Draw(rt, "count")
					kind := within(rt, "call", 6)
					names = append(names, fmt.Sprintf("%d/%d", kind, count))
					calls = append(calls, func() {
						switch kind {
						case 0:
							l, err := w.Operator.DepositMarket(Ctx, m.BaseAsset, m.QuoteAsset, count)
							if err != nil {
								fail("deposit", err)
							}
							give(account, l...)
						case 1:
							l, err := w.Operator.DepositMarket(Ctx, "", "", count)
							if err != nil {
								fail("new market", err)
							}
							give(-1, l...)
						case 2:
							l, err := w.Operator.DepositFeeAccount(Ctx, count)
							if err != nil {
								fail("fee deposit", err)
							}
							give(domain.FeeAccount, l...)
						case 3:
							a, b, err := w.Wallet.GenerateAddressAndBlindingKey(Ctx)
							if err != nil {
								fail("address", err)
							} else {
								give(domain.WalletAccount, application.AddressAndBlindingKey{Address: a, BlindingKey: b})
							}
						case 4:
							_, err := w.Wallet.SendToMany(Ctx, application.SendToManyRequest{Push: true, Outputs: []application.TxOut{
								{Asset: Base, Value: int64(1000 + count), Address: payee(w, step, i)}}})
							refused(err)
						case 5:
							_, err := w.Operator.WithdrawMarketFunds(Ctx, application.WithdrawMarketReq{Market: m, Push: true, Address: payee(w, step, i),
								BalanceToWithdraw: application.Balance{BaseAmount: uint64(1000 + count), QuoteAmount: uint64(count)}})
							refused(err)
						}
					})
				}
				s.did("at once: %v", names)
				wg := sync.WaitGroup{}
				for _, f := range calls {
					wg.Add(1)
					go func() { defer wg.Done(); f() }()
				}
				wg.Wait()
				w.Settle()
				s.did("%v", names[len(calls):])
				names = names[:len(calls)]
				if len(errs) > 0 {
					s.fatalf("failed: %v", errs)
				}
				for ; sent < len(w.Chain.Sent); sent++ {
					for i, o := range w.Chain.Tx(w.Chain.Sent[sent]).Tx.Outputs {
						sc := hex.EncodeToString(o.Script)
						if _, k := w.HD.Find(sc, 14, 90); k == nil {
							continue
						}
						if out[sc] {
							s.fatalf("output %d of a transaction pays to an address already used", i)
						}
						out[sc] = true
					}
					c.Class("sends")
				}
				// unconfirmed change is of no use yet
				for _, id := range w.Chain.Sent {
					w.Confirmed(id)
				}
				checkVault(s, w, given)
				per := map[int]int{}
				for _, g := range given[before:] {
					if per[g.account]++; len(calls) > 1 && per[g.account] == 2 {
						sort.Strings(names)
						c.NonTrivial("%v after %d addresses", names, before)
					}
				}
			}
		})
	})
}

var _ = transaction.NewTx

// payee is the address of somebody else.
func payee(w *World, ids ...interface{}) string {
	k := txlib.NewKey("payee", fmt.Sprint(ids...))
	w.Chain.Register(k)
	return k.ConfidentialAddress()
}
