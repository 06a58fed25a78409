//go:build go1.23

package funds

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

const gapLimit = 20

// past is what happened to a seed before the wallet is made from it.
type past struct {
	*story
	*World
	last   map[[2]int]int // last used index of a chain of an account
	unused map[int]bool   // accounts without any use
	coins  map[Outpoint]past1
	high   bool // some index was used after a gap
}

type past1 struct {
	*txlib.Coin
	id        [3]int
	conf      bool
	confirmed bool
}

// use makes coins on an address of the seed and possibly spends some of them.
func (p *past) use(id [3]int, quote string) {
	rt := p.rt
	key := p.HD.Key(id[0], id[1], id[2])
	n := []int{1, 2, 3}[within(rt, "coins", 3)]
	kind := within(rt, "use", 10) // 0-4 left there, 5-6 spent, 7 partly spent, 8 spent unconfirmed, 9 unconfirmed
	pays := []Pay{}
	for i := 0; i < n; i++ {
		asset := Base
		if id[0] >= domain.MarketAccountStart && chance(rt, "quote", 50) {
			asset = quote
		}
		if rarely(rt, "odd", 4) {
			asset = txlib.Asset(8)
		}
		pays = append(pays, Pay{Asset: asset, Value: uint64(1 + within(rt, "value", 5000000)), Key: key, Confidential: chance(rt, "confidential", 60)})
	}
	if rarely(rt, "others", 20) {
		pays = append(pays, Pay{Asset: Base, Value: 777, Key: txlib.NewKey("stranger", id[2])})
	}
	confirmed := kind != 9
	made := p.Chain.Fund(confirmed, pays...)
	for i, c := range made[:n] {
		switch {
		case kind == 5, kind == 6, kind == 8, kind == 7 && i == 0:
			p.Chain.Spend(kind != 8, c)
		default:
			p.coins[Outpoint{TxID: c.TxID, Vout: c.Vout}] = past1{c, id, pays[i].Confidential, confirmed}
		}
	}
	p.did("%s: %d coins, use %d", txlib.Path(id), n, kind)
}

func (p *past) account(a int, quote string) {
	rt := p.rt
	for chain := 0; chain < 2; chain++ {
		n := []int{1, 0, 2, 3, 5}[within(rt, "addresses", 5)]
		idx := -1
		for i := 0; i < n; i++ {
			gap := 0
			switch within(rt, "gap", 8) {
			case 5:
				gap = 1 + within(rt, "small", 4)
			case 6:
				gap = 1 + within(rt, "large", gapLimit-1)
			case 7:
				gap = gapLimit - 1
			}
			if idx+1+gap > 57 {
				break
			}
			if gap > 0 {
				p.high = true
			}
			idx += 1 + gap
			p.use([3]int{a, chain, idx}, quote)
		}
		p.last[[2]int{a, chain}] = idx
	}
}

func (p *past) used(a int) bool { return p.last[[2]int{a, 0}] >= 0 || p.last[[2]int{a, 1}] >= 0 }

// empty tells that the daemon knows nothing.
func (p *past) empty(when string) {
	if v, err := p.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil); err == nil {
		p.fatalf("%s there is a vault with %d addresses", when, len(v.AllDerivedAddressesInfo()))
	}
	if l := p.Unspents(); len(l) > 0 {
		p.fatalf("%s there are %d unspents", when, len(l))
	}
	if l, err := p.RM.MarketRepository().GetAllMarkets(Ctx); err != nil || len(l) > 0 {
		p.fatalf("%s there are %d markets (%v)", when, len(l), err)
	}
}

func (p *past) check(when string, accounts []int, wallet bool) {
	vault, err := p.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil)
	if err != nil {
		p.fatalf("%s vault: %v", when, err)
	}
	if len(vault.Accounts) > len(accounts) {
		p.fatalf("%s the vault has accounts %v, of %v", when, vault.Accounts, accounts)
	}
	got := map[[3]int]bool{}
	for _, x := range vault.AllDerivedAddressesInfo() {
		id, k := p.HD.Find(x.Script, 8, 90)
		if k == nil {
			p.fatalf("%s address %s is not one of the seed's", when, x.Address)
		}
		if x.Address != k.ConfidentialAddress() || x.AccountIndex != id[0] || x.DerivationPath != txlib.Path(id) || !bytes.Equal(x.BlindingKey, k.Blind.Serialize()) {
			p.fatalf("%s address %v listed as %+v", when, id, x)
		}
		if got[id] {
			p.fatalf("%s address %v listed twice", when, id)
		}
		got[id] = true
		if c := [2]int{id[0], id[1]}; id[2] > p.last[c] {
			p.fatalf("%s address %v, the last used of the account is %d", when, id, p.last[c])
		}
	}
	for _, a := range accounts {
		for chain := 0; chain < 2; chain++ {
			for i := 0; i <= p.last[[2]int{a, chain}]; i++ {
				if !got[[3]int{a, chain, i}] {
					p.fatalf("%s address %v is missing", when, [3]int{a, chain, i})
				}
				delete(got, [3]int{a, chain, i})
			}
		}
	}
	for id := range got {
		p.fatalf("%s address %v of an unused account", when, id)
	}
	// coins
	have := map[Outpoint]bool{}
	for _, u := range p.Unspents() {
		o := keyOf(u)
		c, ok := p.coins[o]
		if !ok {
			p.fatalf("%s %s is listed but is not a coin of the wallet", when, o)
		}
		if have[o] {
			p.fatalf("%s %s is listed twice", when, o)
		}
		have[o] = true
		if c.id[0] == domain.WalletAccount && !wallet {
			continue
		}
		if u.AssetHash != c.Asset || u.Value != c.Value || u.Confirmed != c.confirmed || u.Spent || u.Locked || u.Address != c.Key.ConfidentialAddress() {
			p.fatalf("%s coin %s of %d %.4s (confirmed %v) of %v listed as %+v", when, o, c.Value, c.Asset, c.confirmed, c.id, u)
		}
	}
	for o, c := range p.coins {
		if !have[o] && (c.id[0] != domain.WalletAccount || wallet) {
			p.fatalf("%s coin %s of %d %.4s at %v is missing", when, o, c.Value, c.Asset, c.id)
		}
	}
	// the wallet account's are those of the explorer
	want := map[string][3]uint64{}
	for _, c := range p.coins {
		if c.id[0] == domain.WalletAccount {
			b := want[c.Asset]
			b[0] += c.Value
			if c.confirmed {
				b[1] += c.Value
			} else {
				b[2] += c.Value
			}
			want[c.Asset] = b
		}
	}
	bal, err := p.Wallet.GetWalletBalance(Ctx)
	if err != nil {
		p.fatalf("%s balance: %v", when, err)
	}
	for a, b := range bal {
		if want[a] != [3]uint64{b.TotalBalance, b.ConfirmedBalance, b.UnconfirmedBalance} {
			p.fatalf("%s balance of %.4s is %+v, of %v", when, a, b, want[a])
		}
	}
	if len(bal) != len(want) {
		p.fatalf("%s balances %v, of %v", when, bal, want)
	}
}

func (p *past) checkMarkets(when string, accounts []int) (funded int) {
	l, err := p.RM.MarketRepository().GetAllMarkets(Ctx)
	if err != nil {
		p.fatalf("markets: %v", err)
	}
	by := map[int]domain.Market{}
	for _, m := range l {
		if _, ok := by[m.AccountIndex]; ok {
			p.fatalf("%s account %d has two markets", when, m.AccountIndex)
		}
		by[m.AccountIndex] = m
	}
	n := 0
	for _, a := range accounts {
		if a < domain.MarketAccountStart {
			continue
		}
		n++
		m, ok := by[a]
		if !ok {
			p.fatalf("%s the market of account %d is missing", when, a)
		}
		if m.Tradable {
			p.fatalf("%s the market of account %d is open", when, a)
		}
		if m.Fee != p.Opts.MarketFee {
			p.fatalf("%s the fee of market %d is %d", when, a, m.Fee)
		}
		assets := map[string]bool{}
		for _, c := range p.coins {
			if c.id[0] == a {
				assets[c.Asset] = true
			}
		}
		base, quote := "", ""
		if len(assets) == 2 && assets[Base] {
			base = Base
			for x := range assets {
				if x != Base {
					quote = x
				}
			}
			funded++
		}
		if m.BaseAsset != base || m.QuoteAsset != quote {
			names := []string{}
			for x := range assets {
				names = append(names, x[:4])
			}
			sort.Strings(names)
			p.fatalf("%s the market of account %d is for %.4s/%.4s, its funds are in %v", when, a, m.BaseAsset, m.QuoteAsset, names)
		}
	}
	if len(l) != n {
		p.fatalf("%s there are %d markets, of %d accounts", when, len(l), n)
	}
	return
}

func TestC24Restore(t *testing.T) {
	rule := "seeds with used addresses on both chains of the fee, wallet and 0-3 market accounts (gaps up to the limit of 20, coins left, spent or unconfirmed) restored on an empty daemon, in a quarter of the cases after attempts cut short by a failing explorer or a wrong mnemonic, or created without restore; non-trivial: restored with an address used after a gap, or after a failure"
	vt.Check(t, 200, 4000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		o.Bare, o.MarketFee = true, []int64{0, 25, 9999}[within(rt, "marketFee", 3)]
		In(rt, o, func(rt *rapid.T, w *World) {
			p := &past{story: &story{rt: rt}, World: w, last: map[[2]int]int{}, unused: map[int]bool{}, coins: map[Outpoint]past1{}}
			accounts := []int{domain.FeeAccount, domain.WalletAccount}
			markets := []int{1, 2, 0, 3}[within(rt, "markets", 4)]
			for i := 0; i < markets; i++ {
				accounts = append(accounts, domain.MarketAccountStart+i)
			}
			for i, a := range accounts {
				p.account(a, txlib.Asset(1+i))
				if a >= domain.MarketAccountStart && !p.used(a) {
					p.use([3]int{a, 0, 0}, txlib.Asset(1+i))
					p.last[[2]int{a, 0}] = 0
				}
			}
			if rarely(rt, "fresh", 8) {
				// nothing is looked up without asking for it
				w.Init(false)
				vault, err := w.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil)
				if err != nil || len(vault.AllDerivedAddressesInfo()) > 0 {
					p.fatalf("new wallet: %v", err)
				}
				if len(w.Unspents()) > 0 {
					p.fatalf("new wallet has %d coins", len(w.Unspents()))
				}
				c.Class("fresh")
				return
			}
			tries := []int{0, 0, 1, 2}[within(rt, "failures", 4)]
			failed := 0
			for ; tries > 0; tries-- {
				at := within(rt, "failAt", 10)
				calls := 0
				if at == 9 {
					bad := append([]string{}, w.Mnemonic...)
					bad[3] = "zebra"
					if bad[3] == w.Mnemonic[3] {
						bad[3] = "zone"
					}
					if errs := w.InitWith(bad[:23], Pass, true); len(errs) == 0 {
						p.fatalf("restored from a broken mnemonic")
					}
					p.did("broken mnemonic")
					failed++
				} else {
					method := "GetTransactionsForAddress"
					if at > 5 {
						method, at = "GetUnspents", at-6
					}
					at *= 1 + within(rt, "times", 20)
					w.Chain.Fail = func(m, _ string) error {
						if m == method {
							if calls++; calls > at {
								return errors.New("explorer is down")
							}
						}
						return nil
					}
					errs := w.InitWith(w.Mnemonic, Pass, true)
					w.Chain.Fail = nil
					p.did("%s fails after %d: %v", method, at, errs)
					if calls <= at {
						if len(errs) > 0 {
							p.fatalf("restore fails without reason: %v", errs)
						}
						c.Class("no failure")
						break
					}
					if len(errs) == 0 {
						p.fatalf("restored although the explorer failed")
					}
					failed++
				}
				p.empty("after a failed restore")
				if err := w.Wallet.UnlockWallet(Ctx, Pass); err != application.ErrWalletNotInitialized {
					p.fatalf("unlock after a failed restore: %v", err)
				}
				if rarely(rt, "restart", 30) {
					w.Restart()
					p.empty("after a failed restore and a restart")
					p.did("restart")
				}
			}
			done := false
			if v, err := w.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil); err == nil && v != nil {
				done = true
			}
			if !done {
				if errs := w.InitWith(w.Mnemonic, Pass, true); len(errs) > 0 {
					p.fatalf("restore: %v", errs)
				}
			}
			if w.Keys.IsSet() {
				p.fatalf("the mnemonic is in memory after the restore")
			}
			w.Unlock()
			p.check("after the restore", accounts, false)
			funded := p.checkMarkets("after the restore", accounts)
			again := rarely(rt, "later restart", 40)
			if again {
				w.Restart()
				w.Unlock()
				w.Advance(time.Minute)
				p.check("after a restart", accounts, true)
				p.checkMarkets("after a restart", accounts)
			}
			// the addresses given out next are fresh
			next := func(a int, addr string, err error) {
				if err != nil {
					p.fatalf("next address of account %d: %v", a, err)
				}
				ch := [2]int{a, 0}
				p.last[ch]++
				if want := w.HD.Key(a, 0, p.last[ch]).ConfidentialAddress(); addr != want {
					id, _ := w.HD.Find(fmt.Sprintf("%x", w.KeyOf(addr).Script), 8, 90)
					p.fatalf("next address of account %d is %v, want index %d", a, id, p.last[ch])
				}
			}
			for i := 0; i < 2; i++ {
				l, err := w.Operator.DepositFeeAccount(Ctx, 1)
				if err != nil || len(l) != 1 {
					p.fatalf("fee address: %v", err)
				}
				next(domain.FeeAccount, l[0].Address, err)
				addr, _, err := w.Wallet.GenerateAddressAndBlindingKey(Ctx)
				next(domain.WalletAccount, addr, err)
				l, err = w.Operator.DepositMarket(Ctx, "", "", 1)
				if err != nil || len(l) != 1 {
					p.fatalf("market address: %v", err)
				}
				a := domain.MarketAccountStart + markets + i
				p.last[[2]int{a, 0}], p.last[[2]int{a, 1}] = -1, -1
				next(a, l[0].Address, err)
			}
			c.Class("markets=%d funded=%d failures=%d restart=%v", markets, funded, failed, again)
			if p.high || failed > 0 {
				c.NonTrivial("accounts %v, last used %v, %d coins, %d failures", accounts, p.last, len(p.coins), failed)
			}
		})
	})
}
