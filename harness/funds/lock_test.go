//go:build go1.23

package funds

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

// vaultText shows the stored vault, "" if there is none.
func vaultText(s *story, w *World) string {
	v, err := w.RM.VaultRepository().GetOrCreateVault(Ctx, nil, "", nil)
	if err != nil {
		return ""
	}
	b, err := json.Marshal(v)
	if err != nil {
		s.fatalf("vault: %v", err)
	}
	return string(b)
}

func TestC12Service(t *testing.T) {
	rule := "histories of init, unlock, passphrase change and restart of the wallet service, with right, wrong, close and empty passphrases, and of calls that need the seed in between; non-trivial: a refused attempt, a call refused while locked, an accepted change and an unlock after it"
	passes := []string{Pass, "Correct horse", "correct horse ", "correct", "battery staple", "another one", ""}
	vt.Check(t, 60, 3000, rule, func(rt *rapid.T, c *vt.Case) {
		o := genWorld(rt)
		o.Bare = true
		In(rt, o, func(rt *rapid.T, w *World) {
			s := &story{rt: rt}
			var pass string // of the wallet, "" if there is none
			unlocked := false
			var given []handed
			var told []application.PassphraseMsg
			refused, lockedCalls, changed, after := 0, 0, 0, 0
			draw := func(name string) string { return passes[within(rt, name, len(passes))] }
			for step, steps := 0, rapid.IntRange(3, 14).Draw(rt, "steps"); step < steps; step++ {
				before := vaultText(s, w)
				kind := within(rt, "step", 10)
				if pass == "" && kind > 5 {
					kind = 0
				}
				switch kind {
				case 0:
					m, p := txlib.Mnemonic(within(rt, "seed", 3)), draw("passphrase")
					if chance(rt, "bad seed", 15) {
						m = m[:11]
					}
					errs := w.InitWith(m, p, false)
					s.did("init with %d words, %q: %v", len(m), p, errs)
					switch now := vaultText(s, w); {
					case pass != "":
						if now != before {
							s.fatalf("initialising again changed the wallet")
						}
					case p == "" || len(m) < 12:
						if len(errs) == 0 || now != "" {
							s.fatalf("initialised, vault %s", now)
						}
					default:
						if len(errs) > 0 || now == "" {
							s.fatalf("init: %v", errs)
						}
						pass = p
						w.Mnemonic, w.HD = m, txlib.NewHD(m)
						told = append(told, application.PassphraseMsg{Method: application.InitWallet, CurrentPwd: p})
					}
				case 1, 2, 3:
					p := draw("passphrase")
					if pass != "" && chance(rt, "right", 60) {
						p = pass
					}
					err := w.Wallet.UnlockWallet(Ctx, p)
					w.Settle()
					s.did("unlock with %q: %v", p, err)
					switch {
					case unlocked:
					case pass == "" || p != pass:
						if err == nil {
							s.fatalf("unlocked with %q (passphrase %q)", p, pass)
						}
						refused++
					default:
						if err != nil {
							s.fatalf("unlock with the right passphrase: %v", err)
						}
						unlocked = true
						if changed > 0 {
							after++
						}
						told = append(told, application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: p})
					}
					if vaultText(s, w) != before {
						s.fatalf("an attempt to unlock changed the vault")
					}
				case 4, 5:
					p, q := draw("passphrase"), draw("new passphrase")
					if pass != "" && chance(rt, "right", 60) {
						p = pass
					}
					err := w.Wallet.ChangePassword(Ctx, p, q)
					w.Settle()
					s.did("change %q to %q: %v", p, q, err)
					if err == nil {
						if pass == "" || p != pass || q == "" {
							s.fatalf("passphrase %q changed by %q to %q", pass, p, q)
						}
						pass = q
						changed++
						told = append(told, application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: p, NewPwd: q})
					} else {
						if pass != "" && !unlocked && p == pass && q != "" {
							s.fatalf("change of passphrase: %v", err)
						}
						if vaultText(s, w) != before {
							s.fatalf("a refused change of passphrase changed the vault")
						}
						refused++
					}
				case 6, 7:
					w.Restart()
					unlocked = false
					told = nil
					w.Keys.Unset()
					w.Passphrases = nil
					s.did("restart")
				default:
					var err error
					what := ""
					switch within(rt, "call", 6) {
					case 0:
						what = "new market"
						var l []application.AddressAndBlindingKey
						if l, err = w.Operator.DepositMarket(Ctx, "", "", 1); err == nil {
							given = append(given, handed{l[0].Address, l[0].BlindingKey, -1})
						}
					case 1:
						what = "fee deposit"
						var l []application.AddressAndBlindingKey
						if l, err = w.Operator.DepositFeeAccount(Ctx, 1); err == nil {
							given = append(given, handed{l[0].Address, l[0].BlindingKey, domain.FeeAccount})
							co := w.Chain.Fund(true, Pay{Asset: Base, Value: 100000, Key: w.KeyOf(l[0].Address), Confidential: true})[0]
							if e := w.Operator.ClaimFeeDeposit(Ctx, []application.TxOutpoint{{Hash: co.TxID, Index: int(co.Vout)}}); e != nil {
								s.fatalf("claim: %v", e)
							}
						}
					case 2, 3:
						what = "address"
						var a, b string
						if a, b, err = w.Wallet.GenerateAddressAndBlindingKey(Ctx); err == nil {
							given = append(given, handed{a, b, domain.WalletAccount})
							w.Chain.Fund(true, Pay{Asset: Base, Value: 1000000, Key: w.KeyOf(a), Confidential: true})
						}
					case 4, 5:
						what = "send"
						n := len(w.Chain.Sent)
						_, err = w.Wallet.SendToMany(Ctx, application.SendToManyRequest{Push: true, Outputs: []application.TxOut{
							{Asset: Base, Value: 1000, Address: payee(w, step)}}})
						if !unlocked && len(w.Chain.Sent) > n {
							s.fatalf("a locked wallet sent a transaction")
						}
						if unlocked {
							err = nil // there may be no funds
						}
					}
					w.Settle()
					s.did("%s: %v", what, err)
					if (err == nil) != unlocked {
						s.fatalf("%s while unlocked is %v: %v", what, unlocked, err)
					}
					if err != nil {
						if vaultText(s, w) != before {
							s.fatalf("a refused call changed the vault")
						}
						if pass != "" {
							lockedCalls++
						}
					}
				}
				// the seed is available exactly while unlocked
				if w.Keys.IsSet() != unlocked {
					s.fatalf("the seed is available: %v, unlocked: %v", w.Keys.IsSet(), unlocked)
				}
				if unlocked && strings.Join(w.Keys.Get(), " ") != strings.Join(w.Mnemonic, " ") {
					s.fatalf("another seed")
				}
				if v := vaultText(s, w); pass == "" && v != "" {
					s.fatalf("there is a vault: %s", v)
				} else if pass != "" {
					if strings.Contains(v, strings.Join(w.Mnemonic[:3], " ")) || strings.Contains(v, pass) {
						s.fatalf("the vault tells its secrets: %s", v)
					}
					checkVault(s, w, given)
				}
				w.Settle()
				if a, b := fmt.Sprintf("%+v", w.Passphrases), fmt.Sprintf("%+v", told); a != b && (len(w.Passphrases) > 0 || len(told) > 0) {
					s.fatalf("the other services were told %s instead of %s", a, b)
				}
			}
			if refused > 0 && lockedCalls > 0 && changed > 0 && after > 0 {
				c.NonTrivial("%s", strings.Join(s.txt, "; "))
			}
		})
	})
}
