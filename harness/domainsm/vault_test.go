//go:build go1.23

package domainsm

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
)

var networks = []*network.Network{&network.Regtest, &network.Liquid}

func confidential(k *txlib.Key, net *network.Network) string {
	a, err := payment.FromPublicKey(k.Pub, net, k.BlindPub).ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return a
}

// infoOf is what the wallet must know of an address.
func infoOf(hd *txlib.HD, net *network.Network, id [3]int) domain.AddressInfo {
	k := hd.Key(id[0], id[1], id[2])
	return domain.AddressInfo{AccountIndex: id[0], Address: confidential(k, net), BlindingKey: k.Blind.Serialize(),
		DerivationPath: txlib.Path(id), Script: k.ScriptHex()}
}

func same(a, b domain.AddressInfo) bool { return fmt.Sprintf("%+v", a) == fmt.Sprintf("%+v", b) }

func copyVault(v *domain.Vault) *domain.Vault {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	c := &domain.Vault{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func useVaultDefaults() func() {
	st, en := domain.MnemonicStoreManager, domain.EncrypterManager
	domain.MnemonicStoreManager = &world.MnemonicStore{}
	return func() { domain.MnemonicStoreManager, domain.EncrypterManager = st, en }
}

func TestC11Vault(t *testing.T) {
	defer useVaultDefaults()()
	domain.EncrypterManager = world.FastCipher{}
	rule := "histories of runs of 1-70 derivations of external and internal addresses of up to 9 accounts, with locks and copies of the vault in between; non-trivial: at least 3 accounts and a chain of 20 addresses"
	vt.Check(t, 60, 1500, rule, func(rt *rapid.T, c *vt.Case) {
		seed := rapid.IntRange(0, 2).Draw(rt, "seed")
		net := networks[rapid.IntRange(0, 1).Draw(rt, "net")]
		hd := txlib.NewHD(txlib.Mnemonic(seed))
		v, err := domain.NewVault(txlib.Mnemonic(seed), "pass", net)
		if err != nil {
			rt.Fatalf("new vault: %v", err)
		}
		n := map[[2]int]int{}
		accounts := map[int]bool{}
		for s, steps := 0, rapid.IntRange(1, 12).Draw(rt, "steps"); s < steps; s++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "step"); {
			case k == 0:
				v.Lock()
				if err := v.Unlock("pass"); err != nil {
					rt.Fatalf("unlock: %v", err)
				}
			case k == 1:
				v = copyVault(v)
			case k == 2:
				a := rapid.IntRange(0, 8).Draw(rt, "account")
				v.InitAccount(a)
				accounts[a] = true
			default:
				a, ch := rapid.IntRange(0, 8).Draw(rt, "account"), rapid.IntRange(0, 1).Draw(rt, "chain")
				for r, run := 0, rapid.IntRange(1, 70).Draw(rt, "run"); r < run; r++ {
					f := v.DeriveNextExternalAddressForAccount
					if ch == 1 {
						f = v.DeriveNextInternalAddressForAccount
					}
					x, err := f(a)
					if err != nil {
						rt.Fatalf("derive: %v", err)
					}
					id := [2]int{a, ch}
					if want := infoOf(hd, net, [3]int{a, ch, n[id]}); !same(*x, want) {
						rt.Fatalf("address %d of chain %v is %+v instead of %+v", n[id], id, *x, want)
					}
					n[id]++
					accounts[a] = true
				}
			}
		}
		// what the vault knows
		total, long := 0, 0
		want := map[string]domain.AddressInfo{}
		for a := 0; a < 10; a++ {
			var ext, all domain.AddressesInfo
			for ch := 0; ch < 2; ch++ {
				if n[[2]int{a, ch}] > long {
					long = n[[2]int{a, ch}]
				}
				for i := 0; i < n[[2]int{a, ch}]; i++ {
					x := infoOf(hd, net, [3]int{a, ch, i})
					want[x.Address] = x
					all = append(all, x)
					if ch == 0 {
						ext = append(ext, x)
					}
				}
			}
			total += len(all)
			for j, f := range []func(int) (domain.AddressesInfo, error){v.AllDerivedAddressesInfoForAccount, v.AllDerivedExternalAddressesInfoForAccount} {
				list, err := f(a)
				if !accounts[a] {
					if err == nil && len(list) > 0 {
						rt.Fatalf("unknown account %d has addresses", a)
					}
					continue
				}
				if err != nil {
					rt.Fatalf("addresses of account %d: %v", a, err)
				}
				exp := map[string]domain.AddressInfo{}
				for _, x := range [2]domain.AddressesInfo{all, ext}[j] {
					exp[x.Address] = x
				}
				for _, x := range list {
					if y, ok := exp[x.Address]; !ok || !same(x, y) {
						rt.Fatalf("account %d lists %+v (is %+v)", a, x, y)
					}
					delete(exp, x.Address)
				}
				if len(exp) > 0 {
					rt.Fatalf("account %d does not list %d addresses", a, len(exp))
				}
			}
			for _, x := range all {
				acc, i, err := v.AccountByAddress(x.Address)
				if err != nil || i != a || acc.AccountIndex != a || acc.DerivationPathByScript[x.Script] != x.DerivationPath {
					rt.Fatalf("account of %+v: %d %v", x, i, err)
				}
			}
		}
		list := v.AllDerivedAddressesInfo()
		if len(list) != total {
			rt.Fatalf("%d addresses listed out of %d", len(list), total)
		}
		for _, x := range list {
			if y, ok := want[x.Address]; !ok || !same(x, y) {
				rt.Fatalf("lists %+v (is %+v)", x, y)
			}
			delete(want, x.Address)
		}
		if len(accounts) >= 3 && long >= 20 {
			c.NonTrivial("%v", n)
		}
	})
}

var passphrases = []string{"pass", "Pass", "pass ", "passpass", "p", "\x00", "paSs", strings.Repeat("long ", 30), strings.Repeat("long ", 30) + "x", "Hello1?", "a passphrase!", "пароль-пароль", "pas"}

func TestC12Vault(t *testing.T) {
	defer useVaultDefaults()()
	rule := "histories of unlock, lock, passphrase change and reload of a vault with right, close and empty passphrases; non-trivial: a refused attempt, an accepted change and an unlock after it"
	vt.Check(t, 150, 6000, rule, func(rt *rapid.T, c *vt.Case) {
		domain.MnemonicStoreManager.Unset()
		seed := rapid.IntRange(0, 2).Draw(rt, "seed")
		mnemonic := txlib.Mnemonic(seed)
		genPass := func(name string) string {
			if rapid.IntRange(0, 9).Draw(rt, name+" empty") == 0 {
				return ""
			}
			return passphrases[rapid.IntRange(0, len(passphrases)-1).Draw(rt, name)]
		}
		pass := genPass("passphrase")
		v, err := domain.NewVault(mnemonic, pass, &network.Regtest)
		if pass == "" {
			if err == nil {
				rt.Fatalf("a vault was made with no passphrase")
			}
			return
		}
		if err != nil {
			rt.Fatalf("new vault: %v", err)
		}
		clear := func(v *domain.Vault) {
			b, _ := json.Marshal(v)
			raw, _ := base64.StdEncoding.DecodeString(v.EncryptedMnemonic)
			all := string(b) + "\n" + string(raw) + "\n" + string(v.PassphraseHash)
			for _, s := range []string{strings.Join(mnemonic, " "), strings.Join(mnemonic[:3], " ")} {
				for _, x := range []string{s, hex.EncodeToString([]byte(s)), base64.StdEncoding.EncodeToString([]byte(s))[:len(s)]} {
					if strings.Contains(all, x) {
						rt.Fatalf("the vault contains its mnemonic: %s", all)
					}
				}
			}
			if len(pass) >= 10 {
				for _, x := range []string{pass, hex.EncodeToString([]byte(pass)), base64.StdEncoding.EncodeToString([]byte(pass))} {
					if strings.Contains(all, x) {
						rt.Fatalf("the vault contains its passphrase %q: %s", pass, all)
					}
				}
			}
		}
		unlocked := true // a new vault is not locked until told so
		derived := 0
		refused, changed, after := 0, 0, 0
		story := []string{}
		fatalf := func(f string, a ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s\nafter: %s", fmt.Sprintf(f, a...), strings.Join(story, "; "))
		}
		for s, steps := 0, rapid.IntRange(2, 14).Draw(rt, "steps"); s < steps; s++ {
			before, _ := json.Marshal(v)
			mustKeep := func(what string) {
				if b, _ := json.Marshal(v); string(b) != string(before) {
					fatalf("%s changed the vault", what)
				}
			}
			switch rapid.IntRange(0, 6).Draw(rt, "step") {
			case 0:
				v.Lock()
				unlocked = false
				story = append(story, "lock")
				mustKeep("locking")
			case 1, 2:
				p := genPass("given")
				if rapid.IntRange(0, 1).Draw(rt, "right") == 1 {
					p = pass
				}
				err := v.Unlock(p)
				story = append(story, fmt.Sprintf("unlock %q: %v", p, err))
				mustKeep("unlocking")
				if !unlocked {
					if (err == nil) != (p == pass) {
						fatalf("unlocking with %q (passphrase %q): %v", p, pass, err)
					}
					if err == nil && changed > 0 {
						after++
					}
					if err != nil {
						refused++
					}
					unlocked = err == nil
				}
			case 3, 4:
				p, q := genPass("given"), genPass("new")
				if rapid.IntRange(0, 1).Draw(rt, "right") == 1 {
					p = pass
				}
				err := v.ChangePassphrase(p, q)
				story = append(story, fmt.Sprintf("change %q to %q: %v", p, q, err))
				if err == nil {
					if p != pass || q == "" {
						fatalf("passphrase %q changed with %q to %q", pass, p, q)
					}
					pass = q
					changed++
				} else {
					mustKeep("a refused change of passphrase")
					if !unlocked && p == pass && q != "" {
						fatalf("changing passphrase: %v", err)
					}
					refused++
				}
			case 5:
				// reload, as after a restart
				v = copyVault(v)
				domain.MnemonicStoreManager.Unset()
				unlocked = false
				story = append(story, "restart")
			case 6:
				x, err := v.DeriveNextExternalAddressForAccount(1)
				story = append(story, fmt.Sprintf("derive: %v", err))
				if (err == nil) != unlocked {
					fatalf("deriving an address while unlocked is %v: %v", unlocked, err)
				}
				if err == nil {
					if want := infoOf(txlib.NewHD(mnemonic), &network.Regtest, [3]int{1, 0, derived}); !same(*x, want) {
						fatalf("derived %+v instead of %+v", *x, want)
					}
					derived++
				} else {
					mustKeep("a refused derivation")
				}
			}
			if v.IsLocked() == unlocked || domain.MnemonicStoreManager.IsSet() != unlocked {
				fatalf("the vault is locked: %v, the seed is available: %v, expected unlocked: %v", v.IsLocked(), domain.MnemonicStoreManager.IsSet(), unlocked)
			}
			m, err := v.GetMnemonicSafe()
			if (err == nil) != unlocked || (unlocked && strings.Join(m, " ") != strings.Join(mnemonic, " ")) || (!unlocked && len(m) > 0) {
				fatalf("mnemonic %v (%v) while unlocked is %v", m, err, unlocked)
			}
			if len(v.Accounts) > 0 {
				_, err1 := v.AllDerivedAddressesInfoForAccount(1)
				_, err2 := v.AllDerivedExternalAddressesInfoForAccount(1)
				_, err3 := v.DeriveNextInternalAddressForAccount(2)
				if (err1 == nil) != unlocked || (err2 == nil) != unlocked || (err3 == nil) != unlocked {
					fatalf("operations while unlocked is %v: %v, %v, %v", unlocked, err1, err2, err3)
				}
			}
			if len(v.AllDerivedAddressesInfo()) < derived {
				fatalf("%d addresses", len(v.AllDerivedAddressesInfo()))
			}
			clear(v)
		}
		if refused > 0 && changed > 0 && after > 0 {
			c.NonTrivial("%s", strings.Join(story, "; "))
		}
	})
}
