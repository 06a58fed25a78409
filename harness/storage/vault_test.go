//go:build go1.23

package storage

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/vulpemventures/go-elements/network"
)

func showVault(v *domain.Vault) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

type vaultModel struct {
	last  string // the vault as last written
	addrs []domain.AddressInfo
	accs  map[int][2]int // account -> last external and internal index
	pass  string
}

func newVaultModel() *vaultModel { return &vaultModel{accs: map[int][2]int{}} }

func resetVault() {
	domain.MnemonicStoreManager = &world.MnemonicStore{}
	domain.EncrypterManager = world.FastCipher{}
}

func (m *vaultModel) check(repo domain.VaultRepository) error {
	v, err := repo.GetOrCreateVault(ctx, nil, "", nil)
	if err == nil {
		v, err = repo.GetOrCreateVault(ctx, txlib.Mnemonic(9), "other", &network.Regtest)
	}
	if err != nil {
		return fmt.Errorf("vault: %v", err)
	}
	if got := showVault(v); got != m.last {
		return fmt.Errorf("vault:\ngot  %s\nwant %s", got, m.last)
	}
	for i := 0; i < 7; i++ {
		acc, err := repo.GetAccountByIndex(ctx, i)
		want, ok := m.accs[i]
		if ok != (err == nil) {
			return fmt.Errorf("account %d: error %v, exists %v", i, err, ok)
		}
		if ok {
			if acc.AccountIndex != i || acc.LastExternalIndex != want[0] || acc.LastInternalIndex != want[1] {
				return fmt.Errorf("account %d: got %+v, want indexes %v", i, acc, want)
			}
			for ext := 0; ext < 2; ext++ {
				var got domain.AddressesInfo
				if ext == 1 {
					got, err = repo.GetAllDerivedExternalAddressesInfoForAccount(ctx, i)
				} else {
					got, err = repo.GetAllDerivedAddressesInfoForAccount(ctx, i)
				}
				if err != nil {
					return fmt.Errorf("addresses of account %d: %v", i, err)
				}
				var w []domain.AddressInfo
				scripts, paths := []string{}, map[string]string{}
				for _, a := range m.addrs {
					if a.AccountIndex == i && (ext == 0 || strings.HasPrefix(a.DerivationPath, fmt.Sprintf("%d'/0/", i))) {
						w = append(w, a)
						scripts, paths[a.Script] = append(scripts, a.Script), a.DerivationPath
					}
				}
				if g, w := showAddrs(got), showAddrs(w); g != w {
					return fmt.Errorf("addresses of account %d (external only %d):\ngot  %s\nwant %s", i, ext, g, w)
				}
				gotPaths, err := repo.GetDerivationPathByScript(ctx, i, scripts)
				if err != nil || !reflect.DeepEqual(gotPaths, paths) {
					return fmt.Errorf("paths of account %d: got %v (%v), want %v", i, gotPaths, err, paths)
				}
			}
		}
	}
	for _, a := range m.addrs {
		acc, i, err := repo.GetAccountByAddress(ctx, a.Address)
		if err != nil || i != a.AccountIndex || acc.AccountIndex != i || acc.DerivationPathByScript[a.Script] != a.DerivationPath {
			return fmt.Errorf("account of address %s: got %d %+v (%v), want %+v", a.Address, i, acc, err, a)
		}
	}
	if _, i, err := repo.GetAccountByAddress(ctx, "unknown"); err == nil {
		return fmt.Errorf("unknown address: found in account %d", i)
	}
	return nil
}

func showAddrs(as []domain.AddressInfo) string {
	var out []string
	for _, a := range as {
		out = append(out, fmt.Sprintf("%d %s %s %s %x", a.AccountIndex, a.Address, a.DerivationPath, a.Script, a.BlindingKey))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// vaultStep writes the vault once, after some generated changes.
func vaultStep(rt *rapid.T, repo domain.VaultRepository, m *vaultModel) (string, error) {
	n := rapid.IntRange(0, 3).Draw(rt, "changes")
	var ops []int
	var accs []int
	for i := 0; i < n; i++ {
		ops = append(ops, rapid.IntRange(0, 5).Draw(rt, "change"))
		accs = append(accs, rapid.IntRange(0, 6).Draw(rt, "account"))
	}
	fail := rapid.IntRange(0, 4).Draw(rt, "fail") == 0
	desc := fmt.Sprintf("update %v %v fail=%v", ops, accs, fail)
	next := newVaultModel()
	next.addrs = append(next.addrs, m.addrs...)
	for k, v := range m.accs {
		next.accs[k] = v
	}
	err := repo.UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
		if got := showVault(v); got != m.last {
			return nil, fmt.Errorf("update of %s, expected %s", got, m.last)
		}
		for i, op := range ops {
			a := accs[i]
			idx := next.accs[a]
			switch op {
			case 0:
				v.InitAccount(a)
			case 1, 2, 3:
				info, err := v.DeriveNextExternalAddressForAccount(a)
				if err != nil {
					return nil, err
				}
				next.addrs = append(next.addrs, *info)
				idx[0]++
			default:
				info, err := v.DeriveNextInternalAddressForAccount(a)
				if err != nil {
					return nil, err
				}
				next.addrs = append(next.addrs, *info)
				idx[1]++
			}
			next.accs[a] = idx
		}
		next.last = showVault(v)
		if fail {
			return nil, errors.New("refused")
		}
		return v, nil
	})
	if fail {
		if err == nil || err.Error() != "refused" {
			return desc, fmt.Errorf("refused update ended with %v", err)
		}
		return desc, nil
	}
	*m = *next
	return desc, err
}

func TestC19Vault(t *testing.T) {
	rule := "both drivers; a vault is created and then changed 1-10 times (accounts, receiving and change addresses, refused changes, changes to the copy that was read), every lookup compared with what was written; non-trivial: an address was derived"
	vt.Check(t, 120, 4000, rule, func(rt *rapid.T, c *vt.Case) {
		resetVault()
		name, rm := open(rt)
		defer shut(rm)
		repo, m := rm.VaultRepository(), newVaultModel()
		var hist []string
		if _, err := repo.GetOrCreateVault(ctx, nil, "", nil); err == nil {
			rt.Fatalf("%s: vault made of nothing", name)
		}
		net := []*network.Network{&network.Regtest, &network.Liquid}[within(rt, "net", 2)]
		v, err := repo.GetOrCreateVault(ctx, txlib.Mnemonic(within(rt, "seed", 3)), "pass", net)
		if err != nil {
			rt.Fatalf("%s: creating the vault: %v", name, err)
		}
		m.last = showVault(v)
		for i, n := 0, rapid.IntRange(1, 10).Draw(rt, "steps"); i < n; i++ {
			var op string
			if rapid.IntRange(0, 3).Draw(rt, "scribble") == 0 {
				op = "change of the copy read"
				v, err := repo.GetOrCreateVault(ctx, nil, "", nil)
				if err == nil {
					_, err = v.DeriveNextExternalAddressForAccount(1)
				}
				if err != nil {
					rt.Fatalf("%s: %v", name, err)
				}
			} else if op, err = vaultStep(rt, repo, m); err != nil {
				rt.Fatalf("%s: after %s; %s: %v", name, strings.Join(hist, "; "), op, err)
			}
			hist = append(hist, op)
			if err := m.check(repo); err != nil {
				rt.Fatalf("%s: after %s: %v", name, strings.Join(hist, "; "), err)
			}
		}
		c.Class("driver %s", name)
		if len(m.addrs) > 0 {
			c.NonTrivial("%s: %s", name, strings.Join(hist, "; "))
		}
	})
}
