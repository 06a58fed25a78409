//go:build go1.23

package storage

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

const (
	nTx    = 5
	nVout  = 3
	nAddr  = 4
	nAsset = 3
)

func addr(i int) string { return fmt.Sprintf("addr%d", i) }

func keyOf(i int) domain.UnspentKey {
	return domain.UnspentKey{TxID: fmt.Sprintf("%x", txlib.H("tx", i/nVout)), VOut: uint32(i % nVout)}
}

// utxoModel is the reference: what is known of each output, and who holds it.
type utxoModel struct {
	m    map[domain.UnspentKey]domain.Unspent
	lock map[domain.UnspentKey]uuid.UUID
}

func newUtxoModel() *utxoModel {
	return &utxoModel{map[domain.UnspentKey]domain.Unspent{}, map[domain.UnspentKey]uuid.UUID{}}
}

func (m *utxoModel) add(us []domain.Unspent) {
	for _, u := range us {
		if _, ok := m.m[u.Key()]; !ok {
			m.m[u.Key()] = u
		}
	}
}

func (m *utxoModel) each(ks []domain.UnspentKey, f func(k domain.UnspentKey, u *domain.Unspent)) {
	for _, k := range ks {
		if u, ok := m.m[k]; ok {
			f(k, &u)
			m.m[k] = u
		}
	}
}

func (m *utxoModel) spend(ks []domain.UnspentKey) {
	m.each(ks, func(k domain.UnspentKey, u *domain.Unspent) { u.Spent = true })
}
func (m *utxoModel) confirm(ks []domain.UnspentKey) {
	m.each(ks, func(k domain.UnspentKey, u *domain.Unspent) { u.Confirmed = true })
}
func (m *utxoModel) lockAll(ks []domain.UnspentKey, id uuid.UUID) {
	m.each(ks, func(k domain.UnspentKey, u *domain.Unspent) {
		if _, ok := m.lock[k]; !ok {
			m.lock[k] = id
		}
	})
}
func (m *utxoModel) unlock(ks []domain.UnspentKey) {
	m.each(ks, func(k domain.UnspentKey, u *domain.Unspent) { delete(m.lock, k) })
}

// find lists the outputs matching, as text.
func (m *utxoModel) find(f func(u domain.Unspent, locked bool) bool) []domain.Unspent {
	var out []domain.Unspent
	for k, u := range m.m {
		id, locked := m.lock[k]
		if f(u, locked) {
			if locked {
				u.Locked, u.LockedBy = true, &id
			}
			out = append(out, u)
		}
	}
	return out
}

// norm makes a list comparable. Whether a spent output is locked is of no
// interest to anybody.
func norm(us []domain.Unspent) []string {
	out := make([]string, 0, len(us))
	for _, u := range us {
		lock := "-"
		switch {
		case u.Spent:
		case u.Locked && u.LockedBy != nil:
			lock = u.LockedBy.String()
		case u.Locked:
			lock = "nobody"
		case u.LockedBy != nil:
			lock = "unlocked by " + u.LockedBy.String()
		}
		u.Locked, u.LockedBy = false, nil
		out = append(out, fmt.Sprintf("%v %s", u, lock))
	}
	sort.Strings(out)
	return out
}

func diff(got, want []domain.Unspent) string {
	g, w := norm(got), norm(want)
	if reflect.DeepEqual(g, w) {
		return ""
	}
	return fmt.Sprintf("got  %s\nwant %s", strings.Join(g, "\n     "), strings.Join(w, "\n     "))
}

func in(list []string, s string) bool {
	for _, l := range list {
		if l == s {
			return true
		}
	}
	return false
}

// check compares every query with the reference.
func (m *utxoModel) check(repo domain.UnspentRepository, addrs []string) error {
	ok := func(what string, got []domain.Unspent, err error, f func(u domain.Unspent, locked bool) bool) error {
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if d := diff(got, m.find(f)); d != "" {
			return fmt.Errorf("%s:\n%s", what, d)
		}
		return nil
	}
	if err := ok("all", repo.GetAllUnspents(ctx), nil, func(domain.Unspent, bool) bool { return true }); err != nil {
		return err
	}
	us, err := repo.GetAvailableUnspents(ctx)
	if err := ok("available", us, err, func(u domain.Unspent, l bool) bool { return !u.Spent && u.Confirmed && !l }); err != nil {
		return err
	}
	us, err = repo.GetAllUnspentsForAddresses(ctx, addrs)
	if err := ok(fmt.Sprintf("all of %v", addrs), us, err, func(u domain.Unspent, l bool) bool { return in(addrs, u.Address) }); err != nil {
		return err
	}
	us, err = repo.GetUnspentsForAddresses(ctx, addrs)
	if err := ok(fmt.Sprintf("unspents of %v", addrs), us, err, func(u domain.Unspent, l bool) bool {
		return !u.Spent && u.Confirmed && in(addrs, u.Address)
	}); err != nil {
		return err
	}
	us, err = repo.GetAvailableUnspentsForAddresses(ctx, addrs)
	if err := ok(fmt.Sprintf("available of %v", addrs), us, err, func(u domain.Unspent, l bool) bool {
		return !u.Spent && u.Confirmed && !l && in(addrs, u.Address)
	}); err != nil {
		return err
	}
	for i := 0; i < nAsset; i++ {
		var all, free uint64
		for _, u := range m.find(func(u domain.Unspent, l bool) bool {
			return !u.Spent && u.Confirmed && in(addrs, u.Address) && u.AssetHash == txlib.Asset(i)
		}) {
			all += u.Value
			if !u.Locked {
				free += u.Value
			}
		}
		if got, err := repo.GetBalance(ctx, addrs, txlib.Asset(i)); err != nil || got != all {
			return fmt.Errorf("balance of asset %d at %v: got %d (%v), want %d", i, addrs, got, err, all)
		}
		if got, err := repo.GetUnlockedBalance(ctx, addrs, txlib.Asset(i)); err != nil || got != free {
			return fmt.Errorf("unlocked balance of asset %d at %v: got %d (%v), want %d", i, addrs, got, err, free)
		}
	}
	for i := 0; i < nTx*nVout; i++ {
		k := keyOf(i)
		got, err := repo.GetUnspentWithKey(ctx, k)
		if err != nil {
			return fmt.Errorf("by key %v: %v", k, err)
		}
		want := m.find(func(u domain.Unspent, l bool) bool { return u.Key() == k })
		var have []domain.Unspent
		if got != nil {
			have = append(have, *got)
		}
		if d := diff(have, want); d != "" {
			return fmt.Errorf("by key %v:\n%s", k, d)
		}
	}
	return nil
}

func genUnspent(rt *rapid.T, i int) domain.Unspent {
	u := domain.Unspent{
		TxID: keyOf(i).TxID, VOut: keyOf(i).VOut,
		Value:     rapid.SampledFrom([]uint64{1, 7, 1000, 21e14, 1<<63 + 5}).Draw(rt, "value"),
		AssetHash: txlib.Asset(within(rt, "asset", nAsset)),
		Address:   addr(within(rt, "addr", nAddr)),
		Confirmed: rapid.Bool().Draw(rt, "confirmed"),
	}
	if rapid.Bool().Draw(rt, "confidential") {
		u.ValueCommitment, u.AssetCommitment = fmt.Sprintf("%x", txlib.H("vc", i)), fmt.Sprintf("%x", txlib.H("ac", i))
		u.ValueBlinder, u.AssetBlinder = txlib.H("vb", i), txlib.H("ab", i)
		u.Nonce, u.RangeProof, u.SurjectionProof = txlib.H("n", i), blob(rt, "rangeproof", 4000), blob(rt, "surjection", 60)
	}
	u.ScriptPubKey = blob(rt, "script", 34)
	return u
}

func genKeys(rt *rapid.T, n int) []domain.UnspentKey {
	var ks []domain.UnspentKey
	for i, c := 0, rapid.IntRange(0, n).Draw(rt, "keys"); i < c; i++ {
		ks = append(ks, keyOf(within(rt, "key", nTx*nVout)))
	}
	return ks
}

func TestC17Unspents(t *testing.T) {
	rule := "both drivers; histories of 1-25 additions, confirmations, spendings, locks and unlocks of 0-4 keys each (known, unknown, repeated), every query compared with a reference after each step; non-trivial: at least one output was locked or spent"
	vt.Check(t, 400, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		name, rm := open(rt)
		defer shut(rm)
		repo, m := rm.UnspentRepository(), newUtxoModel()
		touched := false
		var hist []string
		for i, n := 0, rapid.IntRange(1, 25).Draw(rt, "steps"); i < n; i++ {
			var err error
			op := ""
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 3:
				var us []domain.Unspent
				for j, n := 0, rapid.IntRange(0, 4).Draw(rt, "adds"); j < n; j++ {
					us = append(us, genUnspent(rt, within(rt, "key", nTx*nVout)))
				}
				err, op = repo.AddUnspents(ctx, us), fmt.Sprintf("add %d", len(us))
				m.add(us)
			case k == 3:
				ks := genKeys(rt, 4)
				_, err = repo.ConfirmUnspents(ctx, ks)
				op = fmt.Sprintf("confirm %v", ks)
				m.confirm(ks)
			case k == 4:
				ks := genKeys(rt, 3)
				_, err = repo.SpendUnspents(ctx, ks)
				op, touched = fmt.Sprintf("spend %v", ks), true
				m.spend(ks)
			case k < 8:
				ks, who := genKeys(rt, 4), id(within(rt, "trade", 3))
				_, err = repo.LockUnspents(ctx, ks, who)
				op, touched = fmt.Sprintf("lock %v for %v", ks, who), true
				m.lockAll(ks, who)
			default:
				ks := genKeys(rt, 4)
				_, err = repo.UnlockUnspents(ctx, ks)
				op = fmt.Sprintf("unlock %v", ks)
				m.unlock(ks)
			}
			hist = append(hist, op)
			if err != nil {
				rt.Fatalf("%s: %s: %v", name, op, err)
			}
			var addrs []string
			for a := 0; a < nAddr; a++ {
				if rapid.Bool().Draw(rt, "with") {
					addrs = append(addrs, addr(a))
				}
			}
			if rapid.IntRange(0, 5).Draw(rt, "foreign") == 0 {
				addrs = append(addrs, "foreign")
			}
			if err := m.check(repo, addrs); err != nil {
				rt.Fatalf("%s: after %s: %v", name, strings.Join(hist, "; "), err)
			}
		}
		c.Class("driver %s", name)
		if touched {
			c.NonTrivial("%s: %s", name, strings.Join(hist, "; "))
		}
	})
}

// Actors working at the same time, each on outputs of its own, do not disturb
// one another; and of those who reserve the same output at the same time one
// at most gets it.
func TestC17Concurrent(t *testing.T) {
	rule := "2-6 actors at once, each adding, confirming, locking, unlocking and spending outputs of its own, on both drivers; the result is compared with a reference; non-trivial: always"
	vt.Check(t, 60, 3000, rule, func(rt *rapid.T, c *vt.Case) {
		name, rm := open(rt)
		defer shut(rm)
		repo := rm.UnspentRepository()
		n := rapid.IntRange(2, 6).Draw(rt, "actors")
		models := make([]*utxoModel, n)
		work := make([][]func() error, n)
		for a := 0; a < n; a++ {
			m := newUtxoModel()
			models[a] = m
			own := func() []domain.UnspentKey {
				var ks []domain.UnspentKey
				for i, c := 0, rapid.IntRange(1, 3).Draw(rt, "keys"); i < c; i++ {
					ks = append(ks, keyOf(within(rt, "key", 3)*n+a))
				}
				return ks
			}
			for i, steps := 0, rapid.IntRange(3, 12).Draw(rt, "steps"); i < steps; i++ {
				op := rapid.IntRange(0, 5).Draw(rt, "op")
				ks := own()
				switch op {
				case 0, 1:
					var us []domain.Unspent
					for _, k := range ks {
						u := domain.Unspent{TxID: k.TxID, VOut: k.VOut, Value: 5, AssetHash: txlib.Asset(0), Address: addr(a % nAddr), Confirmed: op == 0}
						us = append(us, u)
					}
					m.add(us)
					work[a] = append(work[a], func() error { return repo.AddUnspents(ctx, us) })
				case 2:
					m.confirm(ks)
					work[a] = append(work[a], func() error { _, err := repo.ConfirmUnspents(ctx, ks); return err })
				case 3:
					m.lockAll(ks, id(a))
					work[a] = append(work[a], func() error { _, err := repo.LockUnspents(ctx, ks, id(a)); return err })
				case 4:
					m.unlock(ks)
					work[a] = append(work[a], func() error { _, err := repo.UnlockUnspents(ctx, ks); return err })
				case 5:
					m.spend(ks)
					work[a] = append(work[a], func() error { _, err := repo.SpendUnspents(ctx, ks); return err })
				}
			}
		}
		var wg sync.WaitGroup
		errs := make([]error, n)
		for a := range work {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, f := range work[a] {
					if err := f(); err != nil {
						errs[a] = err
					}
				}
			}()
		}
		wg.Wait()
		all := newUtxoModel()
		for a, m := range models {
			if errs[a] != nil {
				rt.Fatalf("%s: actor %d: %v", name, a, errs[a])
			}
			for k, u := range m.m {
				all.m[k] = u
			}
			for k, l := range m.lock {
				all.lock[k] = l
			}
		}
		if err := all.check(repo, []string{addr(0), addr(1)}); err != nil {
			rt.Fatalf("%s: %v", name, err)
		}
		c.NonTrivial("%s: %d actors, %d outputs", name, n, len(all.m))
	})
}
