//go:build go1.23

package storage

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/vulpemventures/go-elements/network"
)

// db is the reference for all that is stored durably.
type db struct {
	markets marketModel
	trades  tradeModel
	vault   *vaultModel
}

func newDB() *db { return &db{marketModel{}, tradeModel{}, newVaultModel()} }

func (d *db) clone() *db {
	c := &db{d.markets.clone(), tradeModel{}, &vaultModel{last: d.vault.last, accs: map[int][2]int{}}}
	for k, v := range d.trades {
		c.trades[k] = v
	}
	c.vault.addrs = append(c.vault.addrs, d.vault.addrs...)
	for k, v := range d.vault.accs {
		c.vault.accs[k] = v
	}
	return c
}

func (d *db) check(rm ports.RepoManager) error {
	if err := d.markets.check(rm.MarketRepository(), 4, 3); err != nil {
		return err
	}
	if err := d.trades.check(rm.TradeRepository(), 3); err != nil {
		return err
	}
	if d.vault.last == "" {
		if _, err := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil); err == nil {
			return errors.New("a vault is there, though none was stored")
		}
		return nil
	}
	return d.vault.check(rm.VaultRepository())
}

// step does one thing to one of the stores.
func (d *db) step(rt *rapid.T, rm ports.RepoManager, priced bool) (string, error) {
	switch op := rapid.IntRange(0, 9).Draw(rt, "store"); {
	case op < 5:
		return marketStep(rt, rm.MarketRepository(), d.markets, 4, 3, priced)
	case op < 9:
		return tradeStep(rt, rm.TradeRepository(), d.trades, 4, 3)
	case d.vault.last == "":
		v, err := rm.VaultRepository().GetOrCreateVault(ctx, txlib.Mnemonic(1), "pass", &network.Regtest)
		if err == nil {
			d.vault.last = showVault(v)
		}
		return "create vault", err
	default:
		return vaultStep(rt, rm.VaultRepository(), d.vault)
	}
}

// transaction runs some steps in a transaction that is then committed, fails
// or is given up. The reference is changed only in the first case.
func (d *db) transaction(rt *rapid.T, rm ports.RepoManager, peek bool) (*db, string, error) {
	next := d.clone()
	end := rapid.SampledFrom([]string{"commit", "commit", "commit", "fail", "manual commit", "discard"}).Draw(rt, "end")
	n := rapid.IntRange(1, 5).Draw(rt, "tx steps")
	hist := ""
	body := func(c context.Context) error {
		err := inCtx(c, func() error {
			for i := 0; i < n; i++ {
				op, err := next.step(rt, rm, false)
				hist += op + ", "
				if err != nil {
					return fmt.Errorf("%s: %v", op, err)
				}
			}
			if !peek {
				return nil
			}
			if err := next.check(rm); err != nil {
				return fmt.Errorf("seen from within: %v", err)
			}
			return nil
		})
		if err == nil && peek {
			if err = d.check(rm); err != nil {
				err = fmt.Errorf("seen from outside, before the end: %v", err)
			}
		}
		return err
	}
	var err error
	switch end {
	case "commit", "fail":
		refused := errors.New("refused")
		res, e := rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
			if err = body(c); err != nil {
				return nil, err
			}
			if end == "fail" {
				return "result", refused
			}
			return "result", nil
		})
		switch {
		case err != nil:
		case end == "fail" && (e != refused || res != nil):
			err = fmt.Errorf("failed transaction gave %v, %v", res, e)
		case end == "commit" && (e != nil || res != "result"):
			err = fmt.Errorf("transaction gave %v, %v", res, e)
		}
	default:
		tx := rm.NewTransaction()
		err = body(context.WithValue(ctx, "tx", tx))
		if end == "discard" || err != nil {
			tx.Discard()
		} else if e := tx.Commit(); e != nil {
			err = e
		}
	}
	desc := fmt.Sprintf("[%s %s]", hist, end)
	if strings.HasSuffix(end, "commit") {
		return next, desc, err
	}
	return d, desc, err
}

func TestC20Transactions(t *testing.T) {
	rule := "histories of 1-8 transactions of 1-5 steps over markets, trades and vault, committed, failing or discarded, looked at from inside, from outside while running, and afterwards; non-trivial: one committed and one given up"
	vt.Check(t, 150, 6000, rule, func(rt *rapid.T, c *vt.Case) {
		resetVault()
		rm, err := dbbadger.NewRepoManager("", nil)
		must(err)
		defer shut(rm)
		d := newDB()
		var hist []string
		var ok, ko bool
		for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "transactions"); i < n; i++ {
			next, desc, err := d.transaction(rt, rm, rapid.IntRange(0, 2).Draw(rt, "peek") == 0)
			hist = append(hist, desc)
			if err == nil {
				if next != d {
					ok = true
				} else {
					ko = true
				}
				d = next
				err = d.check(rm)
			}
			if err != nil {
				rt.Fatalf("after %s: %v", strings.Join(hist, "; "), err)
			}
		}
		if ok && ko {
			c.NonTrivial("%s", strings.Join(hist, "; "))
		}
	})
}

// The same for the two stores having transactions of their own.
func TestC20Prices(t *testing.T) {
	rule := "histories of 1-6 transactions setting prices of 3 markets, or adding, confirming and spending outputs, committed or failing; non-trivial: always"
	vt.Check(t, 100, 4000, rule, func(rt *rapid.T, c *vt.Case) {
		rm, err := dbbadger.NewRepoManager("", nil)
		must(err)
		defer shut(rm)
		d, us := newDB(), newUtxoModel()
		for i := 0; i < 3; i++ {
			k := domain.MarketAccountStart + i
			mk, err := rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: k, Fee: 25})
			must(err)
			must(rm.MarketRepository().UpdateMarket(ctx, k, func(m *domain.Market) (*domain.Market, error) {
				err := m.FundMarket([]domain.OutpointWithAsset{{Asset: txlib.Asset(i)}, {Asset: base}}, base)
				*mk = *m
				return m, err
			}))
			d.markets[k] = *mk
		}
		var hist []string
		for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "transactions"); i < n; i++ {
			fail := rapid.IntRange(0, 2).Draw(rt, "fail") == 0
			refused := errors.New("refused")
			var e error
			if rapid.Bool().Draw(rt, "prices") {
				next := d.clone()
				_, e = rm.RunPricesTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
					for j, n := 0, rapid.IntRange(1, 3).Draw(rt, "changes"); j < n; j++ {
						k := domain.MarketAccountStart + within(rt, "market", 3)
						mk := next.markets[k]
						mk.Price = domain.Prices{BasePrice: genPrice(rt, "base"), QuotePrice: genPrice(rt, "quote")}
						next.markets[k] = mk
						if err := rm.MarketRepository().UpdatePrices(ctx, k, mk.Price); err != nil {
							return nil, err
						}
						got, err := rm.MarketRepository().GetMarketByAccount(ctx, k)
						if err != nil || showMarket(got) != showMarket(&mk) {
							return nil, fmt.Errorf("seen from within: %s (%v), want %s", showMarket(got), err, showMarket(&mk))
						}
					}
					if fail {
						return nil, refused
					}
					return nil, nil
				})
				if !fail {
					d = next
				}
				hist = append(hist, fmt.Sprintf("prices fail=%v", fail))
			} else {
				next := newUtxoModel()
				next.add(us.find(func(domain.Unspent, bool) bool { return true }))
				_, e = rm.RunUnspentsTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
					for j, n := 0, rapid.IntRange(1, 3).Draw(rt, "changes"); j < n; j++ {
						u := genUnspent(rt, within(rt, "key", 6))
						ks := []domain.UnspentKey{keyOf(within(rt, "key", 6))}
						var err error
						switch rapid.IntRange(0, 3).Draw(rt, "op") {
						case 0, 1:
							err = rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{u})
							next.add([]domain.Unspent{u})
						case 2:
							_, err = rm.UnspentRepository().ConfirmUnspents(ctx, ks)
							next.confirm(ks)
						case 3:
							_, err = rm.UnspentRepository().SpendUnspents(ctx, ks)
							next.spend(ks)
						}
						if err != nil {
							return nil, err
						}
					}
					if fail {
						return nil, refused
					}
					return nil, nil
				})
				if !fail {
					us = next
				}
				hist = append(hist, fmt.Sprintf("unspents fail=%v", fail))
			}
			if fail && e != refused || !fail && e != nil {
				rt.Fatalf("after %v: %v", hist, e)
			}
			if err := d.check(rm); err != nil {
				rt.Fatalf("after %v: %v", hist, err)
			}
			if err := us.check(rm.UnspentRepository(), []string{addr(0), addr(2)}); err != nil {
				rt.Fatalf("after %v: %v", hist, err)
			}
		}
		c.NonTrivial("%v", hist)
	})
}

// Transactions running at the same time end up as if run one after the other:
// every increment counts, what is moved from one trade to another is in one of
// them, and every derived address is a new one.
func TestC20Concurrent(t *testing.T) {
	rule := "2-6 actors at once, each running 1-6 transactions on the same two trades, market and vault: increments, moves, new addresses, some failing at the end; non-trivial: always"
	vt.Check(t, 40, 1500, rule, func(rt *rapid.T, c *vt.Case) {
		resetVault()
		rm, err := dbbadger.NewRepoManager("", nil)
		must(err)
		defer shut(rm)
		ids := []uuid.UUID{id(1), id(2)}
		for _, i := range ids {
			_, err := rm.TradeRepository().GetOrCreateTrade(ctx, &i)
			must(err)
			must(rm.TradeRepository().UpdateTrade(ctx, &i, func(t *domain.Trade) (*domain.Trade, error) { t.ExpiryTime = 1000; return t, nil }))
		}
		_, err = rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: 5, Fee: 25})
		must(err)
		_, err = rm.VaultRepository().GetOrCreateVault(ctx, txlib.Mnemonic(2), "pass", &network.Regtest)
		must(err)
		n := rapid.IntRange(2, 6).Draw(rt, "actors")
		type job struct {
			kind int
			fail bool
		}
		jobs := make([][]job, n)
		var incs, moves, derived, total int
		for a := range jobs {
			for i, k := 0, rapid.IntRange(1, 6).Draw(rt, "transactions"); i < k; i++ {
				j := job{within(rt, "kind", 3), rapid.IntRange(0, 4).Draw(rt, "fail") == 0}
				jobs[a] = append(jobs[a], j)
				total++
				if !j.fail {
					switch j.kind {
					case 0:
						incs++
					case 1:
						moves++
					case 2:
						derived++
					}
				}
			}
		}
		refused := errors.New("refused")
		var wg sync.WaitGroup
		var mu sync.Mutex
		var problems []string
		var addrs []string
		for a := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, j := range jobs[a] {
					res, err := rm.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
						var err error
						var res interface{}
						switch j.kind {
						case 0:
							err = rm.MarketRepository().UpdateMarket(ctx, 5, func(m *domain.Market) (*domain.Market, error) {
								m.FixedFee.BaseFee++
								return m, nil
							})
						case 1:
							from, to := ids[a%2], ids[(a+1)%2]
							if err = rm.TradeRepository().UpdateTrade(ctx, &from, func(t *domain.Trade) (*domain.Trade, error) {
								t.ExpiryTime--
								t.SettlementTime++
								return t, nil
							}); err == nil {
								err = rm.TradeRepository().UpdateTrade(ctx, &to, func(t *domain.Trade) (*domain.Trade, error) {
									t.ExpiryTime++
									return t, nil
								})
							}
						case 2:
							err = rm.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
								info, err := v.DeriveNextExternalAddressForAccount(1)
								if err != nil {
									return nil, err
								}
								res = info.Address
								return v, nil
							})
						}
						if err != nil {
							return nil, err
						}
						if j.fail {
							return nil, refused
						}
						return res, nil
					})
					mu.Lock()
					if j.fail && err != refused || !j.fail && err != nil {
						problems = append(problems, fmt.Sprint(j, err))
					}
					if s, ok := res.(string); ok && err == nil {
						addrs = append(addrs, s)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if len(problems) > 0 {
			rt.Fatalf("%v", problems)
		}
		m, err := rm.MarketRepository().GetMarketByAccount(ctx, 5)
		must(err)
		if m.FixedFee.BaseFee != int64(incs) {
			rt.Fatalf("%d increments committed, counter says %d", incs, m.FixedFee.BaseFee)
		}
		var sum, count uint64
		for _, i := range ids {
			tr, err := rm.TradeRepository().GetOrCreateTrade(ctx, &i)
			must(err)
			sum += tr.ExpiryTime
			count += tr.SettlementTime
		}
		if sum != 2000 || count != uint64(moves) {
			rt.Fatalf("%d moves committed, %d counted, total is %d instead of 2000", moves, count, sum)
		}
		sort.Strings(addrs)
		for i := 1; i < len(addrs); i++ {
			if addrs[i] == addrs[i-1] {
				rt.Fatalf("address %s derived twice", addrs[i])
			}
		}
		v, err := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
		must(err)
		if derived > 0 {
			acc, err := v.AccountByIndex(1)
			if err != nil || acc.LastExternalIndex != derived || len(v.AccountAndKeyByAddress) != derived || len(addrs) != derived {
				rt.Fatalf("%d addresses derived: account says %+v (%v), %d known, %d returned", derived, acc, err, len(v.AccountAndKeyByAddress), len(addrs))
			}
		}
		c.NonTrivial("%d actors, %d transactions, %d increments, %d moves, %d addresses", n, total, incs, moves, derived)
	})
}

func copyDir(from, to string) {
	must(filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if info.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(filepath.Join(to, rel))
		if err != nil {
			return err
		}
		defer out.Close()
		_, err = io.Copy(out, in)
		return err
	}))
}

// lastLog is the value log being written to, and its size.
func lastLog(dir string) (string, int64) {
	ls, err := filepath.Glob(filepath.Join(dir, "*.vlog"))
	must(err)
	sort.Strings(ls)
	if len(ls) == 0 {
		return "", 0
	}
	fi, err := os.Stat(ls[len(ls)-1])
	must(err)
	return ls[len(ls)-1], fi.Size()
}

func TestC20Restart(t *testing.T) {
	rule := "a store on disk goes through 1-3 lives of 1-6 steps and transactions, each life ending with a stop, a kill (the directory as it was at that moment is opened), or a kill amid writing the last transaction (its last bytes are missing); after each everything committed is looked for; non-trivial: a killed life with a commit"
	vt.Check(t, 60, 2000, rule, func(rt *rapid.T, c *vt.Case) {
		resetVault()
		root, err := os.MkdirTemp("", "verif-c20-")
		must(err)
		defer os.RemoveAll(root)
		dir := filepath.Join(root, "0")
		must(os.MkdirAll(dir, 0755))
		d := newDB()
		var hist []string
		killed := false
		for life, lives := 0, rapid.IntRange(1, 3).Draw(rt, "lives"); life < lives; life++ {
			rm, err := dbbadger.NewRepoManager(dir, nil)
			if err != nil {
				rt.Fatalf("after %s: cannot open the store: %v", strings.Join(hist, "; "), err)
			}
			fatal := func(err error) {
				if err != nil {
					shut(rm)
					rt.Fatalf("after %s: %v", strings.Join(hist, "; "), err)
				}
			}
			fatal(d.check(rm))
			for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "steps"); i < n; i++ {
				var desc string
				if rapid.Bool().Draw(rt, "transaction") {
					d, desc, err = d.transaction(rt, rm, false)
				} else {
					desc, err = d.step(rt, rm, true)
				}
				hist = append(hist, desc)
				fatal(err)
			}
			fatal(d.check(rm))
			end := rapid.SampledFrom([]string{"stop", "kill", "torn", "torn"}).Draw(rt, "end")
			hist = append(hist, end)
			if end == "stop" {
				shut(rm)
				continue
			}
			killed = true
			next := filepath.Join(root, strconv.Itoa(life+1))
			if end == "kill" {
				copyDir(dir, next)
				shut(rm)
				dir = next
				continue
			}
			log1, before := lastLog(filepath.Join(dir, "main"))
			after, desc, err := d.transaction(rt, rm, false)
			hist = append(hist, desc)
			fatal(err)
			copyDir(dir, next)
			shut(rm)
			dir = next
			log2, size := lastLog(filepath.Join(dir, "main"))
			if filepath.Base(log1) != filepath.Base(log2) || size <= before {
				d = after
				continue
			}
			cut := before + int64(float64(size-before)*float64(rapid.IntRange(0, 1000).Draw(rt, "cut"))/1000)
			must(os.Truncate(log2, cut))
			hist = append(hist, fmt.Sprintf("%d of %d bytes written", cut-before, size-before))
			if rm, err = dbbadger.NewRepoManager(dir, nil); err != nil {
				rt.Fatalf("after %s: cannot open the store: %v", strings.Join(hist, "; "), err)
			}
			e1 := d.check(rm)
			e2 := after.check(rm)
			if e1 != nil && e2 != nil {
				fatal(fmt.Errorf("neither without the last transaction (%v) nor with it (%v)", e1, e2))
			}
			if e2 == nil {
				d = after
			}
			shut(rm)
			c.Class("torn, transaction there: %v", e2 == nil)
		}
		rm, err := dbbadger.NewRepoManager(dir, nil)
		if err != nil {
			rt.Fatalf("after %s: cannot open the store: %v", strings.Join(hist, "; "), err)
		}
		defer shut(rm)
		if err := d.check(rm); err != nil {
			rt.Fatalf("after %s: %v", strings.Join(hist, "; "), err)
		}
		if killed {
			c.NonTrivial("%s", strings.Join(hist, "; "))
		}
	})
}

// crashChild commits one transaction after the other, announcing each once it
// is committed, until somebody kills it.
func crashChild(dir string) {
	rm, err := dbbadger.NewRepoManager(dir, nil)
	must(err)
	size, _ := strconv.Atoi(os.Getenv("VERIF_CRASH_SIZE"))
	pad := strings.Repeat("x", size)
	// what a process does first must not matter to the ones after it
	u := domain.Unspent{TxID: keyOf(0).TxID, Address: addr(0), AssetHash: txlib.Asset(0), Value: 5, Confirmed: true}
	for _, c := range os.Getenv("VERIF_CRASH_ORDER") {
		switch c {
		case 'u':
			must(rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{u}))
			_, err := rm.UnspentRepository().LockUnspents(ctx, []domain.UnspentKey{u.Key()}, id(0))
			must(err)
		case 't':
			tid := id(0)
			_, err := rm.TradeRepository().GetOrCreateTrade(ctx, &tid)
			must(err)
		case 'v':
			resetVault()
			_, err := rm.VaultRepository().GetOrCreateVault(ctx, txlib.Mnemonic(1), "pass", &network.Regtest)
			must(err)
		case 'p':
			must(rm.MarketRepository().UpdatePrices(ctx, 5, domain.Prices{}))
		}
	}
	_, err = rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: 5, Fee: 25})
	must(err)
	for i := 1; i < 2000; i++ {
		_, err := rm.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
			for k := 0; k < 3; k++ {
				tid := id(k)
				if _, err := rm.TradeRepository().GetOrCreateTrade(ctx, &tid); err != nil {
					return nil, err
				}
				if err := rm.TradeRepository().UpdateTrade(ctx, &tid, func(t *domain.Trade) (*domain.Trade, error) {
					t.ExpiryTime, t.PsetBase64 = uint64(i), pad
					return t, nil
				}); err != nil {
					return nil, err
				}
			}
			return nil, rm.MarketRepository().UpdateMarket(ctx, 5, func(m *domain.Market) (*domain.Market, error) {
				m.FixedFee.BaseFee = int64(i)
				return m, nil
			})
		})
		must(err)
		fmt.Println("t", i)
		must(rm.MarketRepository().UpdatePrices(ctx, 5, domain.Prices{BasePrice: decimal.NewFromInt(int64(i)), QuotePrice: decimal.NewFromInt(int64(i))}))
		fmt.Println("p", i)
	}
}

func TestC20Kill(t *testing.T) {
	rule := "a process committing transactions over three trades and a market, and prices, is killed at a random moment after 1-15 of them; non-trivial: always"
	vt.Check(t, 15, 500, rule, func(rt *rapid.T, c *vt.Case) {
		root, err := os.MkdirTemp("", "verif-c20k-")
		must(err)
		defer os.RemoveAll(root)
		n := rapid.IntRange(1, 15).Draw(rt, "acknowledged")
		wait := time.Duration(rapid.IntRange(0, 3000).Draw(rt, "microseconds")) * time.Microsecond
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CRASH_DIR="+root, fmt.Sprintf("VERIF_CRASH_SIZE=%d", rapid.SampledFrom([]int{10, 20000, 400000}).Draw(rt, "size")))
		order := rapid.SampledFrom([]string{"utvp", "tuvp", "vptu", "pvut", "vutp"}).Draw(rt, "order")
		cmd.Env = append(cmd.Env, "VERIF_CRASH_ORDER="+order)
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		seen := map[string]int{}
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			var what string
			var i int
			if k, _ := fmt.Sscan(sc.Text(), &what, &i); k == 2 {
				seen[what] = i
			}
			if seen["t"] == n && wait >= 0 {
				time.Sleep(wait)
				cmd.Process.Kill()
				wait = -1
			}
		}
		cmd.Wait()
		if seen["t"] < n {
			panic(fmt.Sprintf("[verif-error] the process stopped after %v", seen))
		}
		rm, err := dbbadger.NewRepoManager(root, nil)
		if err != nil {
			rt.Fatalf("killed after %v: cannot open the store: %v", seen, err)
		}
		defer shut(rm)
		var got []uint64
		for k := 0; k < 3; k++ {
			tid := id(k)
			tr, err := rm.TradeRepository().GetOrCreateTrade(ctx, &tid)
			must(err)
			got = append(got, tr.ExpiryTime)
		}
		m, err := rm.MarketRepository().GetMarketByAccount(ctx, 5)
		if err != nil || m == nil {
			rt.Fatalf("killed after %v: market lost: %v", seen, err)
		}
		i := uint64(m.FixedFee.BaseFee)
		if got[0] != i || got[1] != i || got[2] != i {
			rt.Fatalf("killed after %v: half a transaction is there: trades %v, market %d", seen, got, i)
		}
		if int(i) < seen["t"] || int(i) > seen["t"]+1 {
			rt.Fatalf("killed after %v: transactions up to %d are there", seen, i)
		}
		if p := m.Price.BasePrice.IntPart(); !m.Price.BasePrice.Equal(m.Price.QuotePrice) || int(p) < seen["p"] || int(p) > seen["p"]+1 {
			rt.Fatalf("killed after %v: prices %v are there", seen, m.Price)
		}
		u := domain.Unspent{TxID: keyOf(0).TxID, Address: addr(0), AssetHash: txlib.Asset(0), Value: 5, Confirmed: true}
		must(rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{u}))
		if got, err := rm.UnspentRepository().GetUnspentWithKey(ctx, u.Key()); err != nil || got == nil || !got.Locked || got.LockedBy == nil || *got.LockedBy != id(0) {
			rt.Fatalf("killed after %v: reservation lost: %+v (%v)", seen, got, err)
		}
		c.NonTrivial("killed after %v: found transaction %d", seen, i)
	})
}

// A transaction that loses against others however many times in a row is still
// done, exactly once, on top of what the others wrote.
func TestC20Contended(t *testing.T) {
	rule := "a transaction of one of 4 kinds that loses against 0-16 others in a row before it can commit; non-trivial: it loses 4 times or more"
	vt.Check(t, 12, 300, rule, func(rt *rapid.T, c *vt.Case) {
		rm, err := dbbadger.NewRepoManager("", nil)
		must(err)
		defer shut(rm)
		i := id(1)
		_, err = rm.TradeRepository().GetOrCreateTrade(ctx, &i)
		must(err)
		k := domain.MarketAccountStart
		_, err = rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: k, Fee: 25})
		must(err)
		u := genUnspent(rt, 1)
		u.Spent, u.Confirmed = false, false
		us := newUtxoModel()
		us.add([]domain.Unspent{u})
		must(rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{u}))
		type run = func(context.Context, bool, func(context.Context) (interface{}, error)) (interface{}, error)
		kinds := []struct {
			name string
			run  run
			bump func(ctx context.Context, who int) error
		}{
			{"trade", rm.RunTransaction, func(ctx context.Context, who int) error {
				return rm.TradeRepository().UpdateTrade(ctx, &i, func(t *domain.Trade) (*domain.Trade, error) {
					t.ExpiryTime++
					t.TxID = fmt.Sprint(who)
					return t, nil
				})
			}},
			{"market", rm.RunTransaction, func(ctx context.Context, who int) error {
				return rm.MarketRepository().UpdateMarket(ctx, k, func(m *domain.Market) (*domain.Market, error) {
					m.FixedFee.BaseFee++
					m.FixedFee.QuoteFee = int64(who)
					return m, nil
				})
			}},
			{"unspent", rm.RunUnspentsTransaction, func(ctx context.Context, who int) error {
				if us := rm.UnspentRepository().GetAllUnspents(ctx); len(us) < 1 {
					return fmt.Errorf("no unspent found")
				}
				v := u
				v.VOut += uint32(10 + who)
				if err := rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{v}); err != nil {
					return err
				}
				_, err := rm.UnspentRepository().ConfirmUnspents(ctx, []domain.UnspentKey{u.Key()})
				return err
			}},
			{"price", rm.RunPricesTransaction, func(ctx context.Context, who int) error {
				m, err := rm.MarketRepository().GetMarketByAccount(ctx, k)
				if err != nil {
					return err
				}
				p := domain.Prices{BasePrice: m.Price.BasePrice.Add(decimal.NewFromInt(1)), QuotePrice: decimal.NewFromInt(int64(who))}
				return rm.MarketRepository().UpdatePrices(ctx, k, p)
			}},
		}
		kind := kinds[within(rt, "kind", len(kinds))]
		losses := rapid.IntRange(0, 16).Draw(rt, "losses")
		fail := rapid.IntRange(0, 4).Draw(rt, "fail") == 0
		refused := errors.New("refused")
		lost, attempts := 0, 0
		res, e := kind.run(ctx, false, func(ctx context.Context) (interface{}, error) {
			attempts++
			if err := kind.bump(ctx, 1000); err != nil {
				return nil, err
			}
			if lost < losses {
				lost++
				if _, err := kind.run(context.Background(), false, func(ctx context.Context) (interface{}, error) {
					return nil, kind.bump(ctx, lost)
				}); err != nil {
					return nil, err
				}
				return nil, nil
			}
			if fail {
				return nil, refused
			}
			return attempts, nil
		})
		if fail && e != refused || !fail && (e != nil || res != attempts) {
			rt.Fatalf("%s transaction after %d losses, fail=%v: %v, %v", kind.name, lost, fail, res, e)
		}
		n, who := lost, lost
		if !fail {
			n, who = n+1, 1000
		}
		if lost != losses {
			rt.Fatalf("%s transaction ended after %d of %d conflicts", kind.name, lost, losses)
		}
		var got, want string
		switch kind.name {
		case "trade":
			x, err := rm.TradeRepository().GetOrCreateTrade(ctx, &i)
			must(err)
			got, want = fmt.Sprint(x.ExpiryTime, " ", x.TxID), fmt.Sprint(n, " ", who)
			if n == 0 {
				want = "0 "
			}
		case "market":
			x, err := rm.MarketRepository().GetMarketByAccount(ctx, k)
			must(err)
			got, want = fmt.Sprint(x.FixedFee.BaseFee, x.FixedFee.QuoteFee), fmt.Sprint(n, who)
		case "price":
			x, err := rm.MarketRepository().GetMarketByAccount(ctx, k)
			must(err)
			got, want = fmt.Sprint(x.Price.BasePrice, x.Price.QuotePrice), fmt.Sprint(n, who)
		case "unspent":
			for w := 1; w <= lost; w++ {
				v := u
				v.VOut += uint32(10 + w)
				us.add([]domain.Unspent{v})
			}
			if !fail {
				v := u
				v.VOut += 1010
				us.add([]domain.Unspent{v})
			}
			if n > 0 {
				us.confirm([]domain.UnspentKey{u.Key()})
			}
			if err := us.check(rm.UnspentRepository(), []string{addr(0), addr(2)}); err != nil {
				rt.Fatalf("after %d conflicts (fail=%v): %v", lost, fail, err)
			}
		}
		if got != want {
			rt.Fatalf("%s after %d conflicts (fail=%v): %s, want %s", kind.name, lost, fail, got, want)
		}
		c.Class(kind.name)
		if lost >= 4 {
			c.NonTrivial("%s, %d conflicts, fail=%v", kind.name, lost, fail)
		}
	})
}
