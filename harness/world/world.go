//go:build go1.23

package world

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
)

// Pass is the passphrase worlds are initialised with.
const Pass = "correct horse"

// Base is the base asset of all markets.
var Base = txlib.Net.AssetID

// Opts configures a world.
type Opts struct {
	InMemory  bool // use the in-memory repositories instead of badger
	Seed      int  // which mnemonic
	Expiry    time.Duration
	Slippage  string
	MarketFee int64
	PubSub    ports.SecurePubSub
	Bare      bool // do not initialise nor unlock the wallet
	Storage   ports.RepoManager
	Chain     *Chain
	Shape     int // of deposits: +1 several coins per address, +2 several coins per transaction
}

// World is a daemon (application layer and below) on a simulated chain. It
// lives in a synctest bubble: time is fake and Settle waits for all the
// daemon's background work.
type World struct {
	T        *rapid.T
	Opts     Opts
	RM       *RM
	Chain    *Chain
	Crawler  *Crawler
	Listener application.BlockchainListener
	Trade    application.TradeService
	Operator application.OperatorService
	Wallet   application.WalletService
	HD       *txlib.HD
	Mnemonic []string
	Slippage decimal.Decimal
	Keys     *MnemonicStore
	// Passphrases are the messages of the wallet to the other services.
	Passphrases []application.PassphraseMsg
	markets     int
	done        chan struct{}
	wg          sync.WaitGroup
}

// Ctx is the context of all calls.
var Ctx = context.Background()

// In runs prop inside a bubble with a world that is torn down afterwards.
func In(rt *rapid.T, o Opts, prop func(rt *rapid.T, w *World)) {
	rapid.SyncTest(rt, func(rt *rapid.T) {
		w := New(rt, o)
		defer w.Close()
		prop(rt, w)
		w.Settle()
	})
}

// New builds the services; must be called inside a bubble.
func New(rt *rapid.T, o Opts) *World {
	if o.Expiry == 0 {
		o.Expiry = time.Hour
	}
	if o.Slippage == "" {
		o.Slippage = "0.05"
	}
	w := &World{T: rt, Opts: o, Chain: o.Chain, done: make(chan struct{})}
	if w.Chain == nil {
		w.Chain = NewChain("w")
	}
	w.Slippage = decimal.RequireFromString(o.Slippage)
	w.Mnemonic = txlib.Mnemonic(o.Seed)
	w.HD = txlib.NewHD(w.Mnemonic)
	w.Chain.Mine = func(s string) []byte {
		if _, k := w.HD.Find(s, 12, 60); k != nil {
			return k.Blind.Serialize()
		}
		return nil
	}
	w.Keys = &MnemonicStore{}
	domain.MnemonicStoreManager = w.Keys
	domain.EncrypterManager = FastCipher{}
	inner := o.Storage
	if inner == nil {
		inner = NewStorage(o.InMemory)
	}
	w.RM = &RM{inner: inner}
	w.Crawler = &Crawler{ch: make(chan crawler.Event, 100), Observed: map[string]crawler.Observable{}}
	w.start()
	if !o.Bare {
		w.Init(false)
		w.Unlock()
	}
	return w
}

// Restart stops the daemon and starts it again on the same storage and chain;
// it comes up locked.
func (w *World) Restart() {
	w.Settle()
	w.Crawler.stop()
	close(w.done)
	w.wg.Wait()
	w.Settle()
	inner := w.RM.Detach()
	w.done = make(chan struct{})
	w.Keys = &MnemonicStore{}
	domain.MnemonicStoreManager = w.Keys
	w.RM = &RM{inner: inner}
	w.Crawler = &Crawler{ch: make(chan crawler.Event, 100), Observed: map[string]crawler.Observable{}}
	w.start()
	w.Settle()
}

// NewStorage opens an empty, memory-only storage.
func NewStorage(inMemory bool) ports.RepoManager {
	if inMemory {
		return inmemory.NewRepoManager()
	}
	r, err := dbbadger.NewRepoManager("", nil)
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
	return r
}

func (w *World) start() {
	var ps ports.SecurePubSub
	if w.Opts.PubSub != nil {
		ps = w.Opts.PubSub
	}
	w.Listener = application.NewBlockchainListener(w.Crawler, w.RM, ps, Base, txlib.Net)
	w.Trade = application.NewTradeService(w.RM, w.Chain, w.Listener, Base, w.Opts.Expiry, w.Slippage, txlib.Net)
	w.Operator = application.NewOperatorService(w.RM, w.Chain, w.Listener, Base, w.Opts.MarketFee, txlib.Net, 1000)
	ws, err := application.NewWalletService(w.RM, w.Chain, w.Listener, txlib.Net, w.Opts.MarketFee, Base)
	if err != nil {
		panic("[verif-error] new wallet service: " + err.Error())
	}
	w.Wallet = ws
	ch := ws.PassphraseChan()
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		for {
			select {
			case m := <-ch:
				w.Keys.mu.Lock()
				w.Passphrases = append(w.Passphrases, m)
				w.Keys.mu.Unlock()
			case <-w.done:
				return
			}
		}
	}()
}

// InitWith runs InitWallet and gives its errors.
func (w *World) InitWith(mnemonic []string, pass string, restore bool) []error {
	res, errs := make(chan *application.InitWalletReply), make(chan error, 10)
	go w.Wallet.InitWallet(Ctx, mnemonic, pass, restore, res, errs)
	var list []error
	for res != nil || errs != nil {
		select {
		case _, ok := <-res:
			if !ok {
				res = nil
			}
		case e, ok := <-errs:
			if !ok {
				errs = nil
			} else if e != nil {
				list = append(list, e)
			}
		}
	}
	w.Settle()
	return list
}

// Init initialises the wallet with the world's mnemonic.
func (w *World) Init(restore bool) {
	if errs := w.InitWith(w.Mnemonic, Pass, restore); len(errs) > 0 {
		w.T.Fatalf("init wallet: %v", errs)
	}
}

// Unlock unlocks it.
func (w *World) Unlock() {
	if err := w.Wallet.UnlockWallet(Ctx, Pass); err != nil {
		w.T.Fatalf("unlock wallet: %v", err)
	}
	w.Settle()
}

// Settle waits until the daemon has nothing left to do but wait.
func (w *World) Settle() { synctest.Wait() }

// Advance lets time pass.
func (w *World) Advance(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// Close stops everything in the bubble.
func (w *World) Close() {
	w.Settle()
	w.Crawler.stop()
	close(w.done)
	w.wg.Wait()
	w.RM.kill()
	time.Sleep(w.Opts.Expiry + 2*time.Minute) // let the expiry timers of the trades run out
}

// deposit pays to the given addresses, in the shape of the world's deposits.
func (w *World) deposit(addrs []application.AddressAndBlindingKey, pays []Pay) []application.TxOutpoint {
	for i := range pays {
		j := i
		if w.Opts.Shape&1 != 0 {
			j = i / 3
		}
		pays[i].Key = w.KeyOf(addrs[j].Address)
	}
	ops := []application.TxOutpoint{}
	add := func(p ...Pay) {
		for _, c := range w.Chain.Fund(true, p...) {
			ops = append(ops, application.TxOutpoint{Hash: c.TxID, Index: int(c.Vout)})
		}
	}
	if w.Opts.Shape&2 != 0 {
		add(pays...)
	} else {
		for _, p := range pays {
			add(p)
		}
	}
	return ops
}

// CreateMarket makes a market funded with the given coins; it is left closed
// and balanced.
func (w *World) CreateMarket(quote string, baseCoins, quoteCoins []uint64) application.Market {
	n := len(baseCoins) + len(quoteCoins)
	addrs, err := w.Operator.DepositMarket(Ctx, "", "", n)
	if err != nil {
		w.T.Fatalf("deposit market: %v", err)
	}
	w.Settle()
	pays := []Pay{}
	for i := range addrs {
		p := Pay{Asset: Base, Confidential: i%2 == 0}
		if i < len(baseCoins) {
			p.Value = baseCoins[i]
		} else {
			p.Value, p.Asset = quoteCoins[i-len(baseCoins)], quote
		}
		pays = append(pays, p)
	}
	ops := w.deposit(addrs, pays)
	m := application.Market{BaseAsset: Base, QuoteAsset: quote}
	if err := w.Operator.ClaimMarketDeposit(Ctx, m, ops); err != nil {
		w.T.Fatalf("claim market deposit: %v", err)
	}
	w.Settle()
	return m
}

// FundFee deposits and claims coins for the fee account.
func (w *World) FundFee(coins ...uint64) {
	addrs, err := w.Operator.DepositFeeAccount(Ctx, len(coins))
	if err != nil {
		w.T.Fatalf("deposit fee account: %v", err)
	}
	w.Settle()
	pays := []Pay{}
	for i := range addrs {
		pays = append(pays, Pay{Asset: Base, Value: coins[i], Confidential: i%2 == 1})
	}
	ops := w.deposit(addrs, pays)
	if err := w.Operator.ClaimFeeDeposit(Ctx, ops); err != nil {
		w.T.Fatalf("claim fee deposit: %v", err)
	}
	w.Settle()
}

// Open opens a market.
func (w *World) Open(m application.Market) {
	if err := w.Operator.OpenMarket(Ctx, m.BaseAsset, m.QuoteAsset); err != nil {
		w.T.Fatalf("open market: %v", err)
	}
}

// Pluggable makes a market operator-priced.
func (w *World) Pluggable(m application.Market, basePrice, quotePrice string) {
	if err := w.Operator.UpdateMarketStrategy(Ctx, application.MarketStrategy{Market: m, Strategy: domain.StrategyTypePluggable}); err != nil {
		w.T.Fatalf("update strategy: %v", err)
	}
	if err := w.Operator.UpdateMarketPrice(Ctx, application.MarketWithPrice{Market: m, Price: application.Price{
		BasePrice: decimal.RequireFromString(basePrice), QuotePrice: decimal.RequireFromString(quotePrice),
	}}); err != nil {
		w.T.Fatalf("update price: %v", err)
	}
}

// KeyOf finds the wallet key of a confidential address; it fails if the
// wallet does not own it.
func (w *World) KeyOf(addr string) *txlib.Key {
	script, err := scriptOf(addr)
	if err != nil {
		w.T.Fatalf("bad address %q: %v", addr, err)
	}
	_, k := w.HD.Find(hex.EncodeToString(script), 12, 60)
	if k == nil {
		w.T.Fatalf("address %q is not one of the wallet's", addr)
	}
	return k
}

// Account tells the account owning a script, -1 if none.
func (w *World) Account(script string) int {
	id, _ := w.HD.Find(script, 12, 60)
	return id[0]
}

// Unspents lists what the daemon's store holds.
func (w *World) Unspents() []domain.Unspent {
	return w.RM.UnspentRepository().GetAllUnspents(Ctx)
}

// MnemonicStore is a plain domain.MnemonicStore.
type MnemonicStore struct {
	mu sync.Mutex
	m  string
}

func (s *MnemonicStore) Set(m string) { s.mu.Lock(); s.m = m; s.mu.Unlock() }
func (s *MnemonicStore) Unset()       { s.Set("") }
func (s *MnemonicStore) IsSet() bool  { s.mu.Lock(); defer s.mu.Unlock(); return s.m != "" }
func (s *MnemonicStore) Get() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == "" {
		return nil
	}
	return strings.Split(s.m, " ")
}

// FastCipher stands in for the (deliberately slow) passphrase encryption.
type FastCipher struct{}

func pad(pass string, n int) []byte {
	out := []byte{}
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", i, pass)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// Encrypt implements domain.Encrypter.
func (FastCipher) Encrypt(text, pass string) (string, error) {
	if text == "" || pass == "" {
		return "", errors.New("null text or passphrase")
	}
	b := append(pad("tag"+pass, 16), []byte(text)...)
	k := pad(pass, len(b))
	for i := range b {
		b[i] ^= k[i]
	}
	return base64.StdEncoding.EncodeToString(b), nil
}

// Decrypt implements domain.Encrypter.
func (FastCipher) Decrypt(text, pass string) (string, error) {
	b, err := base64.StdEncoding.DecodeString(text)
	if err != nil || len(b) < 17 || pass == "" {
		return "", errors.New("invalid cypher text")
	}
	k := pad(pass, len(b))
	for i := range b {
		b[i] ^= k[i]
	}
	if string(b[:16]) != string(pad("tag"+pass, 16)) {
		return "", errors.New("wrong passphrase")
	}
	return string(b[16:]), nil
}

// Crawler records what the daemon observes; the check emits the events.
type Crawler struct {
	mu       sync.Mutex
	ch       chan crawler.Event
	Observed map[string]crawler.Observable
	Added    []string
	Removed  []string
	Started  int
}

// Start implements crawler.Service.
func (c *Crawler) Start() { c.mu.Lock(); c.Started++; c.mu.Unlock() }

// Stop implements crawler.Service.
func (c *Crawler) Stop() { c.ch <- crawler.CloseEvent{} }

func (c *Crawler) stop() {
	c.mu.Lock()
	s := c.Started > 0
	c.mu.Unlock()
	if s {
		c.ch <- crawler.CloseEvent{}
	}
}

// AddObservable implements crawler.Service.
func (c *Crawler) AddObservable(o crawler.Observable) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Observed[o.Key()] = o
	c.Added = append(c.Added, o.Key())
}

// RemoveObservable implements crawler.Service.
func (c *Crawler) RemoveObservable(o crawler.Observable) {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.Observed, o.Key())
	c.Removed = append(c.Removed, o.Key())
}

// IsObservingAddresses implements crawler.Service.
func (c *Crawler) IsObservingAddresses(a []string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range a {
		if c.Observed[x] == nil {
			return false
		}
	}
	return true
}

// GetEventChannel implements crawler.Service.
func (c *Crawler) GetEventChannel() chan crawler.Event { return c.ch }

// Watching tells whether a transaction or address is observed.
func (c *Crawler) Watching(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.Observed[key] != nil
}

// Confirmed emits the confirmation of a transaction as the crawler would.
func (w *World) Confirmed(txid string) {
	t := w.Chain.Confirm(txid)
	w.Emit(crawler.TransactionEvent{
		EventType: crawler.TransactionConfirmed, TxID: txid, TxHex: t.Hex,
		BlockHash: hex.EncodeToString(txlib.H(t.BlockTime)), BlockTime: float64(t.BlockTime),
	})
}

// Emit sends an event and waits for it to be processed.
func (w *World) Emit(e crawler.Event) {
	w.Crawler.ch <- e
	w.Settle()
}
