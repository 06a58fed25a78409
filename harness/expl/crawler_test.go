//go:build go1.23

package expl

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
)

// watched is an address or transaction with what the explorer says of it.
type watched struct {
	key     string
	tx      bool
	account int // of the observable in charge
	blind   string
	// version changes with the chain state of the key.
	version   int
	confirmed bool
	failing   bool
	hexFails  bool

	observed bool
	added    time.Time
	removals int
	// calls and good ones since the key was last added, and in all.
	calls, callsAll int
	good            map[int]int // by version
	goodAll         int
	events          int // since it was last added
	eventsAll       int
	lastEvent       int // version
	// callsAtRemoval and eventsAtRemoval are set when it's removed.
	callsAtRemoval, eventsAtRemoval int
	everFailed                      bool
}

// watch is the explorer, the listener and the reference of the crawler.
type watch struct {
	*story
	explorer.Service // any other method is not expected
	mu               sync.Mutex
	keys             []*watched
	byKey            map[string]*watched
	delay            time.Duration
	nerr             int
	injected         map[string]bool
	reported         map[string]int
	other            []string
	wrong            string // what the reference complains of
	paused           bool
	slow             time.Duration
	closed           int
	autoRemove       bool
	svc              crawler.Service
	stopped          bool
	afterClose       int
	versions         int
}

func (w *watch) blame(f string, a ...interface{}) {
	if w.wrong == "" {
		w.wrong = fmt.Sprintf(f, a...)
	}
}

func (w *watch) wait() {
	w.mu.Lock()
	d := w.delay
	w.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}

func (w *watch) fail(k *watched) error {
	w.nerr++
	k.everFailed = true
	e := fmt.Sprintf("explorer failure %d of %s", w.nerr, k.key)
	w.injected[e] = true
	return fmt.Errorf("%s", e)
}

// GetUnspents implements explorer.Service.
func (w *watch) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	w.mu.Lock()
	k := w.byKey[addr]
	if k == nil || k.tx {
		w.blame("outputs of the unknown address %s asked", addr)
		w.mu.Unlock()
		return nil, fmt.Errorf("unknown")
	}
	k.calls++
	k.callsAll++
	if len(keys) != 1 || string(keys[0]) != k.blind {
		w.blame("outputs of %s asked with blinding keys %q, want %q", addr, keys, k.blind)
	}
	w.mu.Unlock()
	w.wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if k.failing {
		return nil, w.fail(k)
	}
	k.good[k.version]++
	k.goodAll++
	return k.utxos(), nil
}

func (k *watched) utxos() []explorer.Utxo {
	list := make([]explorer.Utxo, 0)
	for i := 0; i < k.version%4; i++ {
		list = append(list, esplora.NewUnconfidentialWitnessUtxo(
			fmt.Sprintf("%064x", k.version), uint32(i), uint64(k.version*10+i), k.key, nil,
		))
	}
	return list
}

// GetTransactionStatus implements explorer.Service.
func (w *watch) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	w.mu.Lock()
	k := w.byKey[txid]
	if k == nil || !k.tx {
		w.blame("status of the unknown transaction %s asked", txid)
		w.mu.Unlock()
		return nil, fmt.Errorf("unknown")
	}
	k.calls++
	k.callsAll++
	w.mu.Unlock()
	w.wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if k.failing {
		return nil, w.fail(k)
	}
	k.good[k.version]++
	k.goodAll++
	return k.status(), nil
}

func (k *watched) status() map[string]interface{} {
	s := map[string]interface{}{"confirmed": k.confirmed}
	if k.confirmed {
		s["block_hash"] = fmt.Sprintf("block%d", k.version)
		s["block_height"] = float64(100 + k.version)
		s["block_time"] = float64(1000000 + k.version)
	}
	return s
}

// GetTransactionHex implements explorer.Service.
func (w *watch) GetTransactionHex(txid string) (string, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := w.byKey[txid]
	if k == nil || !k.tx {
		w.blame("hex of the unknown transaction %s asked", txid)
		return "", fmt.Errorf("unknown")
	}
	if k.hexFails {
		return "", w.fail(k)
	}
	return "hex of " + txid, nil
}

// handle is the error handler.
func (w *watch) handle(err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if err == nil {
		w.blame("nil error reported")
		return
	}
	w.reported[err.Error()]++
	if !w.injected[err.Error()] && !strings.Contains(err.Error(), "circuit breaker") && !strings.Contains(err.Error(), "too many requests") {
		w.blame("error reported that never happened: %v", err)
	}
}

// listen consumes the events as the daemon does.
func (w *watch) listen() {
	for {
		for {
			w.mu.Lock()
			p := w.paused
			w.mu.Unlock()
			if !p {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		ev := <-w.svc.GetEventChannel()
		w.mu.Lock()
		remove := w.event(ev)
		slow := w.slow
		w.mu.Unlock()
		if ev.Type() == crawler.CloseSignal {
			return
		}
		if remove != nil {
			w.svc.RemoveObservable(&crawler.TransactionObservable{TxID: remove.key})
			w.mu.Lock()
			w.gone(remove)
			w.mu.Unlock()
		}
		if slow > 0 {
			time.Sleep(slow)
		}
	}
}

// event judges one; it returns the key to remove, if any.
func (w *watch) event(ev crawler.Event) *watched {
	if w.closed > 0 {
		w.blame("event %+v after the closing one", ev)
	}
	switch e := ev.(type) {
	case crawler.CloseEvent:
		w.closed++
		if !w.stopped {
			w.blame("closing event before stop")
		}
	case crawler.AddressEvent:
		k := w.byKey[e.Address]
		if k == nil || k.tx {
			w.blame("event for the unknown address %s", e.Address)
			return nil
		}
		k.events++
		k.eventsAll++
		v := -1
		for i := range k.good {
			k2 := *k
			k2.version = i
			if fmt.Sprint(e.Utxos) == fmt.Sprint(k2.utxos()) && i > v {
				v = i
			}
		}
		if v < 0 {
			w.blame("outputs %v reported for %s, never told by the explorer", e.Utxos, k.key)
		}
		// versions without outputs are all alike: the highest is taken
		if v < k.lastEvent && v%4 != 0 {
			w.blame("outputs of an older state (%d after %d) reported for %s", v, k.lastEvent, k.key)
		}
		if v > k.lastEvent && v%4 != 0 {
			k.lastEvent = v
		}
		if e.AccountIndex != k.account {
			w.blame("address %s of account %d reported for account %d", k.key, k.account, e.AccountIndex)
		}
		want := crawler.MarketAccountDeposit
		if k.account == 0 {
			want = crawler.FeeAccountDeposit
		}
		if e.EventType != want {
			w.blame("address of account %d reported as %v", k.account, e.EventType)
		}
	case crawler.TransactionEvent:
		k := w.byKey[e.TxID]
		if k == nil || !k.tx {
			w.blame("event for the unknown transaction %s", e.TxID)
			return nil
		}
		k.events++
		k.eventsAll++
		if e.TxHex != "hex of "+e.TxID {
			w.blame("transaction %s reported with hex %q", e.TxID, e.TxHex)
		}
		switch e.EventType {
		case crawler.TransactionConfirmed:
			v := int(e.BlockTime) - 1000000
			if k.good[v] == 0 || e.BlockHash != fmt.Sprintf("block%d", v) {
				w.blame("transaction %s reported confirmed in block %q at %v, never told by the explorer", e.TxID, e.BlockHash, e.BlockTime)
			}
			if v < k.lastEvent {
				w.blame("older state (%d after %d) of transaction %s reported", v, k.lastEvent, e.TxID)
			}
			k.lastEvent = v
			if w.autoRemove && k.observed {
				return k
			}
		case crawler.TransactionUnConfirmed:
			if e.BlockHash != "" || e.BlockTime != 0 {
				w.blame("unconfirmed transaction %s reported with block %q at %v", e.TxID, e.BlockHash, e.BlockTime)
			}
			told := false
			for v := range k.good {
				told = told || k.versionUnconfirmed(v)
			}
			if !told {
				w.blame("transaction %s reported unconfirmed, never told by the explorer", e.TxID)
			}
		default:
			w.blame("transaction %s reported as %v", e.TxID, e.EventType)
		}
	default:
		w.blame("event %T", ev)
	}
	return nil
}

// versionUnconfirmed: the state of a transaction is confirmed in odd versions.
func (k *watched) versionUnconfirmed(v int) bool { return v%2 == 0 }

func (w *watch) gone(k *watched) {
	if !k.observed {
		return
	}
	k.observed = false
	k.removals++
	k.callsAtRemoval, k.eventsAtRemoval = k.callsAll, k.eventsAll
}

func (w *watch) observable(k *watched) crawler.Observable {
	if k.tx {
		return crawler.NewTransactionObservable(k.key)
	}
	return crawler.NewAddressObservable(k.account, k.key, []byte(k.blind))
}

func (w *watch) add(k *watched) {
	w.mu.Lock()
	o := w.observable(k)
	if !k.observed && !w.stopped {
		k.observed = true
		k.added = time.Now()
		k.calls, k.events = 0, 0
		k.everFailed = k.failing || k.hexFails
	}
	w.mu.Unlock()
	w.svc.AddObservable(o)
}

func (w *watch) remove(k *watched) {
	w.mu.Lock()
	o := w.observable(k)
	w.mu.Unlock()
	w.svc.RemoveObservable(o)
	w.mu.Lock()
	w.gone(k)
	w.mu.Unlock()
}

// change gives the key a new chain state.
func (w *watch) change(k *watched) {
	w.mu.Lock()
	w.versions++
	k.version = w.versions
	if k.tx {
		w.versions++
		k.confirmed = k.version%2 == 1
	}
	w.mu.Unlock()
}

// check fails if anything was wrong so far.
func (w *watch) check() {
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.wrong != "" {
		w.fatalf("%s", w.wrong)
	}
	for _, k := range w.keys {
		if k.observed {
			continue
		}
		// what is under way at each removal may end later
		if k.callsAll > k.callsAtRemoval+k.removals {
			w.fatalf("%s still checked after removal: %d times", k.key, k.callsAll-k.callsAtRemoval)
		}
	}
	for e, n := range w.reported {
		if w.injected[e] && n > 1 {
			w.fatalf("%q reported %d times", e, n)
		}
	}
}

func TestC30Crawler(t *testing.T) {
	rule := "histories of 6-30 steps over 5 addresses and 3 transactions: adding (also twice, after removal, many at once), removing (also right after adding, and by the listener), new chain states, failures and slowness of the explorer, a listener that pauses or is slow, stop in any of these states; then everything checked against the explorer's log; non-trivial: >= 2 keys observed and one of a failure, removal, pause or concurrent change"
	vt.Check(t, 1500, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		// A lock held while everybody waits for it stops virtual time as well.
		hang := time.AfterFunc(vt.HangLimit, func() { panic("the crawler is stuck: deadlock") })
		defer hang.Stop()
		rapid.SyncTest(rt, func(rt *rapid.T) { crawl(rt, c) })
	})
}

func crawl(rt *rapid.T, c *vt.Case) {
	w := &watch{
		story: &story{rt: rt}, byKey: map[string]*watched{},
		injected: map[string]bool{}, reported: map[string]int{},
	}
	for i := 0; i < 8; i++ {
		k := &watched{key: fmt.Sprintf("address%d", i), good: map[int]int{}}
		if i >= 5 {
			k.key, k.tx = fmt.Sprintf("tx%d", i), true
		} else {
			k.account = within(rt, "account", 4)
			k.blind = fmt.Sprintf("blinding key %d", i)
		}
		w.keys = append(w.keys, k)
		w.byKey[k.key] = k
	}
	interval := []time.Duration{time.Second, 100 * time.Millisecond, 5 * time.Second}[within(rt, "interval", 3)]
	limit := []int{10, 1, 1000}[within(rt, "limit", 3)]
	burst := 1 + within(rt, "burst", 5)
	w.autoRemove = chance(rt, "autoremove", 40)
	w.svc = crawler.NewService(crawler.Opts{
		ExplorerSvc: w, CrawlerInterval: interval, ExplorerLimit: limit, ExplorerTokenBurst: burst,
		ErrorHandler: w.handle,
	})
	w.did("interval %v, limit %d/s, burst %d, removes confirmed: %v", interval, limit, burst, w.autoRemove)
	go w.svc.Start()
	go w.listen()
	// whatever happens the others end with this one
	stopping := false
	defer func() {
		w.mu.TryLock()
		w.paused, w.slow = false, 0
		w.mu.Unlock()
		if !stopping {
			w.stopped = true
			go w.svc.Stop()
		}
	}()

	pick := func() *watched { return w.keys[within(rt, "key", len(w.keys))] }
	failures, removals, pauses, bursts, settled, abandoned := 0, 0, 0, 0, 0, 0

	// settle: with everything working each observed key is reported.
	settle := func() {
		w.mu.Lock()
		w.paused, w.slow, w.delay = false, 0, 0
		failed := false
		for _, k := range w.keys {
			failed = failed || k.everFailed || k.failing || k.hexFails
			k.failing, k.hexFails = false, false
		}
		every := time.Duration(1000/limit) * time.Millisecond
		bound := 2*interval + time.Duration(2*len(w.keys)+burst+abandoned)*every + 10*time.Second
		if failed {
			bound += 2*time.Minute + bound // the breaker closes again
		}
		w.mu.Unlock()
		time.Sleep(bound)
		w.check()
		w.mu.Lock()
		before := map[*watched]int{}
		obs := map[*watched]bool{}
		for _, k := range w.keys {
			before[k], obs[k] = k.eventsAll, k.observed
		}
		w.mu.Unlock()
		time.Sleep(bound)
		w.check()
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, k := range w.keys {
			n := k.eventsAll - before[k]
			if obs[k] && k.observed {
				settled++
				if n == 0 {
					w.fatalf("%s is observed but not reported in %v", k.key, bound)
				}
				if max := int(bound/interval) + 2; n > max {
					w.fatalf("%s reported %d times in %v with an interval of %v", k.key, n, bound, interval)
				}
				if !k.tx && k.version%4 != 0 && k.lastEvent != k.version {
					w.fatalf("state %d of %s reported last, want %d", k.lastEvent, k.key, k.version)
				}
				if k.tx && k.confirmed && k.lastEvent != k.version {
					w.fatalf("confirmed state %d of %s reported last, want %d", k.lastEvent, k.key, k.version)
				}
			}
			if !obs[k] && !k.observed && n > 0 {
				w.fatalf("%s reported %d times long after it was removed", k.key, n)
			}
			if !k.observed && w.svc.IsObservingAddresses([]string{k.key}) {
				w.fatalf("%s observed after removal", k.key)
			}
			if obs[k] && k.observed && !w.svc.IsObservingAddresses([]string{k.key}) {
				w.fatalf("%s not observed after addition", k.key)
			}
		}
	}

	for n := 6 + within(rt, "steps", 25); n > 0; n-- {
		w.check()
		switch within(rt, "step", 13) {
		case 0, 1, 2:
			k := pick()
			w.did("add %s", k.key)
			w.add(k)
		case 3:
			k := pick()
			w.did("remove %s", k.key)
			if k.observed {
				removals++
				abandoned++
			}
			w.remove(k)
			if chance(rt, "back", 30) {
				w.did("add %s", k.key)
				w.add(k)
			}
		case 4:
			k := pick()
			w.did("add and remove %s", k.key)
			w.add(k)
			w.remove(k)
			removals++
			abandoned++
		case 5:
			// many at once
			w.did("many at once")
			bursts++
			wg := sync.WaitGroup{}
			for i, k := range w.keys {
				op := within(rt, "what", 4)
				if op == 0 {
					continue
				}
				w.txt[len(w.txt)-1] += fmt.Sprintf(" %d:%d", i, op)
				if op > 1 {
					abandoned++
				}
				wg.Add(1)
				go func(k *watched) {
					defer wg.Done()
					if op == 2 {
						w.remove(k)
						return
					}
					w.add(k)
					if op == 3 {
						w.remove(k)
					}
				}(k)
			}
			wg.Wait()
		case 6, 7:
			k := pick()
			w.change(k)
			w.did("state %d of %s", k.version, k.key)
		case 8:
			k := pick()
			on := chance(rt, "fails", 60)
			w.mu.Lock()
			if k.tx && chance(rt, "hex", 30) {
				k.hexFails = on
			} else {
				k.failing = on
			}
			k.everFailed = k.everFailed || on
			w.mu.Unlock()
			w.did("failing %s: %v", k.key, on)
			if on {
				failures++
			}
		case 9:
			w.mu.Lock()
			w.paused = chance(rt, "pause", 50)
			w.slow = []time.Duration{0, 100 * time.Millisecond, 2 * time.Second}[within(rt, "slow", 3)]
			w.delay = []time.Duration{0, 50 * time.Millisecond, 3 * time.Second}[within(rt, "delay", 3)]
			w.did("listener paused: %v, slow: %v, explorer slow: %v", w.paused, w.slow, w.delay)
			if w.paused {
				pauses++
			}
			w.mu.Unlock()
		case 10, 11:
			d := []time.Duration{50 * time.Millisecond, time.Second, 10 * time.Second, time.Minute}[within(rt, "for", 4)]
			d += time.Duration(within(rt, "ms", 1000)) * time.Millisecond
			w.did("%v pass", d)
			time.Sleep(d)
		case 12:
			w.did("settle")
			settle()
		}
	}
	if chance(rt, "settled", 50) {
		w.did("settle")
		settle()
	}
	w.check()

	// stop, while the listener goes on and others may come
	w.did("stop")
	w.mu.Lock()
	w.stopped = true
	concurrent := chance(rt, "concurrent", 40)
	if w.paused && concurrent {
		w.txt[len(w.txt)-1] += " with the listener paused for a while"
		time.AfterFunc(3*time.Second, func() { w.mu.Lock(); w.paused = false; w.mu.Unlock() })
	} else {
		w.paused = false
	}
	observed := 0
	for _, k := range w.keys {
		if k.observed || k.eventsAll > 0 {
			observed++
		}
	}
	w.mu.Unlock()
	wg := sync.WaitGroup{}
	if concurrent {
		for _, k := range w.keys {
			op := within(rt, "what", 3)
			w.txt[len(w.txt)-1] += fmt.Sprintf(" %d", op)
			wg.Add(1)
			go func(k *watched) {
				defer wg.Done()
				if op == 1 {
					w.svc.AddObservable(w.observable(k))
				}
				if op == 2 {
					w.svc.RemoveObservable(w.observable(k))
				}
			}(k)
		}
	}
	done := make(chan bool)
	stopping = true
	go func() { w.svc.Stop(); close(done) }()
	stopTime := time.Hour
	select {
	case <-done:
	case <-time.After(stopTime):
		w.fatalf("stop did not return within %v", stopTime)
	}
	wg.Wait()
	time.Sleep(time.Hour)
	synctest.Wait()
	w.mu.Lock()
	calls := map[*watched]int{}
	for _, k := range w.keys {
		calls[k] = k.callsAll
	}
	if w.closed != 1 {
		w.fatalf("%d closing events", w.closed)
	}
	w.mu.Unlock()
	for _, k := range w.keys {
		switch within(rt, "late", 3) {
		case 1:
			w.svc.AddObservable(w.observable(k))
		case 2:
			w.svc.RemoveObservable(w.observable(k))
		}
	}
	time.Sleep(time.Hour)
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.wrong != "" {
		w.fatalf("%s", w.wrong)
	}
	missing := 0
	for e := range w.injected {
		if w.reported[e] == 0 {
			missing++
		}
	}
	dropped := 0
	for _, k := range w.keys {
		if k.callsAll != calls[k] {
			w.fatalf("%s checked %d times long after stop", k.key, k.callsAll-calls[k])
		}
		// what was under way at a removal or at the end may be lost
		lost := k.removals + 2
		dropped += lost
		if k.tx {
			lost += w.nerr // the status is told, then the hex fails
		}
		if k.eventsAll > k.goodAll || k.eventsAll < k.goodAll-lost {
			w.fatalf("%s: %d events for %d good answers of the explorer and %d removals", k.key, k.eventsAll, k.goodAll, k.removals)
		}
	}
	if missing > dropped {
		w.fatalf("%d failures of the explorer not reported, %d removals", missing, dropped)
	}
	c.Class("stop concurrent %v", concurrent)
	c.Class("failures %v", failures > 0)
	c.Class("pauses %v", pauses > 0)
	if observed >= 2 && failures+removals+pauses+bursts > 0 {
		c.NonTrivial("%d %d %d %d %d %d %v", observed, failures, removals, pauses, settled, w.nerr, w.txt)
	}
}
