//go:build go1.23

package trading

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// deal is an accepted trade as the model sees it.
type deal struct {
	id      string // of the accept message
	req     *Request
	tx      string // accepted pset
	txid    string
	mine    map[Outpoint]bool // wallet outputs it spends
	since   time.Time
	status  string // pending, failed, expired, completed, settled
	signed  string
	created uint64
	who     *Trader
	uuid    string
	block   int64
}

type history struct {
	*scene
	tr    []*Trader
	deals []*deal
	seen  int // broadcasts looked at
	kinds map[string]int
}

func (h *history) did(format string, a ...interface{}) {
	h.log = append(h.log, fmt.Sprintf(format, a...))
}

func (h *history) fatalf(format string, a ...interface{}) {
	h.rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), strings.Join(h.log, "; "))
}

// accepted records what an accept answer commits the daemon to.
func (h *history) accepted(who *Trader, r *Request, acc domain.SwapAccept) *deal {
	p, err := pset.NewPsetFromBase64(acc.GetTransaction())
	if err != nil {
		h.fatalf("accepted tx: %v", err)
	}
	d := &deal{id: acc.GetId(), req: r, tx: acc.GetTransaction(), txid: p.UnsignedTx.TxHash().String(), who: who,
		mine: map[Outpoint]bool{}, since: time.Now(), status: "pending"}
	n := len(r.Coins)
	for _, in := range p.UnsignedTx.Inputs[n:] {
		d.mine[Outpoint{InHash(in), in.Index}] = true
	}
	if d.signed, err = who.Sign(d.tx); err != nil {
		h.fatalf("cannot sign: %v", err)
	}
	h.deals = append(h.deals, d)
	return d
}

func (h *history) pick(name string) *deal {
	if len(h.deals) == 0 {
		return nil
	}
	return h.deals[rapid.IntRange(0, len(h.deals)-1).Draw(h.rt, name)]
}

func (h *history) request(who *Trader) *Request {
	for i := 0; i < 3; i++ {
		m := h.Markets[rapid.IntRange(0, len(h.Markets)-1).Draw(h.rt, "market")]
		sell := rapid.Bool().Draw(h.rt, "sell")
		P, p, R, r, ok := h.terms(m, sell)
		if !ok {
			continue
		}
		return who.Request(m.Market, sell, P, p, R, r, uint64(rapid.IntRange(0, 5000).Draw(h.rt, "change")),
			rapid.IntRange(1, 2).Draw(h.rt, "coins"), rapid.Bool().Draw(h.rt, "conf"))
	}
	return nil
}

// greedy is a proposal whose inputs include one of the daemon's own outputs
// (its blinding key is in every accept message).
func (h *history) greedy(who *Trader) *Request {
	r := h.request(who)
	if r == nil {
		return nil
	}
	for _, u := range h.Unspents() {
		if u.Spent || u.AssetHash != r.AssetP || rapid.IntRange(0, 2).Draw(h.rt, "skip") == 0 {
			continue
		}
		s := hex.EncodeToString(u.ScriptPubKey)
		_, k := h.HD.Find(s, 12, 60)
		out := h.Chain.Output(u.TxID, u.VOut)
		if k == nil || out == nil {
			continue
		}
		c := &txlib.Coin{TxID: u.TxID, Vout: u.VOut, Asset: u.AssetHash, Value: u.Value, Key: k, Out: out}
		r.Coins = append(r.Coins, c)
		r.Change += u.Value
		outs := []*transaction.TxOutput{txlib.Out(r.AssetR, r.AmountR, r.OutKey.Script)}
		if r.ChgKey == nil {
			r.ChgKey = who.Key()
			r.Msg.OutputBlindingKey[r.ChgKey.ScriptHex()] = r.ChgKey.Blind.Serialize()
		}
		outs = append(outs, txlib.Out(r.AssetP, r.Change, r.ChgKey.Script))
		r.Msg.Transaction = txlib.B64(txlib.Pset(r.Coins, outs))
		r.Msg.InputBlindingKey[s] = k.Blind.Serialize()
		return r
	}
	return r
}

func (h *history) propose() {
	who := h.tr[rapid.IntRange(0, len(h.tr)-1).Draw(h.rt, "trader")]
	var r *Request
	kind := "propose"
	if rapid.IntRange(0, 4).Draw(h.rt, "greedy") == 0 {
		r, kind = h.greedy(who), "propose with a wallet coin"
	} else {
		r = h.request(who)
	}
	if r == nil {
		return
	}
	acc, _, _ := who.Propose(r)
	if acc != nil {
		h.accepted(who, r, acc)
	}
	h.did("%s -> %v", kind, acc != nil)
}

// together runs proposals, completions and aborts of different trades at once.
func (h *history) together() {
	n := rapid.IntRange(2, 4).Draw(h.rt, "together")
	reqs := make([]*Request, n)
	for i := range reqs {
		reqs[i] = h.request(h.tr[0])
	}
	accs := make([]domain.SwapAccept, n)
	var done, gone *deal
	if d := h.pick("also complete"); d != nil && d.status == "pending" && h.inTime(d) && !d.greedy(h) && rapid.Bool().Draw(h.rt, "completeToo") {
		done = d
	}
	if d := h.pick("also abort"); d != nil && d.status == "pending" && h.inTime(d) && d != done && rapid.Bool().Draw(h.rt, "abortToo") {
		gone = d
	}
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	var e1, e2 error
	for i := range reqs {
		if reqs[i] != nil {
			i := i
			run(func() {
				accs[i], _, _, _ = h.Trade.TradePropose(Ctx, reqs[i].Market, reqs[i].TradeType(), reqs[i].Msg)
			})
		}
	}
	if done != nil {
		run(func() {
			_, f, err := done.who.CompleteNow(done.id, done.signed)
			if e1 = err; f != nil {
				e1 = errors.New(f.GetFailureMessage())
			}
		})
	}
	if gone != nil {
		run(func() { _, e2 = gone.who.AbortNow(gone.id) })
	}
	wg.Wait()
	h.Settle()
	k := 0
	for i, a := range accs {
		if a != nil {
			h.accepted(h.tr[0], reqs[i], a)
			k++
		}
	}
	if done != nil {
		if e1 != nil {
			h.fatalf("completion of an accepted trade refused: %v", e1)
		}
		done.status = "completed"
	}
	if gone != nil {
		if e2 != nil {
			h.fatalf("abort of an accepted trade refused: %v", e2)
		}
		gone.status = "failed"
	}
	h.did("%d of %d proposals at once (complete %v, abort %v)", k, n, done != nil, gone != nil)
}

func (h *history) inTime(d *deal) bool { return time.Since(d.since) < h.Opts.Expiry-time.Second }
func (h *history) late(d *deal) bool   { return time.Since(d.since) > h.Opts.Expiry+time.Second }

// replaced rebuilds a transaction with something changed and the trader's
// signatures made again.
func (h *history) altered(d *deal, kind string) string {
	p, err := pset.NewPsetFromBase64(d.tx)
	if err != nil {
		h.fatalf("%v", err)
	}
	tx := p.UnsignedTx
	switch kind {
	case "fee stolen", "output dropped":
		n := len(tx.Outputs)
		i := rapid.IntRange(0, n-1).Draw(h.rt, "drop")
		tx.Outputs = append(append([]*transaction.TxOutput{}, tx.Outputs[:i]...), tx.Outputs[i+1:]...)
		p.Outputs = append(append([]pset.POutput{}, p.Outputs[:i]...), p.Outputs[i+1:]...)
	case "output redirected":
		i := rapid.IntRange(0, len(tx.Outputs)-2).Draw(h.rt, "redirect")
		o := *tx.Outputs[i]
		o.Script = d.who.Key().Script
		tx.Outputs[i] = &o
	case "input added":
		c := d.who.Coins(d.req.AssetP, false, 5000)[0]
		tx.AddInput(transaction.NewTxInput(c.TxHash(), c.Vout))
		p.Inputs = append(p.Inputs, pset.PInput{WitnessUtxo: c.Out})
	case "locktime":
		tx.Locktime++
	case "sequence":
		in := *tx.Inputs[0]
		in.Sequence--
		tx.Inputs[0] = &in
	case "other value":
		for i, o := range tx.Outputs {
			if len(o.Script) == 0 {
				x := *o
				x.Value = txlib.ValueBytes(txlib.ValueOf(o.Value) + 1)
				tx.Outputs[i] = &x
			}
		}
	}
	for i := range d.req.Coins {
		k := d.req.Coins[i].Key
		p.Inputs[i].PartialSigs = nil
		if err := txlib.Sign(p, i, k); err != nil {
			return ""
		}
	}
	b, err := p.ToBase64()
	if err != nil {
		return ""
	}
	return b
}

func (h *history) complete() {
	d := h.pick("deal")
	if d == nil {
		return
	}
	kind := rapid.SampledFrom([]string{"good", "good", "good", "good", "hex", "unsigned", "half", "swapped", "garbage", "empty", "output dropped",
		"output redirected", "input added", "locktime", "sequence", "other value", "unknown", "requestid", "down", "down", "twice", "late answer", "late answer"}).Draw(h.rt, "completion")
	id, tx := d.id, d.signed
	switch kind {
	case "hex":
		raw, _, err := FinalHex(d.signed)
		if err != nil {
			kind = "good"
		} else {
			tx = raw
		}
	case "unsigned":
		tx = d.tx
	case "half":
		if len(d.req.Coins) < 2 {
			kind, tx = "unsigned", d.tx
			break
		}
		p, _ := pset.NewPsetFromBase64(d.tx)
		if err := txlib.Sign(p, 0, d.req.Coins[0].Key); err != nil {
			h.fatalf("%v", err)
		}
		tx = txlib.B64(p)
	case "swapped":
		o := h.pick("other")
		if o == d {
			kind = "good"
			break
		}
		tx = o.signed
		if rapid.Bool().Draw(h.rt, "raw") {
			if raw, _, err := FinalHex(o.signed); err == nil {
				tx = raw
			}
		}
	case "garbage":
		tx = rapid.SampledFrom([]string{"00", "deadbeef", "cHNldP8=", "AAAA", "!", strings.Repeat("0", 200)}).Draw(h.rt, "garbage")
	case "empty":
		tx = ""
	case "unknown":
		id = "nobody"
	case "requestid":
		id = d.req.Msg.Id
	case "output dropped", "output redirected", "input added", "locktime", "sequence", "other value":
		if d.greedy(h) {
			kind = "good"
			break
		}
		tx = h.altered(d, kind)
		if rapid.Bool().Draw(h.rt, "raw") {
			if raw, _, err := FinalHex(tx); err == nil {
				tx = raw
			}
		}
	case "down":
		h.Chain.Fail = func(m, _ string) error {
			if m == "BroadcastTransaction" {
				return errors.New("cannot be reached")
			}
			return nil
		}
	}
	early := false
	if kind == "late answer" {
		// confirmed before the node answers
		h.Chain.Late = func(id string) {
			h.Chain.Late = nil
			h.Confirmed(id)
			early = true
		}
	}
	if d.greedy(h) && (kind == "late answer" || kind == "good" || kind == "hex" || kind == "down" || kind == "twice") {
		kind = "greedy" // cannot be completed: its own signature is missing
	}
	h.judgeCompletion(d, kind, id, tx)
	h.Chain.Fail, h.Chain.Late = nil, nil
	if early {
		if d.status == "completed" {
			d.status = "settled"
			h.kinds["settled while completing"]++
		}
		if d.status == "settled" {
			d.block = h.Chain.Tx(d.txid).BlockTime
		}
		h.did("confirmed before the node answered")
	}
	if kind == "twice" {
		h.judgeCompletion(d, kind, id, tx)
	}
}

// greedy tells whether the proposer spends what is not its own.
func (d *deal) greedy(h *history) bool {
	for _, c := range d.req.Coins {
		if h.Account(c.Key.ScriptHex()) != -1 {
			return true
		}
	}
	return false
}

func (h *history) judgeCompletion(d *deal, kind, id, tx string) {
	good := kind == "good" || kind == "hex" || kind == "twice" || kind == "late answer"
	sent := len(h.Chain.Sent)
	was := d.status
	again := (was == "completed" || was == "settled") && id == d.id // answers what was done already, whatever is handed in
	inTime, late := h.inTime(d), h.late(d)
	txid, fail, err := d.who.Complete(id, tx)
	ok := err == nil && fail == nil
	now := h.Chain.Sent[sent:]
	h.did("complete %s (%s, in time %v) -> %v", kind, was, inTime, ok)
	h.kinds[fmt.Sprintf("complete %s while %s in time %v", kind, was, inTime)]++
	if ok != (txid != "") {
		h.fatalf("completion answered txid %q, failure %v, error %v", txid, fail, err)
	}
	for _, s := range now {
		if s != d.txid || !good && !again {
			h.fatalf("%s completion of a trade broadcast %s; the accepted transaction is %s", kind, s, d.txid)
		}
	}
	if ok {
		switch {
		case !good && !again:
			h.fatalf("%s completion accepted", kind)
		case was == "failed" || was == "expired" || was == "pending" && late:
			h.fatalf("completion of a %s trade accepted (late %v)", was, late)
		case txid != d.txid:
			h.fatalf("completion answered txid %s instead of %s", txid, d.txid)
		}
		if was == "pending" {
			if len(now) == 0 {
				h.fatalf("completed but nothing was broadcast")
			}
			d.status = "completed"
		}
		return
	}
	if len(now) > 0 {
		h.fatalf("completion refused but something was broadcast: %v %v", err, fail)
	}
	if good && was == "pending" && inTime {
		h.fatalf("good completion refused: %v %v", err, fail)
	}
}

func (h *history) abort() {
	d := h.pick("deal")
	if d == nil {
		return
	}
	id := d.id
	kind := rapid.SampledFrom([]string{"", "", "", "unknown", "request"}).Draw(h.rt, "abort")
	switch kind {
	case "unknown":
		id = "nobody"
	case "request":
		id = d.req.Msg.Id
	}
	fail, err := d.who.Abort(id)
	ok := err == nil && fail != nil
	h.did("abort %s %s -> %v", kind, d.status, ok)
	h.kinds[fmt.Sprintf("abort %s of %s", kind, d.status)]++
	switch {
	case kind == "" && d.status == "pending":
		if ok {
			d.status = "failed"
		} else if !h.late(d) {
			h.fatalf("abort of a pending trade refused: %v", err)
		}
	}
}

func (h *history) withdraw() {
	m := h.Markets[rapid.IntRange(0, len(h.Markets)-1).Draw(h.rt, "market")]
	req := application.WithdrawMarketReq{Market: m.Market, MillisatPerByte: 100, Push: true, Address: h.tr[0].Key().ConfidentialAddress()}
	b, _ := h.free(m.account, m.BaseAsset)
	q, _ := h.free(m.account, m.QuoteAsset)
	req.BalanceToWithdraw.BaseAmount = b / 100 * uint64(rapid.IntRange(0, 60).Draw(h.rt, "withdrawBase"))
	req.BalanceToWithdraw.QuoteAmount = q / 100 * uint64(rapid.IntRange(0, 60).Draw(h.rt, "withdrawQuote"))
	sent := len(h.Chain.Sent)
	_, err := h.Operator.WithdrawMarketFunds(Ctx, req)
	h.Settle()
	h.did("withdraw -> %v", err)
	h.kinds[fmt.Sprintf("withdraw ok %v", err == nil)]++
	for _, id := range h.Chain.Sent[sent:] {
		for _, in := range h.Chain.Tx(id).Tx.Inputs {
			o := Outpoint{InHash(in), in.Index}
			for _, d := range h.deals {
				if d.status == "pending" && d.mine[o] {
					h.fatalf("a withdrawal spends %v, reserved for a trade", o)
				}
			}
		}
	}
}

func (h *history) wait() {
	e := h.Opts.Expiry
	by := rapid.SampledFrom([]time.Duration{e / 3, e / 2, e - 2*time.Second, e + 10*time.Second, e + 2*time.Minute}).Draw(h.rt, "wait")
	h.Advance(by)
	h.did("wait %v", by)
	for _, d := range h.deals {
		if d.status == "pending" && time.Since(d.since) > e+time.Minute+2*time.Second {
			d.status = "expired"
			h.kinds["expired"]++
		}
	}
}

func (h *history) confirm() {
	d := h.pick("deal")
	if d == nil || d.status != "completed" && d.status != "settled" {
		return
	}
	h.Confirmed(d.txid)
	d.status, d.block = "settled", h.Chain.Tx(d.txid).BlockTime
	h.did("confirm")
}

// check compares the daemon's records with the model.
func (h *history) check() {
	pending := map[Outpoint]*deal{}
	used := map[Outpoint]*deal{}
	for _, d := range h.deals {
		t := h.storedTrade(d.id)
		d.uuid = t.ID.String()
		got := fmt.Sprintf("accepted=%v completed=%v settled=%v failed=%v expired=%v", t.IsAccepted(), t.IsCompleted(), t.IsSettled(), t.IsRejected(),
			t.Status.Code == domain.Expired)
		want := map[string]string{
			"pending":   "accepted=true completed=false settled=false failed=false expired=false",
			"failed":    "accepted=true completed=false settled=false failed=true expired=false",
			"completed": "accepted=false completed=true settled=false failed=false expired=false",
			"settled":   "accepted=false completed=false settled=true failed=false expired=false",
			"expired":   "accepted=false completed=false settled=false failed=true expired=true",
		}[d.status]
		late := d.status == "pending" && h.late(d)
		if got != want && !late {
			h.fatalf("trade should be %s but is stored as %s (%+v)", d.status, got, t.Status)
		}
		if t.PsetBase64 != d.tx && d.status == "pending" || t.TxID != d.txid {
			h.fatalf("stored transaction of the %s trade changed", d.status)
		}
		if d.status == "completed" && t.TxHex == "" || d.status == "settled" && (int64(t.SettlementTime) != d.block || t.TxHex == "") {
			h.fatalf("%s trade: settlement time %d, block %d", d.status, t.SettlementTime, d.block)
		}
		for o := range d.mine {
			if d.status == "pending" && !late {
				if p := pending[o]; p != nil {
					h.fatalf("%v is spent by two pending trades", o)
				}
				pending[o] = d
			}
			if d.status == "completed" || d.status == "settled" {
				if used[o] != nil {
					h.fatalf("%v is spent by two completed trades", o)
				}
				used[o] = d
			}
		}
	}
	stale := map[Outpoint]bool{} // between the deadline and the daemon's own timer
	for _, d := range h.deals {
		if d.status == "pending" && h.late(d) {
			for o := range d.mine {
				stale[o] = true
			}
		}
	}
	for _, u := range h.Unspents() {
		o := Outpoint{u.TxID, u.VOut}
		d := pending[o]
		switch {
		case used[o] != nil && !u.Spent:
			h.fatalf("%v was spent by a completed trade but is kept as unspent", o)
		case u.Spent:
			if d != nil && used[o] == nil && h.Chain.SpentBy(o) == "" {
				h.fatalf("%v is kept as spent but its trade is pending", o)
			}
		case d != nil && (!u.Locked || u.LockedBy == nil || u.LockedBy.String() != d.uuid):
			h.fatalf("%v is spent by pending trade %s but locked=%v by %v", o, d.uuid, u.Locked, u.LockedBy)
		case d == nil && u.Locked && !stale[o]:
			h.fatalf("%v is locked by %v but no pending trade spends it", o, u.LockedBy)
		}
	}
	// only known transactions were broadcast
	h.seen = len(h.Chain.Sent)
}

func newHistory(rt *rapid.T, c *vt.Case, w *World, o sceneOpts) *history {
	h := &history{scene: newScene(rt, c, w, o), kinds: map[string]int{}}
	h.tr = []*Trader{w.NewTrader("a"), w.NewTrader("b")}
	return h
}

func (h *history) finish() {
	for k := range h.kinds {
		h.c.Class("%s", k)
	}
}

func TestC08Reservations(t *testing.T) {
	rule := "histories of 4-14 proposals (also concurrent, also spending wallet coins), completions, aborts, waits past the deadline, confirmations and withdrawals; non-trivial: a reservation was released and one consumed"
	vt.Check(t, 320, 8000, rule, func(rt *rapid.T, c *vt.Case) {
		o := sceneOpts{markets: rapid.IntRange(1, 2).Draw(rt, "markets"), feeCoins: rapid.IntRange(2, 6).Draw(rt, "feeCoins"), maxCoins: 5, expiry: 10 * time.Minute}
		In(rt, genOpts(rt, o), func(rt *rapid.T, w *World) {
			h := newHistory(rt, c, w, o)
			for i, n := 0, rapid.IntRange(4, 14).Draw(rt, "steps"); i < n; i++ {
				switch rapid.IntRange(0, 11).Draw(rt, "op") {
				case 0, 1, 2, 3:
					h.propose()
				case 4, 5:
					h.together()
				case 6, 7:
					h.abort()
				case 8:
					h.complete()
				case 9:
					h.wait()
				case 10:
					h.withdraw()
				case 11:
					h.confirm()
				}
				h.check()
			}
			h.finish()
			rel, used := 0, 0
			for _, d := range h.deals {
				switch d.status {
				case "failed", "expired":
					rel++
				case "completed", "settled":
					used++
				}
			}
			if rel > 0 && (used > 0 || len(h.deals) > rel) {
				c.NonTrivial("%s", strings.Join(h.log, "; "))
			}
		})
	})
}

func TestC09Completions(t *testing.T) {
	rule := "1-3 accepted trades, then 3-10 completions (right, raw, unsigned, altered, another trade's, unknown, after the deadline or an abort, while the node is down, repeated); non-trivial: one honoured and one refused"
	vt.Check(t, 160, 8000, rule, func(rt *rapid.T, c *vt.Case) {
		o := sceneOpts{markets: 1, feeCoins: 5, maxCoins: 5, expiry: 10 * time.Minute}
		In(rt, genOpts(rt, o), func(rt *rapid.T, w *World) {
			h := newHistory(rt, c, w, o)
			for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "trades"); i < n; i++ {
				h.propose()
			}
			for i, n := 0, rapid.IntRange(3, 10).Draw(rt, "steps"); i < n; i++ {
				switch rapid.IntRange(0, 11).Draw(rt, "op") {
				case 0:
					h.propose()
				case 1:
					h.abort()
				case 2:
					h.wait()
				case 3:
					h.confirm()
				default:
					h.complete()
				}
				h.check()
			}
			h.finish()
			good := 0
			for _, d := range h.deals {
				if d.status == "completed" || d.status == "settled" {
					good++
				}
			}
			if good > 0 && len(h.kinds) > 2 {
				c.NonTrivial("%s", strings.Join(h.log, "; "))
			}
		})
	})
}
