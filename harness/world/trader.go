//go:build go1.23

package world

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// Trader is a counter-party of the daemon.
type Trader struct {
	W    *World
	Name string
	n    int
	Keys []*txlib.Key
}

// NewTrader makes one.
func (w *World) NewTrader(name string) *Trader { return &Trader{W: w, Name: name} }

// Key derives a fresh key.
func (t *Trader) Key() *txlib.Key {
	t.n++
	k := txlib.NewKey("trader", t.Name, t.n)
	t.W.Chain.Register(k)
	t.Keys = append(t.Keys, k)
	return k
}

// Coins funds the trader on chain.
func (t *Trader) Coins(asset string, conf bool, values ...uint64) []*txlib.Coin {
	pays := []Pay{}
	for _, v := range values {
		pays = append(pays, Pay{asset, v, t.Key(), conf})
	}
	return t.W.Chain.Fund(true, pays...)
}

// Request describes a proposal.
type Request struct {
	Sell             bool // trade type given to the daemon
	AssetP, AssetR   string
	AmountP, AmountR uint64
	Coins            []*txlib.Coin
	Change           uint64 // of asset P
	Msg              *pbswap.SwapRequest
	OutKey, ChgKey   *txlib.Key
	Market           application.Market
}

// Request builds a proposal sending amountP from fresh coins worth
// amountP+change.
func (t *Trader) Request(m application.Market, sell bool, assetP string, amountP uint64, assetR string, amountR uint64,
	change uint64, ncoins int, conf bool) *Request {
	r := &Request{Sell: sell, AssetP: assetP, AssetR: assetR, AmountP: amountP, AmountR: amountR, Change: change, Market: m}
	total := amountP + change
	vals := []uint64{}
	for i := ncoins; i > 1 && total > 1; i-- {
		v := total / uint64(i)
		if v == 0 {
			v = 1
		}
		vals = append(vals, v)
		total -= v
	}
	if total > 0 {
		vals = append(vals, total)
	}
	r.Coins = t.Coins(assetP, conf, vals...)
	r.OutKey = t.Key()
	outs := []*transaction.TxOutput{txlib.Out(assetR, amountR, r.OutKey.Script)}
	if change > 0 {
		r.ChgKey = t.Key()
		outs = append(outs, txlib.Out(assetP, change, r.ChgKey.Script))
	}
	r.Msg = &pbswap.SwapRequest{
		Id: fmt.Sprintf("%x", txlib.H(t.Name, t.n)[:8]), AssetP: assetP, AmountP: amountP, AssetR: assetR, AmountR: amountR,
		Transaction: txlib.B64(txlib.Pset(r.Coins, outs)), InputBlindingKey: map[string][]byte{},
		OutputBlindingKey: map[string][]byte{},
	}
	for _, c := range r.Coins {
		r.Msg.InputBlindingKey[c.Key.ScriptHex()] = c.Key.Blind.Serialize()
	}
	for _, k := range []*txlib.Key{r.OutKey, r.ChgKey} {
		if k != nil {
			r.Msg.OutputBlindingKey[k.ScriptHex()] = k.Blind.Serialize()
		}
	}
	return r
}

// TradeType of the request.
func (r *Request) TradeType() int {
	if r.Sell {
		return application.TradeSell
	}
	return application.TradeBuy
}

// Propose sends a proposal and settles.
func (t *Trader) Propose(r *Request) (domain.SwapAccept, domain.SwapFail, error) {
	acc, fail, _, err := t.W.Trade.TradePropose(Ctx, r.Market, r.TradeType(), r.Msg)
	t.W.Settle()
	return acc, fail, err
}

// Sign adds the trader's signatures to a pset.
func (t *Trader) Sign(b64 string) (string, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return "", err
	}
	if err := txlib.SignOwn(p, t.Keys...); err != nil {
		return "", err
	}
	return txlib.B64(p), nil
}

// Complete hands the transaction in.
func (t *Trader) Complete(acceptID, tx string) (string, domain.SwapFail, error) {
	var msg domain.SwapComplete = &pbswap.SwapComplete{Id: "c" + acceptID, AcceptId: acceptID, Transaction: tx}
	id, fail, err := t.W.Trade.TradeComplete(Ctx, &msg, nil)
	t.W.Settle()
	return id, fail, err
}

// Abort reports a failure of the swap.
func (t *Trader) Abort(acceptID string) (domain.SwapFail, error) {
	var msg domain.SwapFail = &pbswap.SwapFail{Id: "f" + acceptID, MessageId: acceptID, FailureCode: 1, FailureMessage: "changed my mind"}
	_, fail, err := t.W.Trade.TradeComplete(Ctx, nil, &msg)
	t.W.Settle()
	return fail, err
}

// FinalHex is the raw transaction of a fully signed pset.
func FinalHex(b64 string) (string, *transaction.Transaction, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return "", nil, err
	}
	return txlib.Final(p)
}

// JudgeAccept compares an accepted transaction with the proposal it answers.
// store is the daemon's utxo set before the proposal.
func (w *World) JudgeAccept(r *Request, acc domain.SwapAccept, marketAccount int, store []domain.Unspent) error {
	orig, err := pset.NewPsetFromBase64(r.Msg.Transaction)
	if err != nil {
		return err
	}
	p, err := pset.NewPsetFromBase64(acc.GetTransaction())
	if err != nil {
		return fmt.Errorf("accepted transaction does not parse: %v", err)
	}
	if acc.GetRequestId() != r.Msg.Id {
		return fmt.Errorf("accept answers request %q, not %q", acc.GetRequestId(), r.Msg.Id)
	}
	if acc.GetId() == "" {
		return fmt.Errorf("accept without id")
	}
	tx := p.UnsignedTx
	if len(tx.Inputs) <= len(orig.UnsignedTx.Inputs) || len(tx.Outputs) < len(orig.UnsignedTx.Outputs)+2 {
		return fmt.Errorf("accepted transaction has %d inputs and %d outputs", len(tx.Inputs), len(tx.Outputs))
	}
	for i, in := range orig.UnsignedTx.Inputs {
		if !bytes.Equal(in.Hash, tx.Inputs[i].Hash) || in.Index != tx.Inputs[i].Index || in.Sequence != tx.Inputs[i].Sequence {
			return fmt.Errorf("input %d of the trader changed", i)
		}
		if len(p.Inputs[i].PartialSigs) != 0 || len(p.Inputs[i].FinalScriptWitness) != 0 {
			return fmt.Errorf("input %d of the trader is signed", i)
		}
	}
	open := func(i int) (*txlib.Opening, error) {
		o := tx.Outputs[i]
		if len(o.Script) == 0 {
			return txlib.Open(o, nil)
		}
		key := acc.GetOutputBlindingKey()[hex.EncodeToString(o.Script)]
		if o.IsConfidential() && key == nil {
			return nil, fmt.Errorf("no blinding key given for output %d", i)
		}
		x, err := txlib.Open(o, key)
		if err != nil {
			return nil, fmt.Errorf("output %d: %v", i, err)
		}
		return x, nil
	}
	for i, o := range orig.UnsignedTx.Outputs {
		if !bytes.Equal(o.Script, tx.Outputs[i].Script) {
			return fmt.Errorf("output %d of the trader changed script", i)
		}
		x, err := open(i)
		if err != nil {
			return err
		}
		if x.Asset != txlib.AssetOf(o.Asset) || x.Value != txlib.ValueOf(o.Value) {
			return fmt.Errorf("output %d of the trader changed: %d of %.8s", i, x.Value, x.Asset)
		}
		if !tx.Outputs[i].IsConfidential() {
			return fmt.Errorf("output %d of the trader is not blinded", i)
		}
	}
	byKey := map[Outpoint]domain.Unspent{}
	for _, u := range store {
		byKey[Outpoint{u.TxID, u.VOut}] = u
	}
	type side struct{ market, fee map[string]uint64 }
	in, out := side{map[string]uint64{}, map[string]uint64{}}, side{map[string]uint64{}, map[string]uint64{}}
	seen := map[Outpoint]bool{}
	for i := len(orig.UnsignedTx.Inputs); i < len(tx.Inputs); i++ {
		k := Outpoint{InHash(tx.Inputs[i]), tx.Inputs[i].Index}
		u, ok := byKey[k]
		if !ok || seen[k] {
			return fmt.Errorf("input %d (%v) is not an output of the wallet, or is twice in", i, k)
		}
		seen[k] = true
		if u.Spent || u.Locked || !u.Confirmed {
			return fmt.Errorf("input %d (%v) was spent=%v locked=%v confirmed=%v", i, k, u.Spent, u.Locked, u.Confirmed)
		}
		real := w.Chain.Output(k.TxID, k.Vout)
		if real == nil || p.Inputs[i].WitnessUtxo == nil || !bytes.Equal(real.Script, p.Inputs[i].WitnessUtxo.Script) {
			return fmt.Errorf("input %d (%v): previous output wrong", i, k)
		}
		script := hex.EncodeToString(real.Script)
		_, key := w.HD.Find(script, 12, 60)
		var o *txlib.Opening
		if key != nil {
			if o, err = txlib.Open(real, key.Blind.Serialize()); err != nil {
				return fmt.Errorf("input %d: %v", i, err)
			}
		}
		switch acct := w.Account(script); {
		case acct == marketAccount:
			in.market[o.Asset] += o.Value
		case acct == domain.FeeAccount:
			in.fee[o.Asset] += o.Value
		default:
			return fmt.Errorf("input %d belongs to account %d", i, acct)
		}
		if real.IsConfidential() && !bytes.Equal(acc.GetInputBlindingKey()[script], key.Blind.Serialize()) {
			return fmt.Errorf("no or wrong blinding key given for input %d", i)
		}
		if len(p.Inputs[i].PartialSigs) != 1 {
			return fmt.Errorf("input %d has %d signatures", i, len(p.Inputs[i].PartialSigs))
		}
		ps := p.Inputs[i].PartialSigs[0]
		if !bytes.Equal(ps.PubKey, key.Pub.SerializeCompressed()) {
			return fmt.Errorf("input %d signed by a foreign key", i)
		}
	}
	fee := uint64(0)
	paid := 0
	fresh := map[string]bool{}
	for i := len(orig.UnsignedTx.Outputs); i < len(tx.Outputs); i++ {
		o := tx.Outputs[i]
		x, err := open(i)
		if err != nil {
			return err
		}
		if len(o.Script) == 0 {
			if fee != 0 || x.Asset != Base || x.Value == 0 {
				return fmt.Errorf("bad or second fee output")
			}
			fee = x.Value
			continue
		}
		script := hex.EncodeToString(o.Script)
		if fresh[script] {
			return fmt.Errorf("two outputs to the same address")
		}
		fresh[script] = true
		if !o.IsConfidential() {
			return fmt.Errorf("output %d is not blinded", i)
		}
		id, _ := w.HD.Find(script, 12, 60)
		switch {
		case id[0] == marketAccount:
			out.market[x.Asset] += x.Value
			if x.Asset == r.AssetP && x.Value == r.AmountP {
				paid++
			}
		case id[0] == domain.FeeAccount:
			out.fee[x.Asset] += x.Value
		default:
			return fmt.Errorf("output %d pays to account %d", i, id[0])
		}
		for _, u := range store {
			if bytes.Equal(u.ScriptPubKey, o.Script) {
				return fmt.Errorf("output %d reuses an address", i)
			}
		}
	}
	if fee == 0 {
		return fmt.Errorf("no network fee")
	}
	if paid == 0 {
		return fmt.Errorf("no output pays the market the %d agreed", r.AmountP)
	}
	for _, a := range []string{r.AssetP, r.AssetR} {
		want := in.market[a]
		if a == r.AssetP {
			want += r.AmountP
		}
		if a == r.AssetR {
			want -= r.AmountR
		}
		if out.market[a] != want {
			return fmt.Errorf("market spends %d of %.8s and gets %d instead of %d", in.market[a], a, out.market[a], want)
		}
	}
	for a := range in.market {
		if a != r.AssetR {
			return fmt.Errorf("market spends asset %.8s", a)
		}
	}
	for a := range in.fee {
		if a != Base {
			return fmt.Errorf("fee account spends asset %.8s", a)
		}
	}
	if in.fee[Base] != out.fee[Base]+fee || len(out.fee) > 1 {
		return fmt.Errorf("fee account spends %d, gets %d back, fee %d", in.fee[Base], out.fee[Base], fee)
	}
	return nil
}

// CompleteNow is Complete without waiting for what follows.
func (t *Trader) CompleteNow(acceptID, tx string) (string, domain.SwapFail, error) {
	var msg domain.SwapComplete = &pbswap.SwapComplete{Id: "c" + acceptID, AcceptId: acceptID, Transaction: tx}
	return t.W.Trade.TradeComplete(Ctx, &msg, nil)
}

// AbortNow is Abort without waiting for what follows.
func (t *Trader) AbortNow(acceptID string) (domain.SwapFail, error) {
	var msg domain.SwapFail = &pbswap.SwapFail{Id: "f" + acceptID, MessageId: acceptID, FailureCode: 1, FailureMessage: "changed my mind"}
	_, fail, err := t.W.Trade.TradeComplete(Ctx, nil, &msg)
	return fail, err
}
