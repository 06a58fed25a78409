//go:build go1.23

// Package world runs the daemon's application services against a simulated
// chain: real storage, domain, wallet and swap code; the explorer, the crawler
// and the passphrase encryption are stand-ins controlled by the check.
package world

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/transaction"
)

// Outpoint names an output.
type Outpoint struct {
	TxID string
	Vout uint32
}

func (o Outpoint) String() string { return fmt.Sprintf("%.8s:%d", o.TxID, o.Vout) }

// ChainTx is a transaction known to the chain.
type ChainTx struct {
	TxID      string
	Hex       string
	Tx        *transaction.Transaction
	Confirmed bool
	BlockTime int64
}

// Chain is an explorer.Service over a chain kept in memory. It verifies what
// is broadcast as a node would.
type Chain struct {
	mu      sync.Mutex
	txs     map[string]*ChainTx
	order   []string
	spentBy map[Outpoint]string
	blind   map[string][]byte // script -> private blinding key
	n       int
	Label   string
	Late    func(id string) // what happens before a broadcast is answered
	Sent    []string        // ids of accepted broadcasts, in order
	Refused []string        // why broadcasts were refused
	Fail    func(method, arg string) error
	// Mine gives the blinding keys of the daemon's own scripts.
	Mine func(script string) []byte
}

// NewChain makes an empty chain.
func NewChain(label string) *Chain {
	return &Chain{
		txs: map[string]*ChainTx{}, spentBy: map[Outpoint]string{}, blind: map[string][]byte{}, Label: label,
	}
}

var errUnknownTx = errors.New("Transaction not found")

// Register tells the chain the blinding key of a script, for verification.
func (c *Chain) Register(keys ...*txlib.Key) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range keys {
		c.blind[k.ScriptHex()] = k.Blind.Serialize()
	}
}

// Pay describes an output to create on the chain.
type Pay struct {
	Asset        string
	Value        uint64
	Key          *txlib.Key
	Confidential bool
}

// Fund mines (or adds to the mempool) a transaction with the given outputs.
func (c *Chain) Fund(confirmed bool, pays ...Pay) []*txlib.Coin {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	outs := []*transaction.TxOutput{}
	coins := []*txlib.Coin{}
	for i, p := range pays {
		c.blind[p.Key.ScriptHex()] = p.Key.Blind.Serialize()
		coin := txlib.NewCoin(hex.EncodeToString(txlib.H(c.Label, "fund", c.n)), uint32(i), p.Asset, p.Value, p.Key)
		if p.Confidential {
			coin.Confidential()
		}
		outs = append(outs, coin.Out)
		coins = append(coins, coin)
	}
	tx := transaction.NewTx(2)
	tx.AddInput(transaction.NewTxInput(txlib.H(c.Label, "coinbase", c.n), 0))
	for _, o := range outs {
		tx.AddOutput(o)
	}
	id := c.add(tx, confirmed)
	for _, coin := range coins {
		coin.TxID = id
	}
	return coins
}

// Spend takes coins away from their owner, whoever that is.
func (c *Chain) Spend(confirmed bool, coins ...*txlib.Coin) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	tx := transaction.NewTx(2)
	for _, x := range coins {
		tx.AddInput(transaction.NewTxInput(x.TxHash(), x.Vout))
	}
	tx.AddOutput(txlib.Out(coins[0].Asset, 1, txlib.NewKey(c.Label, "spent", c.n).Script))
	c.add(tx, confirmed)
}

func (c *Chain) add(tx *transaction.Transaction, confirmed bool) string {
	h, err := tx.ToHex()
	if err != nil {
		panic(err)
	}
	id := tx.TxHash().String()
	t := &ChainTx{TxID: id, Hex: h, Tx: tx, Confirmed: confirmed}
	if confirmed {
		t.BlockTime = int64(1600000000 + len(c.order))
	}
	c.txs[id] = t
	c.order = append(c.order, id)
	for _, in := range tx.Inputs {
		c.spentBy[Outpoint{revHex(in.Hash), in.Index}] = id
	}
	return id
}

func (c *Chain) blindKey(script string) []byte {
	if k := c.blind[script]; k != nil || c.Mine == nil {
		return k
	}
	return c.Mine(script)
}

// BlindKey is the private blinding key of a script, if known.
func (c *Chain) BlindKey(script string) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.blindKey(script)
}

func scriptOf(addr string) ([]byte, error) { return address.ToOutputScript(addr) }

func revHex(b []byte) string {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return hex.EncodeToString(r)
}

// InHash is the id of the transaction an input spends.
func InHash(in *transaction.TxInput) string { return revHex(in.Hash) }

// Confirm mines a transaction.
func (c *Chain) Confirm(txid string) *ChainTx {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.txs[txid]
	if t == nil {
		panic("confirm of unknown tx")
	}
	if !t.Confirmed {
		t.Confirmed = true
		c.n++
		t.BlockTime = int64(1600100000 + c.n)
	}
	return t
}

// Tx looks a transaction up.
func (c *Chain) Tx(txid string) *ChainTx {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.txs[txid]
}

// Output looks an output up, nil if there is none.
func (c *Chain) Output(txid string, vout uint32) *transaction.TxOutput {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.output(txid, vout)
}

func (c *Chain) output(txid string, vout uint32) *transaction.TxOutput {
	t := c.txs[txid]
	if t == nil || int(vout) >= len(t.Tx.Outputs) {
		return nil
	}
	return t.Tx.Outputs[vout]
}

// SpentBy gives the id of the transaction spending an output, if any.
func (c *Chain) SpentBy(o Outpoint) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.spentBy[o]
}

// Owned is an output paying to one of the scripts asked for.
type Owned struct {
	Outpoint
	Script    string
	Asset     string
	Value     uint64
	Confirmed bool
	SpentBy   string
}

// OwnedBy lists all outputs ever paid to a set of scripts.
func (c *Chain) OwnedBy(mine func(script string) bool) []Owned {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := []Owned{}
	for _, id := range c.order {
		t := c.txs[id]
		for i, o := range t.Tx.Outputs {
			s := hex.EncodeToString(o.Script)
			if len(o.Script) == 0 || !mine(s) {
				continue
			}
			op, err := txlib.Open(o, c.blindKey(s))
			if err != nil {
				panic(fmt.Sprintf("output %s:%d: %v", id, i, err))
			}
			k := Outpoint{id, uint32(i)}
			res = append(res, Owned{k, s, op.Asset, op.Value, t.Confirmed, c.spentBy[k]})
		}
	}
	return res
}

func (c *Chain) fail(method, arg string) error {
	if c.Fail != nil {
		return c.Fail(method, arg)
	}
	return nil
}

func (c *Chain) unspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	script, err := address.ToOutputScript(addr)
	if err != nil {
		return nil, err
	}
	s := hex.EncodeToString(script)
	res := []explorer.Utxo{}
	for _, id := range c.order {
		t := c.txs[id]
		for i, o := range t.Tx.Outputs {
			if hex.EncodeToString(o.Script) != s || c.spentBy[Outpoint{id, uint32(i)}] != "" {
				continue
			}
			var op *txlib.Opening
			if !o.IsConfidential() {
				op, err = txlib.Open(o, nil)
			} else {
				err = errors.New("unable to unblind utxo with provided keys")
				try := keys
				if right := c.blindKey(s); right != nil {
					for _, k := range keys {
						if bytes.Equal(k, right) {
							try = append([][]byte{right}, keys...) // spares the others
						}
					}
				}
				for _, k := range try {
					if op, err = txlib.Open(o, k); err == nil {
						break
					}
				}
			}
			if err != nil {
				return nil, err
			}
			vc, ac := "", ""
			if o.IsConfidential() {
				vc, ac = hex.EncodeToString(o.Value), hex.EncodeToString(o.Asset)
			}
			res = append(res, esplora.NewWitnessUtxo(id, uint32(i), op.Value, op.Asset, vc, ac, op.VBF, op.ABF,
				append([]byte{}, o.Script...), o.Nonce, o.RangeProof, o.SurjectionProof, t.Confirmed))
		}
	}
	return res, nil
}

// GetUnspents implements explorer.Service.
func (c *Chain) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("GetUnspents", addr); err != nil {
		return nil, err
	}
	return c.unspents(addr, keys)
}

// GetUnspentsForAddresses implements explorer.Service.
func (c *Chain) GetUnspentsForAddresses(addrs []string, keys [][]byte) ([]explorer.Utxo, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("GetUnspentsForAddresses", ""); err != nil {
		return nil, err
	}
	res := []explorer.Utxo{}
	for _, a := range addrs {
		u, err := c.unspents(a, keys)
		if err != nil {
			return nil, err
		}
		res = append(res, u...)
	}
	return res, nil
}

// GetTransaction implements explorer.Service.
func (c *Chain) GetTransaction(txid string) (explorer.Transaction, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("GetTransaction", txid); err != nil {
		return nil, err
	}
	t := c.txs[txid]
	if t == nil {
		return nil, errUnknownTx
	}
	return esplora.NewTxFromHex(t.Hex, t.Confirmed)
}

// GetTransactionHex implements explorer.Service.
func (c *Chain) GetTransactionHex(txid string) (string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("GetTransactionHex", txid); err != nil {
		return "", err
	}
	t := c.txs[txid]
	if t == nil {
		return "", errUnknownTx
	}
	return t.Hex, nil
}

// IsTransactionConfirmed implements explorer.Service.
func (c *Chain) IsTransactionConfirmed(txid string) (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("IsTransactionConfirmed", txid); err != nil {
		return false, err
	}
	t := c.txs[txid]
	if t == nil {
		return false, errUnknownTx
	}
	return t.Confirmed, nil
}

// GetTransactionStatus implements explorer.Service.
func (c *Chain) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("GetTransactionStatus", txid); err != nil {
		return nil, err
	}
	t := c.txs[txid]
	if t == nil {
		return nil, errUnknownTx
	}
	if !t.Confirmed {
		return map[string]interface{}{"confirmed": false}, nil
	}
	return map[string]interface{}{
		"confirmed": true, "block_hash": hex.EncodeToString(txlib.H(t.BlockTime)), "block_time": float64(t.BlockTime),
	}, nil
}

// GetTransactionsForAddress implements explorer.Service.
func (c *Chain) GetTransactionsForAddress(addr string, _ []byte) ([]explorer.Transaction, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("GetTransactionsForAddress", addr); err != nil {
		return nil, err
	}
	script, err := address.ToOutputScript(addr)
	if err != nil {
		return nil, err
	}
	s := hex.EncodeToString(script)
	res := []explorer.Transaction{}
	for _, id := range c.order {
		t := c.txs[id]
		hit := false
		for _, o := range t.Tx.Outputs {
			hit = hit || hex.EncodeToString(o.Script) == s
		}
		for _, in := range t.Tx.Inputs {
			if o := c.output(revHex(in.Hash), in.Index); o != nil && hex.EncodeToString(o.Script) == s {
				hit = true
			}
		}
		if hit {
			x, err := esplora.NewTxFromHex(t.Hex, t.Confirmed)
			if err != nil {
				return nil, err
			}
			res = append(res, x)
		}
	}
	return res, nil
}

// Verify judges a transaction as the mempool would.
func (c *Chain) Verify(tx *transaction.Transaction) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.verify(tx)
}

func (c *Chain) verify(tx *transaction.Transaction) error {
	return txlib.VerifyTx(tx, func(id string, vout uint32) *transaction.TxOutput {
		if c.spentBy[Outpoint{id, vout}] != "" {
			return nil
		}
		return c.output(id, vout)
	}, c.blindKey)
}

// BroadcastTransaction implements explorer.Service.
func (c *Chain) BroadcastTransaction(txhex string) (string, error) {
	id, err := c.broadcast(txhex)
	if err == nil && c.Late != nil {
		c.Late(id)
	}
	return id, err
}

func (c *Chain) broadcast(txhex string) (string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.fail("BroadcastTransaction", txhex); err != nil {
		return "", err
	}
	tx, err := transaction.NewTxFromHex(txhex)
	if err != nil {
		c.Refused = append(c.Refused, err.Error())
		return "", err
	}
	id := tx.TxHash().String()
	if c.txs[id] != nil {
		c.Sent = append(c.Sent, id)
		return id, nil
	}
	if err := c.verify(tx); err != nil {
		c.Refused = append(c.Refused, err.Error())
		return "", err
	}
	c.add(tx, false)
	c.Sent = append(c.Sent, id)
	return id, nil
}

// GetBlockHeight implements explorer.Service.
func (c *Chain) GetBlockHeight() (int, error) { return len(c.order), nil }

// Faucet implements explorer.Service.
func (c *Chain) Faucet(string, float64, string) (string, error) {
	return "", errors.New("not available")
}

// Mint implements explorer.Service.
func (c *Chain) Mint(string, float64) (string, string, error) {
	return "", "", errors.New("not available")
}

// Txs lists ids in order of arrival.
func (c *Chain) Txs() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.order...)
}

// SortedOutpoints is for messages.
func SortedOutpoints(m map[Outpoint]bool) []string {
	l := []string{}
	for o := range m {
		l = append(l, o.String())
	}
	sort.Strings(l)
	return l
}
