//go:build go1.23

// Package txlib builds keys, coins and Elements transactions for the checks,
// on top of go-elements only (nothing of the code under test).
package txlib

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// Net is the network of all checks.
var Net = &network.Regtest

// H derives 32 deterministic bytes.
func H(parts ...interface{}) []byte {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	return h[:]
}

// Asset returns a deterministic asset hash.
func Asset(i int) string { return hex.EncodeToString(H("asset", i)) }

// Key is a signing and a blinding key with their P2WPKH script.
type Key struct {
	Priv     *btcec.PrivateKey
	Pub      *btcec.PublicKey
	Blind    *btcec.PrivateKey
	BlindPub *btcec.PublicKey
	Script   []byte
}

// NewKey derives a key pair from a label.
func NewKey(label ...interface{}) *Key {
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), H("sign", fmt.Sprint(label...)))
	blind, blindPub := btcec.PrivKeyFromBytes(btcec.S256(), H("blind", fmt.Sprint(label...)))
	p := payment.FromPublicKey(pub, Net, blindPub)
	return &Key{priv, pub, blind, blindPub, p.WitnessScript}
}

// Address is the unconfidential address.
func (k *Key) Address() string {
	a, err := payment.FromPublicKey(k.Pub, Net, nil).WitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return a
}

// ConfidentialAddress is the blech32 address.
func (k *Key) ConfidentialAddress() string {
	a, err := payment.FromPublicKey(k.Pub, Net, k.BlindPub).ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return a
}

// ScriptHex is the hex output script.
func (k *Key) ScriptHex() string { return hex.EncodeToString(k.Script) }

// AssetBytes gives the 33 byte explicit asset.
func AssetBytes(asset string) []byte {
	b, err := hex.DecodeString(asset)
	if err != nil || len(b) != 32 {
		panic("bad asset " + asset)
	}
	return append([]byte{1}, elementsutil.ReverseBytes(b)...)
}

// AssetOf is the inverse of AssetBytes.
func AssetOf(b []byte) string {
	c := append([]byte{}, b[1:]...)
	for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
		c[i], c[j] = c[j], c[i]
	}
	return hex.EncodeToString(c)
}

// ValueBytes gives the 9 byte explicit value.
func ValueBytes(v uint64) []byte {
	b := make([]byte, 9)
	b[0] = 1
	binary.BigEndian.PutUint64(b[1:], v)
	return b
}

// ValueOf is the inverse of ValueBytes.
func ValueOf(b []byte) uint64 {
	if len(b) != 9 || b[0] != 1 {
		panic(fmt.Sprintf("not an explicit value: %x", b))
	}
	return binary.BigEndian.Uint64(b[1:])
}

// Out is an explicit output.
func Out(asset string, value uint64, script []byte) *transaction.TxOutput {
	return transaction.NewTxOutput(AssetBytes(asset), ValueBytes(value), script)
}

// Coin is an output that can be spent.
type Coin struct {
	TxID     string
	Vout     uint32
	Asset    string
	Value    uint64
	Key      *Key
	ABF, VBF []byte
	Out      *transaction.TxOutput
}

// TxHash gives the outpoint hash in wire order.
func (c *Coin) TxHash() []byte {
	b, _ := hex.DecodeString(c.TxID)
	return elementsutil.ReverseBytes(b)
}

// NewCoin makes an explicit coin.
func NewCoin(txid string, vout uint32, asset string, value uint64, k *Key) *Coin {
	return &Coin{
		TxID: txid, Vout: vout, Asset: asset, Value: value, Key: k,
		ABF: make([]byte, 32), VBF: make([]byte, 32), Out: Out(asset, value, k.Script),
	}
}

// Confidential replaces the coin's output with a blinded one.
func (c *Coin) Confidential() *Coin {
	c.ABF, c.VBF = H("abf", c.TxID, c.Vout), H("vbf", c.TxID, c.Vout)
	c.Out = BlindOut(c.Asset, c.Value, c.Key.Script, c.Key.BlindPub.SerializeCompressed(), c.ABF, c.VBF,
		H("eph", c.TxID, c.Vout))
	return c
}

// BlindOut makes a confidential output for the holder of the blinding key.
func BlindOut(asset string, value uint64, script, blindPub, abf, vbf, ephemeral []byte) *transaction.TxOutput {
	eph, ephPub := btcec.PrivKeyFromBytes(btcec.S256(), ephemeral)
	nonce, err := confidential.NonceHash(blindPub, eph.Serialize())
	must(err)
	tag := AssetBytes(asset)[1:]
	ac, err := confidential.AssetCommitment(tag, abf)
	must(err)
	vc, err := confidential.ValueCommitment(value, ac, vbf)
	must(err)
	var vbf32 [32]byte
	copy(vbf32[:], vbf)
	rp, err := confidential.RangeProof(confidential.RangeProofArgs{
		Value: value, Nonce: nonce, Asset: tag, AssetBlindingFactor: abf, ValueBlindFactor: vbf32,
		ValueCommit: vc, ScriptPubkey: script, MinBits: 52,
	})
	must(err)
	sp, ok := confidential.SurjectionProof(confidential.SurjectionProofArgs{
		OutputAsset: tag, OutputAssetBlindingFactor: abf,
		InputAssets: [][]byte{tag}, InputAssetBlindingFactors: [][]byte{make([]byte, 32)},
		Seed: H("seed", hex.EncodeToString(abf)),
	})
	if !ok {
		panic("surjection proof")
	}
	return &transaction.TxOutput{
		Asset: ac, Value: vc, Script: script, Nonce: ephPub.SerializeCompressed(),
		RangeProof: rp, SurjectionProof: sp,
	}
}

// Unblind reads an output, confidential or not; ok is false if the key does
// not open it.
func Unblind(out *transaction.TxOutput, blindPriv []byte) (asset string, value uint64, ok bool) {
	if !out.IsConfidential() {
		return AssetOf(out.Asset), ValueOf(out.Value), true
	}
	if len(blindPriv) != 32 {
		return "", 0, false
	}
	r, err := confidential.UnblindOutputWithKey(out, blindPriv)
	if err != nil {
		return "", 0, false
	}
	return AssetOf(append([]byte{1}, r.Asset...)), r.Value, true
}

// Pset builds an unsigned partial transaction.
func Pset(coins []*Coin, outs []*transaction.TxOutput) *pset.Pset {
	ins := make([]*transaction.TxInput, 0)
	for _, c := range coins {
		ins = append(ins, transaction.NewTxInput(c.TxHash(), c.Vout))
	}
	p, err := pset.New(ins, outs, 2, 0)
	must(err)
	u, err := pset.NewUpdater(p)
	must(err)
	for i, c := range coins {
		must(u.AddInWitnessUtxo(c.Out, i))
	}
	return p
}

// B64 serializes a pset.
func B64(p *pset.Pset) string {
	s, err := p.ToBase64()
	must(err)
	return s
}

// Sign signs the input with the key (SIGHASH_ALL).
func Sign(p *pset.Pset, in int, k *Key) error {
	prev := p.Inputs[in].WitnessUtxo
	pay, err := payment.FromScript(prev.Script, nil, nil)
	if err != nil {
		return err
	}
	hash := p.UnsignedTx.HashForWitnessV0(in, pay.Script, prev.Value, txscript.SigHashAll)
	sig, err := k.Priv.Sign(hash[:])
	if err != nil {
		return err
	}
	u, err := pset.NewUpdater(p)
	if err != nil {
		return err
	}
	_, err = u.Sign(in, append(sig.Serialize(), byte(txscript.SigHashAll)), k.Pub.SerializeCompressed(), nil, nil)
	return err
}

// SignOwn signs all inputs whose prevout pays to the key's script.
func SignOwn(p *pset.Pset, keys ...*Key) error {
	for i := range p.Inputs {
		for _, k := range keys {
			if p.Inputs[i].WitnessUtxo != nil && bytes.Equal(p.Inputs[i].WitnessUtxo.Script, k.Script) {
				if err := Sign(p, i, k); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// Final finalizes and extracts the raw transaction.
func Final(p *pset.Pset) (string, *transaction.Transaction, error) {
	if err := pset.FinalizeAll(p); err != nil {
		return "", nil, err
	}
	tx, err := pset.Extract(p)
	if err != nil {
		return "", nil, err
	}
	h, err := tx.ToHex()
	return h, tx, err
}

// VerifyP2WPKH checks the witness of an input of a final transaction against
// the output it spends.
func VerifyP2WPKH(tx *transaction.Transaction, in int, prev *transaction.TxOutput) error {
	w := tx.Inputs[in].Witness
	if len(w) != 2 {
		return fmt.Errorf("witness of input %d has %d elements", in, len(w))
	}
	pub, err := btcec.ParsePubKey(w[1], btcec.S256())
	if err != nil {
		return err
	}
	want := payment.FromPublicKey(pub, Net, nil).WitnessScript
	if !bytes.Equal(want, prev.Script) {
		return fmt.Errorf("public key of input %d does not match the script spent", in)
	}
	if len(w[0]) < 9 {
		return fmt.Errorf("signature of input %d too short", in)
	}
	sig, err := btcec.ParseSignature(w[0][:len(w[0])-1], btcec.S256())
	if err != nil {
		return err
	}
	pay, err := payment.FromScript(prev.Script, nil, nil)
	if err != nil {
		return err
	}
	hash := tx.HashForWitnessV0(in, pay.Script, prev.Value, txscript.SigHashType(w[0][len(w[0])-1]))
	if !sig.Verify(hash[:], pub) {
		return fmt.Errorf("signature of input %d does not verify", in)
	}
	return nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Opening is the clear content of an output.
type Opening struct {
	Asset    string
	Value    uint64
	ABF, VBF []byte
}

// Open reads an output completely, confidential or not.
func Open(out *transaction.TxOutput, blindPriv []byte) (*Opening, error) {
	if !out.IsConfidential() {
		if len(out.Asset) != 33 || out.Asset[0] != 1 || len(out.Value) != 9 || out.Value[0] != 1 {
			return nil, fmt.Errorf("half confidential output")
		}
		return &Opening{AssetOf(out.Asset), ValueOf(out.Value), make([]byte, 32), make([]byte, 32)}, nil
	}
	if len(blindPriv) != 32 {
		return nil, fmt.Errorf("no key to open a confidential output")
	}
	h := sha256.New()
	for _, b := range [][]byte{out.Asset, out.Value, out.Nonce, out.Script, out.RangeProof, blindPriv} {
		fmt.Fprintf(h, "%d ", len(b))
		h.Write(b)
	}
	var id [32]byte
	h.Sum(id[:0])
	if o, ok := opened.Load(id); ok {
		if err, bad := o.(error); bad {
			return nil, err
		}
		c := o.(Opening)
		c.ABF, c.VBF = append([]byte{}, c.ABF...), append([]byte{}, c.VBF...)
		return &c, nil
	}
	r, err := confidential.UnblindOutputWithKey(out, blindPriv)
	if err != nil {
		opened.Store(id, err)
		return nil, err
	}
	o := Opening{AssetOf(append([]byte{1}, r.Asset...)), r.Value, r.AssetBlindingFactor, r.ValueBlindingFactor}
	opened.Store(id, o)
	o.ABF, o.VBF = append([]byte{}, o.ABF...), append([]byte{}, o.VBF...)
	return &o, nil
}

// opened remembers what Open read; that is slow.
var opened sync.Map

// Balanced checks that amounts and blinding factors of both sides agree.
func Balanced(ins, outs []*Opening) error {
	diff := map[string]*big.Int{}
	blind := new(big.Int)
	add := func(o *Opening, sign int64) {
		if diff[o.Asset] == nil {
			diff[o.Asset] = new(big.Int)
		}
		v := new(big.Int).SetUint64(o.Value)
		diff[o.Asset].Add(diff[o.Asset], new(big.Int).Mul(v, big.NewInt(sign)))
		b := new(big.Int).Mul(v, new(big.Int).SetBytes(o.ABF))
		b.Add(b, new(big.Int).SetBytes(o.VBF))
		blind.Add(blind, b.Mul(b, big.NewInt(sign)))
	}
	for _, o := range ins {
		add(o, 1)
	}
	for _, o := range outs {
		add(o, -1)
	}
	for a, d := range diff {
		if d.Sign() != 0 {
			return fmt.Errorf("inputs minus outputs of asset %s is %v", a[:8], d)
		}
	}
	if blind.Mod(blind, btcec.S256().N).Sign() != 0 {
		return fmt.Errorf("blinding factors do not add up")
	}
	return nil
}

// VerifyTx judges a final transaction as a node would: every input known,
// signed (P2WPKH), amounts and blinders balanced, surjection proofs good and
// exactly one explicit fee output.
func VerifyTx(
	tx *transaction.Transaction,
	prev func(txid string, vout uint32) *transaction.TxOutput,
	blindKey func(script string) []byte,
) error {
	return VerifyTxWith(tx, prev, func(out *transaction.TxOutput) (*Opening, error) {
		return Open(out, blindKey(hex.EncodeToString(out.Script)))
	})
}

// VerifyTxWith is VerifyTx for who opens outputs in their own way.
func VerifyTxWith(
	tx *transaction.Transaction,
	prev func(txid string, vout uint32) *transaction.TxOutput,
	open func(out *transaction.TxOutput) (*Opening, error),
) error {
	ins, outs := []*Opening{}, []*Opening{}
	seen := map[string]bool{}
	for i, in := range tx.Inputs {
		id := fmt.Sprintf("%x:%d", in.Hash, in.Index)
		if seen[id] {
			return fmt.Errorf("input %d spends an output twice", i)
		}
		seen[id] = true
		p := prev(hex.EncodeToString(rev(in.Hash)), in.Index)
		if p == nil {
			return fmt.Errorf("input %d missing or spent", i)
		}
		if err := VerifyP2WPKH(tx, i, p); err != nil {
			return err
		}
		o, err := open(p)
		if err != nil {
			return fmt.Errorf("input %d: %v", i, err)
		}
		ins = append(ins, o)
	}
	fees := 0
	for i, out := range tx.Outputs {
		if len(out.Script) == 0 {
			fees++
			if out.IsConfidential() {
				return fmt.Errorf("confidential fee output")
			}
		}
		o, err := open(out)
		if err != nil {
			return fmt.Errorf("output %d: %v", i, err)
		}
		outs = append(outs, o)
		if out.IsConfidential() {
			ia, ib := [][]byte{}, [][]byte{}
			for _, x := range ins {
				ia = append(ia, AssetBytes(x.Asset)[1:])
				ib = append(ib, x.ABF)
			}
			if !confidential.VerifySurjectionProof(confidential.VerifySurjectionProofArgs{
				InputAssets: ia, InputAssetBlindingFactors: ib,
				OutputAsset: AssetBytes(o.Asset)[1:], OutputAssetBlindingFactor: o.ABF, Proof: out.SurjectionProof,
			}) {
				return fmt.Errorf("surjection proof of output %d does not verify", i)
			}
		}
	}
	if fees != 1 {
		return fmt.Errorf("%d fee outputs", fees)
	}
	return Balanced(ins, outs)
}

func rev(b []byte) []byte {
	c := append([]byte{}, b...)
	for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
		c[i], c[j] = c[j], c[i]
	}
	return c
}
