//go:build go1.23

package lib

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

func genIndex(rt *rapid.T, label string) uint32 {
	switch rapid.IntRange(0, 3).Draw(rt, label+" kind") {
	case 0:
		return uint32(rapid.IntRange(0, 20).Draw(rt, label))
	case 1:
		return rapid.SampledFrom([]uint32{0, 1, 9, 10, 99, 1<<31 - 1, 1 << 31, 1<<31 + 1, math.MaxUint32}).Draw(rt, label)
	}
	return rapid.Uint32().Draw(rt, label)
}

func TestC14Paths(t *testing.T) {
	rule := "derivation paths of 1-6 steps, also at the limits of the ranges, written and read back; other texts near paths; non-trivial: a path of several steps"
	vt.Check(t, 3000, 200000, rule, func(rt *rapid.T, c *vt.Case) {
		var p wallet.DerivationPath
		for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "steps"); i < n; i++ {
			p = append(p, genIndex(rt, "step"))
		}
		var want []string
		for _, x := range p {
			if x >= 1<<31 {
				want = append(want, fmt.Sprintf("%d'", x-1<<31))
			} else {
				want = append(want, fmt.Sprint(x))
			}
		}
		if p.String() != "m/"+strings.Join(want, "/") {
			rt.Fatalf("%v is written %s", []uint32(p), p.String())
		}
		texts := []string{p.String()}
		if len(p) > 1 {
			texts = append(texts, strings.Join(want, "/"))
		}
		for _, s := range texts {
			q, err := wallet.ParseDerivationPath(s)
			if err != nil || fmt.Sprint(q) != fmt.Sprint(p) {
				rt.Fatalf("%s read as %v (%v), want %v", s, []uint32(q), err, []uint32(p))
			}
		}
		if len(p) > 1 {
			c.NonTrivial("%s", p.String())
		}
		// anything else is read as some path or refused
		b := []byte(p.String())
		b[within(rt, "where", len(b))] = rapid.SampledFrom([]byte("/'m 0-+.xe_z\x00")).Draw(rt, "what")
		s := string(b)
		var q wallet.DerivationPath
		var err error
		vt.NoCrash(rt, "reading "+s, func() { q, err = wallet.ParseDerivationPath(s) })
		if err == nil {
			r, err := wallet.ParseDerivationPath(q.String())
			if err != nil || fmt.Sprint(r) != fmt.Sprint(q) {
				rt.Fatalf("%q read as %s, read as %v (%v)", s, q.String(), r, err)
			}
			if n := strings.Count(strings.TrimPrefix(s, "m/"), "/") + 1; len(q) != n {
				rt.Fatalf("%q of %d steps read as %s", s, n, q.String())
			}
		}
	})
}

func newWallet(i int) *wallet.Wallet {
	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: txlib.Mnemonic(i)})
	if err != nil {
		panic(fmt.Sprintf("[verif-error] %v", err))
	}
	return w
}

var nets = []*network.Network{&network.Liquid, &network.Regtest}

func TestC14Keys(t *testing.T) {
	rule := "keys, scripts, addresses and blinding keys of random wallets and paths compared with an independent derivation (BIP32, BIP84, SLIP77); non-trivial: always"
	vt.Check(t, 300, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		m := within(rt, "mnemonic", 12)
		w, hd := newWallet(m), txlib.NewHD(txlib.Mnemonic(m))
		acc, chain, index := rapid.IntRange(0, 60).Draw(rt, "account"), rapid.IntRange(0, 3).Draw(rt, "chain"), int(genIndex(rt, "index")&^(1<<31))
		path := txlib.Path([3]int{acc, chain, index})
		if rapid.Bool().Draw(rt, "with m") {
			path = "m/" + path
		}
		net := nets[within(rt, "network", len(nets))]
		k := hd.Key(acc, chain, index)
		priv, pub, err := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: path})
		if err != nil || !bytes.Equal(priv.Serialize(), k.Priv.Serialize()) || !pub.IsEqual(k.Pub) {
			rt.Fatalf("signing key of %s: %v", path, err)
		}
		addr, script, err := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: path, Network: net})
		if err != nil || addr != k.AddressOn(net) || !bytes.Equal(script, k.Script) {
			rt.Fatalf("address of %s: %s %x (%v), want %s %x", path, addr, script, err, k.AddressOn(net), k.Script)
		}
		bpriv, bpub, err := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: script})
		if err != nil || !bytes.Equal(bpriv.Serialize(), k.Blind.Serialize()) || !bpub.IsEqual(k.BlindPub) {
			rt.Fatalf("blinding key of %s: %v", path, err)
		}
		if out, err := address.ToOutputScript(addr); err != nil || !bytes.Equal(out, script) {
			rt.Fatalf("%s pays to %x (%v), want %x", addr, out, err, script)
		}
		if conf, err := address.FromConfidential(addr); err != nil || !bytes.Equal(conf.BlindingKey, bpub.SerializeCompressed()) {
			rt.Fatalf("blinding key of %s is wrong (%v)", addr, err)
		}
		a, err1 := w.ExtendedPrivateKey(wallet.ExtendedKeyOpts{Account: uint32(acc)})
		b, err2 := w.ExtendedPrivateKey(wallet.ExtendedKeyOpts{Account: uint32(acc) + 1})
		x, err3 := w.ExtendedPublicKey(wallet.ExtendedKeyOpts{Account: uint32(acc)})
		if err1 != nil || err2 != nil || err3 != nil || a == b || a == x {
			rt.Fatalf("extended keys: %v %v %v", err1, err2, err3)
		}
		c.NonTrivial("wallet %d %s on %s", m, path, net.Name)
	})
}

// blindScene is a balanced transaction spending a wallet's coins, still
// unblinded, with the coins of a counterparty next to them in case of swaps.
type blindScene struct {
	w      *wallet.Wallet
	hd     *txlib.HD
	coins  []*txlib.Coin
	outs   []*transaction.TxOutput
	clear  []txlib.Opening
	owners []*txlib.Key
	paths  map[string]string // of the wallet's inputs
	fee    uint64
}

func genBlindScene(rt *rapid.T, maxIn, maxOut int, alone bool) *blindScene {
	m := within(rt, "mnemonic", 5)
	s := &blindScene{w: newWallet(m), hd: txlib.NewHD(txlib.Mnemonic(m)), paths: map[string]string{}}
	total := map[string]uint64{}
	lbtc := network.Regtest.AssetID
	for i, n := 0, rapid.IntRange(1, maxIn).Draw(rt, "inputs"); i < n; i++ {
		asset := lbtc
		if i > 0 && rapid.Bool().Draw(rt, "other asset") {
			asset = txlib.Asset(within(rt, "asset", 2))
		}
		k := txlib.NewKey("trader", within(rt, "trader", 2))
		if alone || rapid.Bool().Draw(rt, "own") {
			id := [3]int{within(rt, "account", 3), within(rt, "chain", 2), within(rt, "index", 3)}
			k = s.hd.Key(id[0], id[1], id[2])
			s.paths[k.ScriptHex()] = txlib.Path(id)
		}
		c := txlib.NewCoin(hex.EncodeToString(txlib.H("tx", i)), uint32(i), asset, amount(rt, "value")+10, k)
		if rapid.Bool().Draw(rt, "confidential") {
			c.Confidential()
		}
		s.coins = append(s.coins, c)
		total[asset] += c.Value
	}
	s.fee = rapid.Uint64Range(1, 9).Draw(rt, "fee")
	total[lbtc] -= s.fee
	n := 0
	for _, asset := range []string{lbtc, txlib.Asset(0), txlib.Asset(1)} {
		rest := total[asset]
		for i := 0; rest > 0; i++ {
			v := rest
			if n++; n < maxOut-3 && rapid.Bool().Draw(rt, "split") {
				v = rapid.Uint64Range(1, rest).Draw(rt, "part")
			}
			rest -= v
			k := txlib.NewKey("trader", within(rt, "receiver", 4))
			if rapid.Bool().Draw(rt, "to wallet") {
				k = s.hd.Key(within(rt, "account", 3), 1, within(rt, "index", 3))
			}
			s.outs = append(s.outs, txlib.Out(asset, v, k.Script))
			s.clear = append(s.clear, txlib.Opening{Asset: asset, Value: v})
			s.owners = append(s.owners, k)
		}
	}
	return s
}

func addFee(b64 string, fee uint64) (string, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return "", err
	}
	u, err := pset.NewUpdater(p)
	if err != nil {
		return "", err
	}
	u.AddOutput(txlib.Out(network.Regtest.AssetID, fee, []byte{}))
	return p.ToBase64()
}

func TestC14Blind(t *testing.T) {
	rule := "balanced transactions of 1-5 inputs (own or not, confidential or not) and 1-6 outputs to several receivers, blinded in the 4 ways the package offers, then completed and signed; non-trivial: the transaction was judged final and balanced, every output opened"
	vt.Check(t, 90, 4000, rule, func(rt *rapid.T, c *vt.Case) {
		way := within(rt, "way", 4)
		s := genBlindScene(rt, 5, 6, way == 0)
		p := txlib.Pset(s.coins, s.outs)
		inKeys, outKeys := map[string][]byte{}, map[string][]byte{}
		inData := map[int]wallet.BlindingData{}
		var pubs [][]byte
		for i, co := range s.coins {
			inKeys[co.Key.ScriptHex()] = co.Key.Blind.Serialize()
			inData[i] = wallet.BlindingData{Asset: co.Asset, Amount: co.Value, AssetBlinder: co.ABF, AmountBlinder: co.VBF}
		}
		for _, k := range s.owners {
			outKeys[k.ScriptHex()] = k.Blind.Serialize()
			pubs = append(pubs, k.BlindPub.SerializeCompressed())
		}
		b64 := txlib.B64(p)
		// what the wallet reads out of the inputs is what they are
		got, _, err := wallet.ExtractBlindingDataFromTx(b64, inKeys, nil)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(inData) {
			rt.Fatalf("inputs read as %v (%v), want %v", got, err, inData)
		}
		var res string
		switch way {
		case 0:
			res, err = s.w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{PsetBase64: b64, OutputBlindingKeys: pubs})
		case 1:
			res, err = s.w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{PsetBase64: b64, InputBlindingData: got, OutputBlindingKeys: pubs})
		case 2:
			res, err = s.w.BlindSwapTransactionWithKeys(wallet.BlindSwapTransactionWithKeysOpts{PsetBase64: b64, InputBlindingKeys: inKeys, OutputBlindingKeys: outKeys})
		case 3:
			res, err = s.w.BlindSwapTransactionWithData(wallet.BlindSwapTransactionWithDataOpts{PsetBase64: b64, InputBlindingData: got, OutputBlindingKeys: outKeys})
		}
		if err != nil {
			rt.Fatalf("blinding (way %d) of %d inputs and %d outputs: %v", way, len(s.coins), len(s.outs), err)
		}
		_, outData, err := wallet.ExtractBlindingDataFromTx(res, nil, outKeys)
		if err != nil {
			rt.Fatalf("reading the blinded outputs: %v", err)
		}
		bp, err := pset.NewPsetFromBase64(res)
		must(err)
		if len(bp.UnsignedTx.Outputs) != len(s.outs) || len(bp.UnsignedTx.Inputs) != len(s.coins) {
			rt.Fatalf("blinding changed the number of inputs or outputs")
		}
		for i, o := range bp.UnsignedTx.Outputs {
			if !o.IsConfidential() || !bytes.Equal(o.Script, s.outs[i].Script) {
				rt.Fatalf("output %d not blinded or of another script", i)
			}
			r, ok := transactionutil.UnblindOutput(o, s.owners[i].Blind.Serialize())
			if !ok || r.AssetHash != s.clear[i].Asset || r.Value != s.clear[i].Value {
				rt.Fatalf("output %d opens as %v, want %v", i, r, s.clear[i])
			}
			if d := outData[i]; d.Asset != s.clear[i].Asset || d.Amount != s.clear[i].Value || !bytes.Equal(d.AssetBlinder, r.AssetBlinder) || !bytes.Equal(d.AmountBlinder, r.ValueBlinder) {
				rt.Fatalf("output %d read as %v, want %v", i, d, s.clear[i])
			}
			if r, ok := transactionutil.UnblindOutput(o, txlib.NewKey("thief").Blind.Serialize()); ok {
				rt.Fatalf("another key opens output %d: %v", i, r)
			}
			if bytes.Contains(o.Value, txlib.ValueBytes(s.clear[i].Value)) || bytes.Contains(o.Asset, txlib.AssetBytes(s.clear[i].Asset)[1:]) {
				rt.Fatalf("output %d shows its content", i)
			}
		}
		res, err = addFee(res, s.fee)
		must(err)
		// sign: all at once if all is the wallet's, else input by input
		if len(s.paths) > 0 && alone(s) && rapid.Bool().Draw(rt, "sign all") {
			res, err = s.w.SignTransaction(wallet.SignTransactionOpts{PsetBase64: res, DerivationPathMap: s.paths})
			if err != nil {
				rt.Fatalf("sign: %v", err)
			}
		} else {
			for i, co := range s.coins {
				path, own := s.paths[co.Key.ScriptHex()]
				if !own {
					continue
				}
				res, err = s.w.SignInput(wallet.SignInputOpts{PsetBase64: res, InIndex: uint32(i), DerivationPath: path})
				if err != nil {
					rt.Fatalf("sign input %d: %v", i, err)
				}
			}
		}
		fp, err := pset.NewPsetFromBase64(res)
		must(err)
		for i, co := range s.coins {
			if _, own := s.paths[co.Key.ScriptHex()]; own != (len(fp.Inputs[i].PartialSigs) > 0) {
				rt.Fatalf("input %d is the wallet's: %v, signatures: %d", i, own, len(fp.Inputs[i].PartialSigs))
			}
		}
		for i, co := range s.coins {
			if _, own := s.paths[co.Key.ScriptHex()]; !own {
				must(txlib.Sign(fp, i, co.Key))
			}
		}
		txHex, txid, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: txlib.B64(fp)})
		if err != nil {
			rt.Fatalf("finalize: %v", err)
		}
		tx, err := transaction.NewTxFromHex(txHex)
		if err != nil || tx.TxHash().String() != txid {
			rt.Fatalf("final transaction %s (%v)", txid, err)
		}
		if err := txlib.VerifyTx(tx,
			func(id string, vout uint32) *transaction.TxOutput {
				for _, co := range s.coins {
					if co.TxID == id && co.Vout == vout {
						return co.Out
					}
				}
				return nil
			},
			func(script string) []byte {
				for _, co := range s.coins {
					if co.Key.ScriptHex() == script {
						return co.Key.Blind.Serialize()
					}
				}
				return outKeys[script]
			}); err != nil {
			rt.Fatalf("the network refuses the transaction: %v", err)
		}
		var ins, outs []int
		for range s.coins {
			ins = append(ins, wallet.P2WPKH)
		}
		for range s.outs {
			outs = append(outs, wallet.P2WPKH)
		}
		if e := wallet.EstimateTxSize(ins, nil, nil, outs, nil); e < tx.VirtualSize() {
			rt.Fatalf("size estimated as %d, is %d", e, tx.VirtualSize())
		}
		c.Class(fmt.Sprintf("way %d", way))
		c.NonTrivial("way %d: %d inputs, %d outputs, txid %s", way, len(s.coins), len(s.outs), txid)
	})
}

func alone(s *blindScene) bool {
	for _, co := range s.coins {
		if _, ok := s.paths[co.Key.ScriptHex()]; !ok {
			return false
		}
	}
	return true
}

var someProofs [][2][]byte

// proofs of outputs blinded by the library.
func proofs(i int) (rangeProof, surjection []byte) {
	if someProofs == nil {
		for j := 0; j < 6; j++ {
			v := uint64(1)
			for k := 0; k < j*3; k++ {
				v *= 10
			}
			if j == 5 {
				v = 2100000000000000
			}
			k := txlib.NewKey("p", j)
			o := txlib.BlindOut(txlib.Asset(0), v, k.Script, k.BlindPub.SerializeCompressed(), txlib.H("a", j), txlib.H("v", j), txlib.H("e", j))
			// the proofs of the largest number of inputs the library can do with
			someProofs = append(someProofs, [2][]byte{o.RangeProof, make([]byte, 131)})
		}
	}
	p := someProofs[i%len(someProofs)]
	return p[0], p[1]
}

func TestC14Estimate(t *testing.T) {
	rule := "sizes estimated for 1-300 inputs (native or wrapped segwit, legacy, multisig) and 1-40 blinded outputs of any standard type compared with a transaction built that way with signatures of maximal size; non-trivial: always"
	vt.Check(t, 400, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		tx := transaction.NewTx(2)
		var ins, outs []int
		sig, pub := bytes.Repeat([]byte{1}, 72), bytes.Repeat([]byte{2}, 33)
		n := rapid.IntRange(1, rapid.SampledFrom([]int{3, 10, 300}).Draw(rt, "size")).Draw(rt, "inputs")
		kinds := rapid.IntRange(1, 6).Draw(rt, "kinds")
		var inRedeem, inWitness, outRedeem []int
		for i := 0; i < n; i++ {
			in := transaction.NewTxInput(txlib.H("in", i), uint32(i))
			switch within(rt, "input type", kinds) {
			case 0:
				ins = append(ins, wallet.P2WPKH)
				in.Witness = [][]byte{sig, pub}
			case 1:
				ins = append(ins, wallet.P2SH_P2WPKH)
				in.Script = append([]byte{22}, bytes.Repeat([]byte{3}, 22)...)
				in.Witness = [][]byte{sig, pub}
			case 2:
				ins = append(ins, wallet.P2PKH)
				in.Script = append(append(append([]byte{72}, sig...), 33), pub...)
			case 3, 4:
				// m-of-n multisig, native or wrapped
				sigs := rapid.IntRange(1, 3).Draw(rt, "signatures")
				script := bytes.Repeat([]byte{4}, 3+34*rapid.IntRange(sigs, 5).Draw(rt, "keys"))
				in.Witness = [][]byte{{}}
				size := 1 + 1 + len(script) + 1
				for j := 0; j < sigs; j++ {
					in.Witness = append(in.Witness, sig)
					size += 1 + len(sig)
				}
				in.Witness = append(in.Witness, script)
				ty := wallet.P2WSH
				if rapid.Bool().Draw(rt, "wrapped") {
					ty = wallet.P2SH_P2WSH
					in.Script = append([]byte{34}, bytes.Repeat([]byte{3}, 34)...)
				}
				ins, inWitness = append(ins, ty), append(inWitness, size)
			case 5:
				// bare multisig
				sigs := rapid.IntRange(1, 3).Draw(rt, "signatures")
				in.Script = bytes.Repeat([]byte{4}, 1+73*sigs)
				ins, inRedeem = append(ins, wallet.P2MS), append(inRedeem, 1+len(in.Script))
			}
			tx.AddInput(in)
		}
		m := rapid.IntRange(1, 40).Draw(rt, "outputs")
		types := []int{wallet.P2WPKH, wallet.P2WSH, wallet.P2PKH, wallet.P2SH_P2WPKH}
		lens := map[int]int{wallet.P2WPKH: 22, wallet.P2WSH: 34, wallet.P2PKH: 25, wallet.P2SH_P2WPKH: 23}
		for i := 0; i < m; i++ {
			ty, size := wallet.P2MS, 0
			if k := within(rt, "output type", len(types)+1); k < len(types) {
				ty, size = types[k], lens[types[k]]
			} else {
				size = 3 + 34*rapid.IntRange(1, 5).Draw(rt, "keys")
				outRedeem = append(outRedeem, 1+size)
			}
			outs = append(outs, ty)
			rp, sp := proofs(i)
			tx.AddOutput(&transaction.TxOutput{Asset: make([]byte, 33), Value: append([]byte{8}, make([]byte, 32)...), Nonce: append([]byte{2}, make([]byte, 32)...),
				Script: make([]byte, size), RangeProof: rp, SurjectionProof: sp})
			tx.Outputs[i].Asset[0] = 0x0a
		}
		tx.AddOutput(txlib.Out(txlib.Asset(0), 1, []byte{}))
		est, real := wallet.EstimateTxSize(ins, inRedeem, inWitness, outs, outRedeem), tx.VirtualSize()
		if est < real {
			rt.Fatalf("%d inputs %v and %d outputs: estimated %d, is up to %d", n, ins, m, est, real)
		}
		if est > real+real/10+50*len(outs)+40 {
			rt.Fatalf("%d inputs and %d outputs: estimated %d, is %d", n, m, est, real)
		}
		c.NonTrivial("%d inputs, %d outputs: %d for %d", n, m, est, real)
	})
}

func TestC14Buffers(t *testing.T) {
	rule := "assets, amounts, transaction ids and commitments encoded and decoded; non-trivial: always"
	vt.Check(t, 1000, 50000, rule, func(rt *rapid.T, c *vt.Case) {
		asset, v := hex.EncodeToString(txlib.H("x", rapid.Uint64().Draw(rt, "asset"))), amount(rt, "value")
		ab, err := bufferutil.AssetHashToBytes(asset)
		if err != nil || !bytes.Equal(ab, txlib.AssetBytes(asset)) || bufferutil.AssetHashFromBytes(ab) != asset || !bytes.Equal(ab, txlib.AssetBytes(asset)) {
			rt.Fatalf("asset %s: %x (%v)", asset, ab, err)
		}
		vb, err := bufferutil.ValueToBytes(v)
		if err != nil || !bytes.Equal(vb, txlib.ValueBytes(v)) || bufferutil.ValueFromBytes(vb) != v || !bytes.Equal(vb, txlib.ValueBytes(v)) {
			rt.Fatalf("value %d: %x (%v)", v, vb, err)
		}
		tb, err := bufferutil.TxIDToBytes(asset)
		if err != nil || bufferutil.TxIDFromBytes(tb) != asset || !bytes.Equal(append([]byte{1}, tb...), ab) {
			rt.Fatalf("txid %s: %x (%v)", asset, tb, err)
		}
		cb, err := bufferutil.CommitmentToBytes("0a" + asset)
		if err != nil || bufferutil.CommitmentFromBytes(cb) != "0a"+asset || cb[0] != 10 {
			rt.Fatalf("commitment: %x (%v)", cb, err)
		}
		c.NonTrivial("%s %d", asset, v)
	})
}

var _ = btcec.S256
