//go:build go1.23

package txlib

import (
	"encoding/hex"
	"fmt"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/btcsuite/btcutil/hdkeychain"
	"github.com/vulpemventures/go-bip39"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/slip77"
)

// Mnemonic gives the i-th deterministic 24 word mnemonic.
func Mnemonic(i int) []string {
	m, err := bip39.NewMnemonic(H("entropy", i))
	must(err)
	return strings.Split(m, " ")
}

// HD is an independent implementation of the wallet's key derivation:
// m/84'/0'/account'/chain/index for P2WPKH signing keys and SLIP-77 for
// blinding keys.
type HD struct {
	base  *hdkeychain.ExtendedKey
	blind *slip77.Slip77
	mu    sync.Mutex
	keys  map[[3]int]*Key
	where map[string][3]int
	upto  map[[2]int]int
}

var (
	hdMu sync.Mutex
	hds  = map[string]*HD{}
)

// NewHD derives from a mnemonic; results are cached.
func NewHD(mnemonic []string) *HD {
	hdMu.Lock()
	defer hdMu.Unlock()
	m := strings.Join(mnemonic, " ")
	if hds[m] == nil {
		seed := bip39.NewSeed(m, "")
		k, err := hdkeychain.NewMaster(seed, &chaincfg.MainNetParams)
		must(err)
		for _, i := range []uint32{84, 0} {
			k, err = k.Derive(hdkeychain.HardenedKeyStart + i)
			must(err)
		}
		b, err := slip77.FromSeed(seed)
		must(err)
		hds[m] = &HD{base: k, blind: b, keys: map[[3]int]*Key{}, where: map[string][3]int{}, upto: map[[2]int]int{}}
	}
	return hds[m]
}

// Key derives one key.
func (h *HD) Key(account, chain, index int) *Key {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.key(account, chain, index)
}

func (h *HD) key(account, chain, index int) *Key {
	id := [3]int{account, chain, index}
	if k := h.keys[id]; k != nil {
		return k
	}
	n, err := h.base.Derive(hdkeychain.HardenedKeyStart + uint32(account))
	must(err)
	n, err = n.Derive(uint32(chain))
	must(err)
	n, err = n.Derive(uint32(index))
	must(err)
	priv, err := n.ECPrivKey()
	must(err)
	pub := priv.PubKey()
	script := payment.FromPublicKey(pub, Net, nil).WitnessScript
	bpriv, bpub, err := h.blind.DeriveKey(script)
	must(err)
	k := &Key{Priv: priv, Pub: pub, Blind: bpriv, BlindPub: bpub, Script: script}
	h.keys[id] = k
	h.where[hex.EncodeToString(script)] = id
	return k
}

// Find tells which key of the wallet a script belongs to, searching the first
// n keys of both chains of the accounts.
func (h *HD) Find(script string, accounts, n int) (id [3]int, k *Key) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if id, ok := h.where[script]; ok {
		return id, h.keys[id]
	}
	for a := 0; a < accounts; a++ {
		for c := 0; c < 2; c++ {
			for i := h.upto[[2]int{a, c}]; i < n; i++ {
				h.key(a, c, i)
				h.upto[[2]int{a, c}] = i + 1
			}
		}
	}
	if id, ok := h.where[script]; ok {
		return id, h.keys[id]
	}
	return [3]int{-1, -1, -1}, nil
}

// Path formats the derivation path relative to the wallet's base path.
func Path(id [3]int) string { return fmt.Sprintf("%d'/%d/%d", id[0], id[1], id[2]) }

// AddressOn gives the confidential address on a network.
func (k *Key) AddressOn(net *network.Network) string {
	a, err := payment.FromPublicKey(k.Pub, net, k.BlindPub).ConfidentialWitnessPubKeyHash()
	must(err)
	return a
}

var _ = btcec.S256
