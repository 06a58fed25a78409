//go:build go1.23

package lib

import (
	"encoding/base64"
	"os"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
)

func genText(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 4).Draw(rt, label+" kind") {
	case 0:
		return rapid.StringN(1, 6, -1).Draw(rt, label)
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 1, 100).Draw(rt, label))
	case 2:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"abandon", "ability", "zoo", "leave"}), 12, 24).Draw(rt, label), " ")
	case 3:
		return strings.Repeat(rapid.SampledFrom([]string{"a", "\x00", "é"}).Draw(rt, label), rapid.SampledFrom([]int{1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300}).Draw(rt, label+" length"))
	}
	return rapid.SampledFrom([]string{"a", " ", "\x00", "pass", "Pass", "pass ", "p\x00", "0"}).Draw(rt, label)
}

// near gives a passphrase that differs from p in one place.
func near(rt *rapid.T, p string) string {
	b := []byte(p)
	i := within(rt, "where", len(b))
	switch rapid.IntRange(0, 6).Draw(rt, "difference") {
	case 0:
		b[i] ^= 1 << within(rt, "bit", 8)
	case 1:
		b = append(b, rapid.SampledFrom([]byte{' ', 'a', 1, '\n'}).Draw(rt, "more"))
	case 2:
		b = append([]byte{rapid.SampledFrom([]byte{' ', 'a', 1}).Draw(rt, "more")}, b...)
	case 3:
		if len(b) > 1 {
			b = b[:len(b)-1]
		} else {
			b = append(b, b...)
		}
	case 4:
		b = append(b, b...)
	case 5:
		x := strings.ToUpper(p)
		if x == p {
			x = strings.ToLower(p)
		}
		b = []byte(x)
	default:
		b = []byte(genText(rt, "other"))
	}
	return string(b)
}

// sameForScrypt: passphrases HMAC takes for the same key (it pads short keys
// with zero bytes), which no scheme based on it can tell apart.
func sameForScrypt(a, b string) bool {
	if len(a) > 64 || len(b) > 64 {
		return a == b
	}
	return strings.TrimRight(a, "\x00") == strings.TrimRight(b, "\x00")
}

func cypherCase(rt *rapid.T, c *vt.Case, tries int) {
	text, pass := genText(rt, "text"), genText(rt, "pass")
	ct, err := wallet.Encrypt(wallet.EncryptOpts{PlainText: text, Passphrase: pass})
	if err != nil {
		rt.Fatalf("encrypt %q with %q: %v", text, pass, err)
	}
	raw, err := base64.StdEncoding.DecodeString(ct)
	if err != nil {
		rt.Fatalf("not base64: %v", err)
	}
	if len(text) > 4 && (strings.Contains(string(raw), text) || strings.Contains(ct, text)) {
		rt.Fatalf("the text %q is in its cipher text", text)
	}
	if len(pass) > 4 && (strings.Contains(string(raw), pass) || strings.Contains(ct, pass)) {
		rt.Fatalf("the passphrase %q is in the cipher text", pass)
	}
	ct2, err := wallet.Encrypt(wallet.EncryptOpts{PlainText: text, Passphrase: pass})
	if err != nil || ct2 == ct {
		rt.Fatalf("encrypted twice with the same result (%v)", err)
	}
	got, err := wallet.Decrypt(wallet.DecryptOpts{CypherText: ct, Passphrase: pass})
	if err != nil || got != text {
		rt.Fatalf("decrypted %q (%v), want %q", got, err, text)
	}
	for i := 0; i < tries; i++ {
		refused := func(what, ct, pass string) {
			var got string
			var err error
			vt.NoCrash(rt, what, func() { got, err = wallet.Decrypt(wallet.DecryptOpts{CypherText: ct, Passphrase: pass}) })
			if err == nil {
				rt.Fatalf("%s decrypts to %q (text was %q)", what, got, text)
			}
			c.Class(what)
		}
		switch rapid.IntRange(0, 5).Draw(rt, "attack") {
		case 0:
			if p := near(rt, pass); !sameForScrypt(p, pass) {
				refused("another passphrase", ct, p)
			}
		case 1:
			b := append([]byte{}, raw...)
			b[within(rt, "byte", len(b))] ^= 1 << within(rt, "bit", 8)
			refused("a cipher text with one bit changed", base64.StdEncoding.EncodeToString(b), pass)
		case 2:
			n := within(rt, "cut", len(raw))
			b := raw[:n]
			if rapid.Bool().Draw(rt, "front") {
				b = raw[len(raw)-n:]
			}
			refused("a truncated cipher text", base64.StdEncoding.EncodeToString(b), pass)
		case 3:
			b := append(append([]byte{}, raw...), byte(within(rt, "extra", 256)))
			if rapid.Bool().Draw(rt, "front") {
				b = append([]byte{byte(within(rt, "extra", 256))}, raw...)
			}
			refused("a prolonged cipher text", base64.StdEncoding.EncodeToString(b), pass)
		case 4:
			s := rapid.OneOf(rapid.StringN(0, 80, -1), rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 90), base64.StdEncoding.EncodeToString)).Draw(rt, "garbage")
			refused("garbage", s, pass)
		case 5:
			// parts of two cipher texts of the same text
			raw2, _ := base64.StdEncoding.DecodeString(ct2)
			n := rapid.IntRange(1, len(raw)-1).Draw(rt, "splice")
			if n > len(raw2) {
				continue
			}
			b := string(raw[:n]) + string(raw2[n:])
			if b != string(raw) && b != string(raw2) {
				refused("a spliced cipher text", base64.StdEncoding.EncodeToString([]byte(b)), pass)
			}
		}
	}
	c.NonTrivial("%d characters, passphrase of %d", len(text), len(pass))
}

func TestC13Cypher(t *testing.T) {
	rule := "texts and passphrases (short, long, binary, words, at block limits), each decrypted with the right passphrase and attacked 6 times: near passphrases, changed bits, truncations, extensions, garbage, splices; key derivation at reduced cost; non-trivial: round trip done"
	vt.Check(t, 400, 20000, rule, func(rt *rapid.T, c *vt.Case) { cypherCase(rt, c, 6) })
	vt.NoCrash(t, "empty arguments", func() {
		if _, err := wallet.Encrypt(wallet.EncryptOpts{PlainText: "", Passphrase: "a"}); err == nil {
			t.Fatalf("encrypts nothing")
		}
		if _, err := wallet.Encrypt(wallet.EncryptOpts{PlainText: "a", Passphrase: ""}); err == nil {
			t.Fatalf("encrypts without passphrase")
		}
		if _, err := wallet.Decrypt(wallet.DecryptOpts{CypherText: "", Passphrase: "a"}); err == nil {
			t.Fatalf("decrypts nothing")
		}
	})
}

func TestC13Real(t *testing.T) {
	os.Setenv("VERIF_REAL_SCRYPT", "1")
	rule := "as TestC13Cypher with the real cost of key derivation and one attack; non-trivial: round trip done"
	vt.Check(t, 2, 20, rule, func(rt *rapid.T, c *vt.Case) { cypherCase(rt, c, 1) })
}
