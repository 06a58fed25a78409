//go:build go1.23

package lib

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/swap"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"google.golang.org/protobuf/proto"
)

func sortedKeys(m map[string][]byte) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sameKeys(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

func copyKeys(m map[string][]byte) map[string][]byte {
	if m == nil {
		return nil
	}
	c := map[string][]byte{}
	for k, v := range m {
		c[k] = append([]byte{}, v...)
	}
	return c
}

// genTx draws the transaction of a message: ok tells whether it is a well
// formed partial transaction with all its prevouts.
func genTx(rt *rapid.T, s *shape) (tx string, ok bool) {
	p, broken := s.pset(rt)
	b64 := txlib.B64(p)
	switch rapid.IntRange(0, 27).Draw(rt, "transaction") {
	case 0:
		return "", false
	case 1:
		return b64[:4*within(rt, "cut", len(b64)/4)], false
	case 2:
		h, err := p.UnsignedTx.ToHex()
		must(err)
		return h, false
	case 3:
		return "!" + b64, false
	}
	return b64, !broken
}

// Messages of a swap: what is put in comes out, each refers to the previous
// one, and nothing is built on a malformed transaction.
func TestC10Messages(t *testing.T) {
	rule := "request, accept, complete and fail messages on generated transactions (1-4 inputs, 1-5 outputs, confidential or not, prevouts given as outputs or transactions), key maps nil, full, lacking or exceeding, sometimes with malformed transactions or incomplete prevouts; non-trivial: a message was built and read back"
	vt.Check(t, 900, 60000, rule, func(rt *rapid.T, c *vt.Case) {
		s := genShape(rt, 4, 5, 3, chance(rt, "confidential transaction", 4))
		tx, ok := genTx(rt, s)
		in, inFull := genKeys(rt, "input keys", s.inKeys())
		out, outFull := genKeys(rt, "output keys", s.outKeys())
		wantIn, wantOut := copyKeys(in), copyKeys(out)
		legit := ok && inFull && outFull
		id := rapid.SampledFrom([]string{"", "a", "0123456789abcdef", "é∑ id with spaces"}).Draw(rt, "id")
		req := swap.RequestOpts{
			Id: id, AssetToSend: txlib.Asset(within(rt, "asset sent", 3)), AmountToSend: rapid.Uint64().Draw(rt, "sent"),
			AssetToReceive: txlib.Asset(within(rt, "asset received", 3)), AmountToReceive: rapid.Uint64().Draw(rt, "received"),
			PsetBase64: tx, InputBlindingKeys: in, OutputBlindingKeys: out,
		}
		msg, err := swap.Request(req)
		if (err == nil) != legit {
			rt.Fatalf("request on %s (inputs keys complete: %v, output keys complete: %v, transaction fine: %v): %v", clip(tx), inFull, outFull, ok, err)
		}
		if !sameKeys(in, wantIn) || !sameKeys(out, wantOut) {
			rt.Fatalf("key maps modified")
		}
		if err != nil {
			c.Class("request refused")
		} else {
			for _, read := range readers {
				r, err := read.request(msg)
				if err != nil {
					rt.Fatalf("%s cannot read the request: %v", read.name, err)
				}
				if id != "" && r.GetId() != id || r.GetId() == "" || r.GetAssetP() != req.AssetToSend || r.GetAmountP() != req.AmountToSend ||
					r.GetAssetR() != req.AssetToReceive || r.GetAmountR() != req.AmountToReceive || r.GetTransaction() != tx || !sameKeys(r.GetInputBlindingKey(), wantIn) {
					rt.Fatalf("request altered: %v", r)
				}
				if got := r.GetOutputBlindingKey(); !sameKeys(got, wantOut) {
					if sameKeys(got, wantIn) && vt.KnownFinding("C10", "swap.Request puts the input blinding keys in place of the output blinding keys of the message") {
						continue
					}
					rt.Fatalf("output keys altered: %v, want %v", got, wantOut)
				}
			}
			if id == "" {
				again, err := swap.Request(req)
				must(err)
				a, b := &pb.SwapRequest{}, &pb.SwapRequest{}
				must(proto.Unmarshal(msg, a))
				must(proto.Unmarshal(again, b))
				if a.Id == b.Id {
					rt.Fatalf("two requests with id %s", a.Id)
				}
			}
		}

		// the accept answers whatever request it is given
		reqID := rapid.SampledFrom([]string{"", "r1", "0123456789abcdef"}).Draw(rt, "request id")
		given, err := proto.Marshal(&pb.SwapRequest{Id: reqID, AssetP: req.AssetToSend, AmountP: 1, Transaction: "whatever"})
		must(err)
		garbage := chance(rt, "garbage request", 8)
		if garbage {
			given = []byte{0xff, 0x01, 0x80}
		}
		accID, acc, err := swap.Accept(swap.AcceptOpts{Message: given, PsetBase64: tx, InputBlindingKeys: in, OutputBlindingKeys: out})
		if (err == nil) != (legit && !garbage) {
			rt.Fatalf("accept (garbage request: %v, transaction fine: %v, keys complete: %v %v): %v", garbage, ok, inFull, outFull, err)
		}
		if err != nil {
			c.Class("accept refused")
		} else {
			for _, read := range readers {
				a, err := read.accept(acc)
				if err != nil {
					rt.Fatalf("%s cannot read the accept: %v", read.name, err)
				}
				if a.GetId() != accID || accID == "" || a.GetRequestId() != reqID || a.GetTransaction() != tx || !sameKeys(a.GetInputBlindingKey(), wantIn) || !sameKeys(a.GetOutputBlindingKey(), wantOut) {
					rt.Fatalf("accept altered: %v", a)
				}
			}
			c.NonTrivial("%d inputs, %d outputs, keys %v/%v, message %x", len(s.coins), len(s.outs), len(in), len(out), txlib.H(string(acc))[:4])
		}

		code := rapid.SampledFrom([]int{0, 1, 2, 7, 1 << 20}).Draw(rt, "code")
		text := rapid.String().Draw(rt, "text")
		failID, fail, err := swap.Fail(swap.FailOpts{MessageID: reqID, ErrCode: swap.ErrCode(code), ErrMessage: text})
		if err != nil && strings.ToValidUTF8(text, "") == text {
			rt.Fatalf("fail with text %q: %v", text, err)
		}
		if err == nil {
			for _, read := range readers {
				f, err := read.fail(fail)
				if err != nil || f.GetId() != failID || failID == "" || f.GetMessageId() != reqID || f.GetFailureCode() != uint32(code) || !strings.HasSuffix(f.GetFailureMessage(), text) {
					rt.Fatalf("fail altered: %v (%v), want code %d and text %q", f, err, code, text)
				}
			}
		}
	})
}

// readers read messages: the protocol's own definition and the daemon.
var readers = []struct {
	name     string
	request  func([]byte) (domain.SwapRequest, error)
	accept   func([]byte) (domain.SwapAccept, error)
	complete func([]byte) (domain.SwapComplete, error)
	fail     func([]byte) (domain.SwapFail, error)
}{
	{"protobuf",
		func(b []byte) (domain.SwapRequest, error) { m := &pb.SwapRequest{}; return m, proto.Unmarshal(b, m) },
		func(b []byte) (domain.SwapAccept, error) { m := &pb.SwapAccept{}; return m, proto.Unmarshal(b, m) },
		func(b []byte) (domain.SwapComplete, error) {
			m := &pb.SwapComplete{}
			return m, proto.Unmarshal(b, m)
		},
		func(b []byte) (domain.SwapFail, error) { m := &pb.SwapFail{}; return m, proto.Unmarshal(b, m) },
	},
	{"daemon",
		func(b []byte) (domain.SwapRequest, error) { return domain.SwapParserManager.DeserializeRequest(b) },
		func(b []byte) (domain.SwapAccept, error) { return domain.SwapParserManager.DeserializeAccept(b) },
		func(b []byte) (domain.SwapComplete, error) { return domain.SwapParserManager.DeserializeComplete(b) },
		func(b []byte) (domain.SwapFail, error) { return domain.SwapParserManager.DeserializeFail(b) },
	},
}

func clip(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s..(%d)", s[:40], len(s))
	}
	return s
}

// A completion carries the accepted transaction, signed.
func TestC10Complete(t *testing.T) {
	rule := "accepted transactions of 1-3 inputs completed with themselves (partial or raw, signed by all, by some, with spoilt signatures), with other transactions or garbage; non-trivial: completed, or refused for signatures or for being another transaction"
	vt.Check(t, 300, 15000, rule, func(rt *rapid.T, c *vt.Case) {
		s := genShape(rt, 3, 3, 2, false)
		p := txlib.Pset(s.coins, s.outs)
		accepted := txlib.B64(p)
		accID := rapid.SampledFrom([]string{"", "a1", "0123456789abcdef"}).Draw(rt, "accept id")
		acc, err := proto.Marshal(&pb.SwapAccept{Id: accID, Transaction: accepted})
		must(err)
		other := rapid.IntRange(0, 9).Draw(rt, "other") == 0
		if other {
			coins := append([]*txlib.Coin{}, s.coins...)
			switch {
			case len(s.coins) > 1 && rapid.Bool().Draw(rt, "drop input"):
				coins = coins[1:]
				p = txlib.Pset(coins, s.outs)
			case rapid.Bool().Draw(rt, "output value"):
				outs := append(s.outs[:len(s.outs):len(s.outs)], txlib.Out(txlib.Asset(0), 1, txlib.NewKey("thief").Script))
				p = txlib.Pset(coins, outs)
			default:
				x := *coins[0]
				x.Vout++
				coins[0] = &x
				p = txlib.Pset(coins, s.outs)
			}
		}
		signed, spoilt := 0, false
		for i := range p.Inputs {
			if rapid.IntRange(0, 7).Draw(rt, "unsigned") == 0 {
				continue
			}
			for _, co := range s.coins {
				if bytes.Equal(co.Out.Script, p.Inputs[i].WitnessUtxo.Script) {
					must(txlib.Sign(p, i, co.Key))
					signed++
					break
				}
			}
			if rapid.IntRange(0, 9).Draw(rt, "spoil") == 0 {
				// a good signature, but of something else
				q := txlib.Pset(s.coins, append(s.outs[:len(s.outs):len(s.outs)], txlib.Out(txlib.Asset(0), 7, nil)))
				for j := range q.Inputs {
					if bytes.Equal(q.Inputs[j].WitnessUtxo.Script, p.Inputs[i].WitnessUtxo.Script) {
						for _, co := range s.coins {
							if bytes.Equal(co.Out.Script, q.Inputs[j].WitnessUtxo.Script) {
								must(txlib.Sign(q, j, co.Key))
								break
							}
						}
						if len(q.Inputs[j].PartialSigs) > 0 {
							p.Inputs[i].PartialSigs = q.Inputs[j].PartialSigs
							spoilt = true
						}
						break
					}
				}
			}
		}
		all := signed == len(p.Inputs) && !spoilt
		tx, raw, garbage := txlib.B64(p), false, false
		switch rapid.IntRange(0, 5).Draw(rt, "form") {
		case 0:
			if all {
				h, _, err := txlib.Final(p)
				must(err)
				tx, raw = h, true
			}
		case 1:
			if chance(rt, "garbage", 3) {
				tx, garbage = rapid.SampledFrom([]string{"", "zz", "00", tx[:40]}).Draw(rt, "what"), true
			}
		}
		want := tx
		id, msg, err := swap.Complete(swap.CompleteOpts{Message: acc, Transaction: tx})
		legit := !other && !garbage && (raw || all)
		if (err == nil) != legit {
			rt.Fatalf("complete with another transaction: %v, raw: %v, all signed: %v (spoilt %v), garbage: %v: %v", other, raw, all, spoilt, garbage, err)
		}
		if err == nil {
			for _, read := range readers {
				m, err := read.complete(msg)
				if err != nil || m.GetId() != id || id == "" || m.GetAcceptId() != accID || m.GetTransaction() != want {
					rt.Fatalf("complete altered: %v (%v)", m, err)
				}
			}
			c.NonTrivial("%d inputs, raw %v %s", len(s.coins), raw, p.UnsignedTx.TxHash().String())
		} else if !garbage {
			c.Class("refused")
			c.NonTrivial("%s %d inputs: other %v, signed %d, spoilt %v, raw %v", p.UnsignedTx.TxHash().String(), len(s.coins), other, signed, spoilt, raw)
		}
	})
}

// A completed transaction backs its request exactly if its inputs cover and
// its outputs contain the amounts of the request.
func TestC10Validate(t *testing.T) {
	rule := "transactions of 1-5 inputs and 1-5 outputs of 3 assets, confidential or not, judged for requests with amounts at, just below and just above the totals of the inputs, or of one of the outputs, with keys complete, lacking or wrong; non-trivial: backed, or not backed with all keys there"
	vt.Check(t, 500, 30000, rule, func(rt *rapid.T, c *vt.Case) {
		s := genShape(rt, 5, 3, 3, chance(rt, "confidential transaction", 3))
		var edges []int
		total := map[string]uint64{}
		for _, co := range s.coins {
			total[co.Asset] += co.Value
		}
		// outputs of what the inputs sum up to, or nearly
		for i := 0; i < 2 && rapid.IntRange(0, 3).Draw(rt, "output at the edge") > 0; i++ {
			asset := s.coins[within(rt, "edge asset", len(s.coins))].Asset
			v := total[asset] + uint64(rapid.SampledFrom([]int64{-1, 0, 0, 0, 0, 1}).Draw(rt, "edge"))
			if v == 0 {
				continue
			}
			k := txlib.NewKey("out", within(rt, "owner", 3))
			if chance(rt, "confidential edge", 6) {
				s.add(txlib.BlindOut(asset, v, k.Script, k.BlindPub.SerializeCompressed(), txlib.H("eabf", i), txlib.H("evbf", i), txlib.H("eeph", i)), asset, v, k)
			} else {
				s.add(txlib.Out(asset, v, k.Script), asset, v, k)
			}
			edges = append(edges, len(s.clear)-1)
		}
		p, broken := s.pset(rt)
		pick := func(label string) (string, uint64) {
			i := within(rt, label, len(s.clear))
			if len(edges) > 0 && rapid.IntRange(0, 3).Draw(rt, label+" at the edge") > 0 {
				i = edges[within(rt, label+" which", len(edges))]
			}
			o := s.clear[i]
			asset, v := o.Asset, o.Value
			switch rapid.IntRange(0, 11).Draw(rt, label+" off") {
			case 0:
				v++
			case 1:
				v--
			case 2:
				asset = txlib.Asset(within(rt, label+" asset", 4))
			}
			return asset, v
		}
		req := &pb.SwapRequest{}
		req.AssetP, req.AmountP = pick("sent")
		req.AssetR, req.AmountR = pick("received")
		in, inFull := s.inKeys(), true
		out, outFull := s.outKeys(), true
		spoil := func(m map[string][]byte, label string) bool {
			if len(m) == 0 || rapid.IntRange(0, 9).Draw(rt, label) > 0 {
				return true
			}
			k := sortedKeys(m)[within(rt, label+" key", len(m))]
			if rapid.Bool().Draw(rt, label+" wrong") {
				m[k] = txlib.H("wrong")
			} else {
				delete(m, k)
			}
			return false
		}
		inFull, outFull = spoil(in, "input keys"), spoil(out, "output keys")
		has := func(asset string, v uint64) bool {
			for _, o := range s.clear {
				if o.Asset == asset && o.Value == v {
					return true
				}
			}
			return false
		}
		backed := !broken && total[req.AssetP] >= req.AmountP && total[req.AssetR] >= req.AmountR && has(req.AssetP, req.AmountP) && has(req.AssetR, req.AmountR)
		err := swap.ValidateCompletePset(swap.ValidateCompletePsetOpts{PsetBase64: txlib.B64(p), InputBlindingKeys: in, OutputBlindingKeys: out, SwapRequest: req})
		show := func() string {
			var l []string
			for _, co := range s.coins {
				l = append(l, fmt.Sprintf("in %s %d conf %v", co.Asset[:6], co.Value, co.Out.IsConfidential()))
			}
			for i, o := range s.clear {
				l = append(l, fmt.Sprintf("out %s %d conf %v", o.Asset[:6], o.Value, s.outs[i].IsConfidential()))
			}
			return fmt.Sprintf("request %d of %s for %d of %s\n%s\nbroken %v, input keys %v, output keys %v", req.AmountP, req.AssetP[:6], req.AmountR, req.AssetR[:6], strings.Join(l, "\n"), broken, inFull, outFull)
		}
		if err == nil && !backed {
			rt.Fatalf("accepted: %s", show())
		}
		if err != nil && backed && inFull && outFull {
			rt.Fatalf("refused (%v): %s", err, show())
		}
		if err == nil {
			c.Class("backed")
			c.NonTrivial("%s", strings.ReplaceAll(show(), "\n", "; "))
		} else if inFull && outFull {
			c.Class("not backed")
			c.NonTrivial("%s", strings.ReplaceAll(show(), "\n", "; "))
		}
	})
}

var _ = hex.EncodeToString
var _ pset.Pset
