//go:build go1.23

package expl

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/transaction"
)

// coin is an output of the chain.
type coin struct {
	tx    *chainTx
	n     uint32
	owner int // of keys, or -1
	asset string
	value uint64
	conf  bool
	spent bool
	out   *transaction.TxOutput
}

type chainTx struct {
	id, hex string
	tx      *transaction.Transaction
	height  int // 0: in mempool
	seq     int
	outs    []*coin
}

// watchedScript is an address imported in the wallet of the Elements node.
type watchedScript struct {
	blind []byte
	since int // sequence number of the first transaction seen
	label string
}

// fault breaks one request, or all those alike from then on.
type fault struct {
	target  string // kind of request
	kind    int
	a, b    int
	forever bool
	done    int
}

var faultNames = []string{
	"", "connection error", "error status", "garbage", "empty body", "body cut by the connection",
	"stalled body", "stalled request", "null", "wrong type", "mutated reply", "truncated reply", "error status with the right body",
}

// node is a backend of the explorer clients: an Esplora server and an Elements
// node on the same chain.
type node struct {
	mu      sync.Mutex
	height  int
	branch  map[int]int // times a block of a height was replaced
	keys    []*txlib.Key
	txs     []*chainTx
	byID    map[string]*chainTx
	watched map[string]*watchedScript
	fault   *fault
	sent    []string
	refuse  bool
	odd     string // an unexpected request
	slow    int
}

// cur is the backend that answers the requests of the process.
var cur *node

func init() { http.DefaultTransport = transport{} }

type transport struct{}

// RoundTrip implements http.RoundTripper.
func (transport) RoundTrip(req *http.Request) (*http.Response, error) { return cur.serve(req) }

func blockHash(h int) string { return fmt.Sprintf("%064x", 0xb10c0000+h+cur.branch[h]<<32) }
func blockTime(h int) int    { return 1600000000 + 60*h }

func (n *node) tx(id string) *chainTx { return n.byID[id] }

// scriptOf gives the output script of an address, nil if it's not one.
func scriptOf(addr string) []byte {
	s, err := address.ToOutputScript(addr)
	if err != nil {
		return nil
	}
	return s
}

// unspents gives the unspent outputs of a script.
func (n *node) unspents(script []byte) []*coin {
	list := make([]*coin, 0)
	for _, t := range n.txs {
		for _, c := range t.outs {
			if !c.spent && len(c.out.Script) > 0 && bytes.Equal(c.out.Script, script) {
				list = append(list, c)
			}
		}
	}
	return list
}

// involved lists the transactions that pay or spend a script.
func (n *node) involved(script []byte) []*chainTx {
	list := make([]*chainTx, 0)
	for _, t := range n.txs {
		in := false
		for _, c := range t.outs {
			in = in || bytes.Equal(c.out.Script, script)
		}
		for _, i := range t.tx.Inputs {
			if p := n.byID[hex.EncodeToString(rev(i.Hash))]; p != nil && int(i.Index) < len(p.outs) {
				in = in || bytes.Equal(p.outs[i.Index].out.Script, script)
			}
		}
		if in {
			list = append(list, t)
		}
	}
	return list
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func sum(s string) (h uint32) {
	for _, b := range []byte(s) {
		h = h*31 + uint32(b)
	}
	return h % 1000
}

type reply struct {
	status int
	body   string
}

// serve answers with the configured fault, if it's for this kind of request.
func (n *node) serve(req *http.Request) (*http.Response, error) {
	body := ""
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		req.Body.Close()
		body = string(b)
	}
	n.mu.Lock()
	kind, rep := n.answer(req, body)
	f := n.fault
	if f != nil && (f.target != kind || f.done > 0 && !f.forever) {
		f = nil
	}
	if f != nil {
		f.done++
	}
	slow := n.slow
	n.mu.Unlock()
	if slow > 0 {
		// the order of the replies is not that of the requests
		d := time.Duration(len(body)+7*int(sum(req.URL.Path+body)))*131%997*time.Millisecond + time.Millisecond
		select {
		case <-time.After(d * time.Duration(slow) / 3):
		case <-req.Context().Done():
			return nil, req.Context().Err()
		}
	}
	res := &http.Response{
		StatusCode: rep.status, Status: http.StatusText(rep.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Request: req, ContentLength: -1,
	}
	var r io.Reader = strings.NewReader(rep.body)
	if f != nil {
		text, status := rep.body, rep.status
		switch f.kind {
		case 1:
			return nil, errors.New("connection refused")
		case 2:
			status, text = []int{500, 404, 503, 429, 401}[f.a%5], []string{"busy", "", "100% down", "<html>bad gateway</html>", `{"message":"limit exceeded"}`}[f.b%5]
		case 3:
			text = []string{"garbage", "<html></html>", "\x00\x01", "{", "zz", "%!d(string", strings.Repeat("ff", 20000), "deadbeef", "0200000000ffffffffffffffffff"}[f.a%9]
		case 4:
			text = ""
		case 5:
			r = io.MultiReader(strings.NewReader(text[:len(text)*(f.a%100)/100]), broken{})
		case 6:
			r = io.MultiReader(strings.NewReader(text[:len(text)*(f.a%100)/100]), stalled{req})
		case 7:
			<-req.Context().Done()
			return nil, req.Context().Err()
		case 8:
			text = "null"
			if f.a%2 == 1 {
				text = `{"result":null,"error":null,"id":1}`
			}
		case 9:
			text = []string{`{}`, `[]`, `"text"`, `true`, `12.5`, `[12.5]`, `["text"]`, `[{}]`, `[null]`, `[[]]`, `{"result":{},"error":null}`, `{"result":[],"error":null}`, `{"result":"text"}`, `{"result":12.5}`, `{"result":[{}]}`, `{"result":[null]}`, `{"result":["text"]}`, `{"result":true}`}[f.a%18]
			if strings.HasPrefix(rep.body, text[:len(text)-1]) || strings.HasPrefix(rep.body, `{"result":[`) && f.a%18 == 11 {
				text = `{}` // an empty list is as good as another one
			}
		case 10:
			text = mutated(text, f.a, f.b)
		case 11:
			text = text[:len(text)*(f.a%100)/100]
		case 12:
			status = []int{500, 404, 503, 429, 401}[f.a%5]
		}
		res.StatusCode, res.Status = status, http.StatusText(status)
		if f.kind != 5 && f.kind != 6 {
			r = strings.NewReader(text)
		}
	}
	res.Body = io.NopCloser(r)
	return res, nil
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

type stalled struct{ req *http.Request }

func (s stalled) Read([]byte) (int, error) {
	<-s.req.Context().Done()
	return 0, s.req.Context().Err()
}

// mutated removes a field of a JSON text or changes the type of something.
func mutated(text string, a, b int) string {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return text + "!"
	}
	// the fields, in a fixed order
	type field struct {
		get func() interface{}
		set func(interface{})
		del func()
	}
	fields := []field{}
	var walk func(interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			names := []string{}
			for k := range x {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				fields = append(fields, field{
					func() interface{} { return x[k] },
					func(v interface{}) { x[k] = v },
					func() { delete(x, k) },
				})
				walk(x[k])
			}
		case []interface{}:
			for i := range x {
				fields = append(fields, field{
					func() interface{} { return x[i] },
					func(v interface{}) { x[i] = v },
					nil,
				})
				walk(x[i])
			}
		}
	}
	walk(v)
	if len(fields) == 0 {
		return "{" + text
	}
	f := fields[a%len(fields)]
	if b%3 == 0 && f.del != nil {
		f.del()
	} else {
		// a value of another type
		other := []interface{}{nil, true, "text", json.Number("12.5"), []interface{}{}, map[string]interface{}{}, json.Number("-1"), json.Number("4294967295"), json.Number("1e300"), json.Number("18446744073709551616")}
		type kind struct{ s, n, b, l, m, z bool }
		of := func(v interface{}) kind {
			k := kind{z: v == nil}
			switch v.(type) {
			case string:
				k.s = true
			case json.Number:
				k.n = true
			case bool:
				k.b = true
			case []interface{}:
				k.l = true
			case map[string]interface{}:
				k.m = true
			}
			return k
		}
		have := of(f.get())
		for i := 0; i < len(other); i++ {
			o := other[(b+i)%len(other)]
			if of(o) != have {
				f.set(o)
				break
			}
		}
	}
	out, _ := json.Marshal(v)
	return string(out)
}

// answer gives the right reply, with the kind of the request.
func (n *node) answer(req *http.Request, body string) (string, reply) {
	if strings.HasPrefix(req.URL.Path, "/esplora/") {
		return n.esplora(req, body)
	}
	return n.rpc(req, body)
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func statusOf(t *chainTx) map[string]interface{} {
	if t.height == 0 {
		return map[string]interface{}{"confirmed": false}
	}
	return map[string]interface{}{
		"confirmed": true, "block_height": t.height, "block_hash": blockHash(t.height), "block_time": blockTime(t.height),
	}
}

func (n *node) esplora(req *http.Request, body string) (string, reply) {
	p := strings.Split(strings.TrimPrefix(req.URL.Path, "/esplora/"), "/")
	bad := reply{404, "not found"}
	switch {
	case req.Method == "GET" && strings.Join(p, "/") == "blocks/tip/height":
		return "height", reply{200, fmt.Sprint(n.height)}
	case req.Method == "POST" && len(p) == 1 && p[0] == "tx":
		if id, why := n.accept(body); why != "" {
			return "send", reply{400, why}
		} else {
			return "send", reply{200, id}
		}
	case req.Method == "GET" && len(p) == 3 && p[0] == "address":
		script := scriptOf(p[1])
		if script == nil {
			return p[2], reply{400, "invalid address"}
		}
		if p[2] == "utxo" {
			list := make([]interface{}, 0)
			for _, c := range n.unspents(script) {
				u := map[string]interface{}{"txid": c.tx.id, "vout": c.n, "status": statusOf(c.tx)}
				if c.conf {
					u["valuecommitment"], u["assetcommitment"] = hex.EncodeToString(c.out.Value), hex.EncodeToString(c.out.Asset)
					u["noncecommitment"] = hex.EncodeToString(c.out.Nonce)
				} else {
					u["value"], u["asset"] = c.value, c.asset
				}
				list = append(list, u)
			}
			return "utxo", reply{200, jsonOf(list)}
		}
		if p[2] == "txs" {
			list := make([]interface{}, 0)
			for _, t := range n.involved(script) {
				list = append(list, n.esploraTx(t))
			}
			return "txs", reply{200, jsonOf(list)}
		}
	case req.Method == "GET" && len(p) == 2 && p[0] == "tx":
		if t := n.tx(p[1]); t != nil {
			return "tx", reply{200, jsonOf(n.esploraTx(t))}
		}
		return "tx", bad
	case req.Method == "GET" && len(p) == 3 && p[0] == "tx":
		t := n.tx(p[1])
		if t == nil {
			return p[2], bad
		}
		switch p[2] {
		case "hex":
			return "hex", reply{200, t.hex}
		case "status":
			return "status", reply{200, jsonOf(statusOf(t))}
		}
	}
	n.odd = fmt.Sprintf("unexpected request %s %s", req.Method, req.URL)
	return "?", bad
}

func (n *node) esploraTx(t *chainTx) interface{} {
	ins, outs := make([]interface{}, 0), make([]interface{}, 0)
	for _, i := range t.tx.Inputs {
		in := map[string]interface{}{
			"txid": hex.EncodeToString(rev(i.Hash)), "vout": i.Index, "sequence": i.Sequence,
			"scriptsig": hex.EncodeToString(i.Script), "is_coinbase": false, "is_pegin": false,
		}
		wit := make([]string, 0)
		for _, w := range i.Witness {
			wit = append(wit, hex.EncodeToString(w))
		}
		in["witness"] = wit
		ins = append(ins, in)
	}
	for _, c := range t.outs {
		o := map[string]interface{}{"scriptpubkey": hex.EncodeToString(c.out.Script)}
		if c.conf {
			o["valuecommitment"], o["assetcommitment"] = hex.EncodeToString(c.out.Value), hex.EncodeToString(c.out.Asset)
		} else {
			o["value"], o["asset"] = c.value, c.asset
		}
		outs = append(outs, o)
	}
	return map[string]interface{}{
		"txid": t.id, "version": t.tx.Version, "locktime": t.tx.Locktime, "vin": ins, "vout": outs,
		"size": len(t.hex) / 2, "weight": t.tx.Weight(), "fee": 0, "status": statusOf(t),
	}
}

// accept adds a transaction to the mempool.
func (n *node) accept(txhex string) (id, why string) {
	n.sent = append(n.sent, txhex)
	t, err := transaction.NewTxFromHex(txhex)
	if err != nil || n.refuse {
		return "", "sendrawtransaction RPC error: {\"code\":-26,\"message\":\"min relay fee not met, 100 < 200\"}"
	}
	return t.TxHash().String(), ""
}

func (n *node) rpc(req *http.Request, body string) (string, reply) {
	var r struct {
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
		ID     json.RawMessage   `json:"id"`
	}
	if u, p, ok := req.BasicAuth(); !ok || u != "user" || p != "pass" {
		n.odd = fmt.Sprintf("credentials %q %q", u, p)
		return "auth", reply{401, ""}
	}
	if err := json.Unmarshal([]byte(body), &r); err != nil {
		n.odd = fmt.Sprintf("invalid RPC %q", body)
		return "?", reply{500, "parse error"}
	}
	result, code, msg := n.method(r.Method, r.Params)
	if code != 0 {
		return r.Method, reply{500, fmt.Sprintf(`{"result":null,"error":{"code":%d,"message":%q},"id":%s}`, code, msg, r.ID)}
	}
	kind := r.Method
	if kind == "getrawtransaction" && len(r.Params) > 1 {
		kind = "getrawtransaction1"
	}
	return kind, reply{200, fmt.Sprintf(`{"result":%s,"error":null,"id":%s}`, result, r.ID)}
}

// amount prints satoshis as Elements does.
func amount(v uint64) json.RawMessage {
	return json.RawMessage(fmt.Sprintf("%d.%08d", v/100000000, v%100000000))
}

func (n *node) confirmations(t *chainTx) int {
	if t.height == 0 {
		return 0
	}
	return n.height - t.height + 1
}

// sees tells whether the wallet of the node knows the output.
func (n *node) sees(c *coin) *watchedScript {
	w := n.watched[hex.EncodeToString(c.out.Script)]
	if w == nil || c.tx.seq < w.since {
		return nil
	}
	if c.conf {
		if c.owner < 0 || !bytes.Equal(w.blind, n.keys[c.owner].Blind.Serialize()) {
			return nil
		}
	}
	return w
}

func (n *node) method(method string, params []json.RawMessage) (result string, code int, msg string) {
	str := func(i int) string {
		s := ""
		if i < len(params) {
			json.Unmarshal(params[i], &s)
		}
		return s
	}
	switch method {
	case "getblockcount":
		return fmt.Sprint(n.height), 0, ""
	case "listlabels":
		list := []string{""}
		for _, w := range n.watched {
			list = append(list, w.label)
		}
		sort.Strings(list)
		return jsonOf(list), 0, ""
	case "importmulti":
		var reqs []struct {
			ScriptPubKey struct{ Address string }
			Label        string
			Timestamp    json.RawMessage
			Watchonly    bool
			Blind        string `json:"blinding_privkey"`
		}
		var opts struct{ Rescan bool }
		if len(params) < 1 || json.Unmarshal(params[0], &reqs) != nil {
			return "", -1, "importmulti"
		}
		if len(params) > 1 {
			json.Unmarshal(params[1], &opts)
		}
		list := make([]interface{}, 0)
		for _, r := range reqs {
			script := scriptOf(r.ScriptPubKey.Address)
			blind, err := hex.DecodeString(r.Blind)
			if script == nil || err != nil || !r.Watchonly || len(r.Timestamp) == 0 {
				list = append(list, map[string]interface{}{"success": false, "error": map[string]interface{}{"code": -5, "message": "Invalid address"}})
				continue
			}
			since := len(n.txs)
			w := n.watched[hex.EncodeToString(script)]
			if opts.Rescan && string(r.Timestamp) == "0" {
				since = 0
			} else if w != nil {
				since = w.since
			}
			n.watched[hex.EncodeToString(script)] = &watchedScript{blind: blind, since: since, label: r.Label}
			list = append(list, map[string]interface{}{"success": true})
		}
		return jsonOf(list), 0, ""
	case "listunspent":
		var addrs []string
		if len(params) < 3 || json.Unmarshal(params[2], &addrs) != nil {
			return "", -1, "listunspent"
		}
		var min, max int
		json.Unmarshal(params[0], &min)
		json.Unmarshal(params[1], &max)
		seen := map[string]bool{}
		list := make([]interface{}, 0)
		for _, a := range addrs {
			script := scriptOf(a)
			if script == nil {
				return "", -5, "Invalid Bitcoin address: " + a
			}
			if seen[a] {
				return "", -8, "Invalid parameter, duplicated address: " + a
			}
			seen[a] = true
			for _, c := range n.unspents(script) {
				w := n.sees(c)
				conf := n.confirmations(c.tx)
				if w == nil || conf < min || conf > max {
					continue
				}
				u := map[string]interface{}{
					"txid": c.tx.id, "vout": c.n, "address": a, "label": w.label, "scriptPubKey": hex.EncodeToString(c.out.Script),
					"amount": amount(c.value), "asset": c.asset, "confirmations": conf, "spendable": false, "solvable": false, "safe": true,
					"amountblinder": strings.Repeat("0", 64), "assetblinder": strings.Repeat("0", 64),
				}
				if c.conf {
					u["amountcommitment"], u["assetcommitment"] = hex.EncodeToString(c.out.Value), hex.EncodeToString(c.out.Asset)
					u["amountblinder"], u["assetblinder"] = hex.EncodeToString(txlib.H("vb")), hex.EncodeToString(txlib.H("ab"))
				}
				list = append(list, u)
			}
		}
		return jsonOf(list), 0, ""
	case "getrawtransaction":
		t := n.tx(str(0))
		if t == nil {
			return "", -5, "No such mempool or blockchain transaction. Use gettransaction for wallet transactions."
		}
		if len(params) < 2 {
			return jsonOf(t.hex), 0, ""
		}
		e := n.esploraTx(t).(map[string]interface{})
		delete(e, "status")
		delete(e, "fee")
		e["hex"] = t.hex
		if t.height > 0 {
			e["confirmations"], e["blockhash"], e["time"] = n.confirmations(t), blockHash(t.height), blockTime(t.height)
		}
		return jsonOf(e), 0, ""
	case "gettransaction":
		t := n.tx(str(0))
		if t == nil || !n.mine(t) {
			return "", -5, "Invalid or non-wallet transaction id"
		}
		e := map[string]interface{}{"txid": t.id, "hex": t.hex, "confirmations": n.confirmations(t), "time": 1600000000, "details": []interface{}{}}
		if t.height > 0 {
			e["blockhash"], e["blocktime"], e["blockheight"] = blockHash(t.height), blockTime(t.height), t.height
		}
		return jsonOf(e), 0, ""
	case "getblock":
		for h := 1; h <= n.height; h++ {
			if blockHash(h) == str(0) {
				return jsonOf(map[string]interface{}{"hash": blockHash(h), "height": h, "time": blockTime(h), "confirmations": n.height - h + 1}), 0, ""
			}
		}
		return "", -5, "Block not found"
	case "listreceivedbyaddress":
		script := scriptOf(str(3))
		w := n.watched[hex.EncodeToString(script)]
		if script == nil || w == nil {
			return "[]", 0, ""
		}
		ids := make([]string, 0)
		for _, t := range n.txs {
			for _, c := range t.outs {
				if bytes.Equal(c.out.Script, script) && n.sees(c) != nil {
					ids = append(ids, t.id)
					break
				}
			}
		}
		return jsonOf([]interface{}{map[string]interface{}{
			"involvesWatchonly": true, "address": str(3), "amount": map[string]interface{}{}, "confirmations": 0, "label": w.label, "txids": ids,
		}}), 0, ""
	case "sendrawtransaction":
		id, why := n.accept(str(0))
		if why != "" {
			return "", -26, why
		}
		return jsonOf(id), 0, ""
	}
	n.odd = "unexpected RPC " + method
	return "", -32601, "Method not found"
}

// mine tells whether the wallet of the node knows the transaction.
func (n *node) mine(t *chainTx) bool {
	for _, c := range t.outs {
		if n.sees(c) != nil {
			return true
		}
	}
	for _, i := range t.tx.Inputs {
		if p := n.byID[hex.EncodeToString(rev(i.Hash))]; p != nil && int(i.Index) < len(p.outs) && n.sees(p.outs[i.Index]) != nil {
			return true
		}
	}
	return false
}
