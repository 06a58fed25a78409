//go:build go1.23

package hooks

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
)

// delivery is a request got by an endpoint.
type delivery struct{ endpoint, message, auth string }

// inbox is all the endpoints there are: /ok ones take everything, /bad ones
// refuse it.
type inbox struct {
	mu  sync.Mutex
	got []delivery
}

func (b *inbox) take() []delivery {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := b.got
	b.got = nil
	return r
}

func (b *inbox) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	if err != nil || r.Method != "POST" {
		w.WriteHeader(400)
		return
	}
	b.mu.Lock()
	b.got = append(b.got, delivery{r.URL.RequestURI(), string(body), r.Header.Get("Authorization")})
	b.mu.Unlock()
	if strings.HasPrefix(r.URL.Path, "/bad") {
		w.WriteHeader(500)
	}
}

// RoundTrip has the requests answered without any network.
func (b *inbox) RoundTrip(r *http.Request) (*http.Response, error) {
	if strings.HasPrefix(r.URL.Path, "/gone") {
		return nil, errors.New("connection refused")
	}
	w := httptest.NewRecorder()
	b.ServeHTTP(w, r)
	return w.Result(), nil
}

// hook is a registration.
type hook struct{ topic, endpoint, secret string }

func (h hook) String() string {
	return fmt.Sprintf("%s -> %s (secret %q)", h.topic, h.endpoint, h.secret)
}

var topics = []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW", "*"}

var secrets = []string{"", "secret", "s", "ÿ ü", "eyJhbGciOiJIUzI1NiJ9", strings.Repeat("long", 40)}

func genSecret(rt *rapid.T) string {
	if chance(rt, "odd secret", 20) {
		return rapid.String().Draw(rt, "secret")
	}
	return secrets[within(rt, "secret", len(secrets))]
}

var messages = []string{`{"txid":"ab"}`, "", "{}", "ÿ\x00\xff", strings.Repeat("long ", 1000)}

func genMessage(rt *rapid.T) string {
	return fmt.Sprintf("%d %s", within(rt, "number", 1000), messages[within(rt, "message", len(messages))])
}

// signed checks the token of a delivery.
func signed(auth, secret string) error {
	if secret == "" {
		if auth != "" {
			return fmt.Errorf("unexpected %q", auth)
		}
		return nil
	}
	p := strings.Split(strings.TrimPrefix(auth, "Bearer "), ".")
	if !strings.HasPrefix(auth, "Bearer ") || len(p) != 3 {
		return fmt.Errorf("%q is not a bearer token", auth)
	}
	m := hmac.New(sha256.New, []byte(secret))
	m.Write([]byte(p[0] + "." + p[1]))
	if sig, err := base64.RawURLEncoding.DecodeString(p[2]); err != nil || !hmac.Equal(sig, m.Sum(nil)) {
		return fmt.Errorf("%q is not signed with %q", auth, secret)
	}
	return nil
}

// faulty is a store whose writes may fail.
type faulty struct {
	securestore.SecureStorage
	mu   sync.Mutex
	fail int // writes left before one fails, 0 for never
	hits int
}

func (f *faulty) broken() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.fail > 0 {
		f.fail--
		if f.fail == 0 {
			f.hits++
			return true
		}
	}
	return false
}

func (f *faulty) AddToBucket(b, k, v []byte) error {
	if f.broken() {
		return errors.New("disk full")
	}
	return f.SecureStorage.AddToBucket(b, k, v)
}

func (f *faulty) RemoveFromBucket(b, k []byte) error {
	if f.broken() {
		return errors.New("disk full")
	}
	return f.SecureStorage.RemoveFromBucket(b, k)
}

// ward is a webhook service, the model of what it holds and its endpoints.
type ward struct {
	*story
	file  string
	base  string
	http  *esplora.Client
	in    *inbox
	disk  *faulty
	svc   ports.SecurePubSub
	pass  string
	hooks map[string]hook
	gone  []string
	loose map[string]bool // hooks that may or may not be there
}

func (w *ward) open() {
	s, err := boltsecurestore.NewSecureStorage(filepath.Dir(w.file), filepath.Base(w.file))
	if err != nil {
		w.fatalf("the store does not open: %v", err)
	}
	w.disk = &faulty{SecureStorage: s}
	if w.svc, err = webhookpubsub.NewWebhookPubSubService(w.disk, w.http); err != nil {
		w.fatalf("the service does not start: %v", err)
	}
}

func (w *ward) unlock() {
	if err := w.svc.Store().Unlock(w.pass); err != nil {
		w.fatalf("the store does not unlock: %v", err)
	}
}

func (w *ward) ids() []string {
	r := []string{}
	for id := range w.hooks {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(w.hooks[r[i]], r[i]) < fmt.Sprint(w.hooks[r[j]], r[j]) })
	return r
}

func (w *ward) meant(topic string) (must, may []string) {
	for _, id := range w.ids() {
		if h := w.hooks[id]; h.topic == topic || h.topic == "*" {
			if w.loose[id] {
				may = append(may, id)
			} else {
				must = append(must, id)
			}
		}
	}
	return
}

// list checks the subscriptions of a topic.
func (w *ward) list(topic string) {
	must, may := w.meant(topic)
	got := map[string]int{}
	for _, s := range w.svc.ListSubscriptionsForTopic(topic) {
		h, ok := w.hooks[s.Id()]
		if !ok || h.topic != topic && h.topic != "*" {
			w.fatalf("%s is listed for %s: it is not registered for it", s.Id(), topic)
		}
		if s.NotifyAt() != w.base+h.endpoint || s.IsSecured() != (h.secret != "") || s.Topic().Label() != h.topic {
			w.fatalf("%v is listed as %s -> %s secured %v", h, s.Topic().Label(), s.NotifyAt(), s.IsSecured())
		}
		got[s.Id()]++
	}
	for _, id := range append(must, may...) {
		if n := got[id]; n > 1 || n == 0 && !w.loose[id] {
			w.fatalf("%v is listed %d times for %s", w.hooks[id], n, topic)
		}
	}
}

// publish checks who gets a message.
func (w *ward) publish(topic, message string) int {
	w.in.take()
	err := w.svc.Publish(topic, message)
	must, may := w.meant(topic)
	bad := false
	for _, id := range append(append([]string{}, must...), may...) {
		bad = bad || !strings.HasPrefix(w.hooks[id].endpoint, "/ok")
	}
	if err != nil && !bad {
		w.fatalf("publishing for %s: %v", topic, err)
	}
	w.received(message, w.in.take(), must, may)
	return len(must)
}

// received matches what the endpoints got with who had to get it.
func (w *ward) received(message string, got []delivery, must, may []string) {
	used := make([]bool, len(got))
	find := func(id string) bool {
		h := w.hooks[id]
		for i, d := range got {
			if !used[i] && d.endpoint == h.endpoint && d.message == message && signed(d.auth, h.secret) == nil {
				used[i] = true
				return true
			}
		}
		return false
	}
	for _, id := range must {
		if !find(id) && strings.HasPrefix(w.hooks[id].endpoint, "/ok") {
			w.fatalf("%v did not get %.40q: the endpoints got %.300q", w.hooks[id], message, got)
		}
	}
	for _, id := range may {
		find(id)
	}
	for i, d := range got {
		if !used[i] && d.message == message {
			w.fatalf("%.200q was delivered: the hooks are %v", d, w.hooks)
		}
	}
}

func (w *ward) subscribe(h hook) (string, error) {
	return w.svc.Subscribe(h.topic, w.base+h.endpoint, h.secret)
}

var endpoints = []string{"/ok/1", "/ok/2", "/ok/3?k=v&x=%20", "/ok/4", "/ok/1", "/bad/1", "/gone/1"}

func genHook(rt *rapid.T) hook {
	return hook{topics[within(rt, "topic", len(topics))], endpoints[within(rt, "endpoint", len(endpoints))], genSecret(rt)}
}

func (w *ward) genID(rt *rapid.T) string {
	if ids := w.ids(); len(ids) > 0 && !chance(rt, "not there", 15) {
		return ids[within(rt, "hook", len(ids))]
	}
	if len(w.gone) > 0 {
		return w.gone[within(rt, "gone", len(w.gone))]
	}
	return "6c7ac8bd-0000-0000-0000-000000000000"
}

// removed updates the model.
func (w *ward) removed(id string) {
	if _, ok := w.hooks[id]; ok {
		delete(w.hooks, id)
		delete(w.loose, id)
		w.gone = append(w.gone, id)
	}
}

func newWard(rt *rapid.T, network bool) *ward {
	w := &ward{story: &story{rt: rt}, file: filepath.Join(tempDir(rt), "pubsub.db"), in: &inbox{}, hooks: map[string]hook{}, loose: map[string]bool{}}
	if network {
		s := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if strings.HasPrefix(r.URL.Path, "/gone") {
				panic(http.ErrAbortHandler)
			}
			w.in.ServeHTTP(rw, r)
		}))
		rt.Cleanup(s.Close)
		w.base, w.http = s.URL, esplora.NewHTTPClient(20*time.Second)
		rt.Cleanup(func() { w.http.CloseIdleConnections() })
	} else {
		w.base, w.http = "http://hooks.test:1234", &esplora.Client{Client: &http.Client{Transport: w.in}}
	}
	return w
}

func TestC28Hooks(t *testing.T) {
	vt.Check(t, 600, 8000, "a message got to two hooks or more after one was removed or the store was reopened", func(rt *rapid.T, c *vt.Case) {
		w := newWard(rt, chance(rt, "network", 25))
		w.open()
		defer func() { w.svc.Store().Close() }()
		w.pass = "password"
		if err := w.svc.Store().Init(w.pass); err != nil {
			w.fatalf("init: %v", err)
		}
		w.unlock()
		reopened, removals, wide := false, 0, false
		for n := 5 + within(rt, "steps", 40); n > 0; n-- {
			switch k := within(rt, "step", 100); {
			case k < 30:
				h := genHook(rt)
				id, err := w.subscribe(h)
				if err != nil {
					w.fatalf("subscribe %v: %v", h, err)
				}
				if _, ok := w.hooks[id]; ok || id == "" {
					w.fatalf("subscribe %v: id %q again", h, id)
				}
				w.hooks[id] = h
				w.did("subscribe %v", h)
			case k < 42:
				id := w.genID(rt)
				if err := w.svc.Unsubscribe("", id); err != nil {
					w.fatalf("unsubscribe %v: %v", w.hooks[id], err)
				}
				w.did("unsubscribe %v", w.hooks[id])
				if _, ok := w.hooks[id]; ok {
					removals++
				}
				w.removed(id)
			case k < 67:
				topic := topics[within(rt, "topic", len(topics))]
				times := 1
				if chance(rt, "many", 10) {
					times = 1 + within(rt, "times", 20)
				}
				for ; times > 0; times-- {
					m := w.publish(topic, genMessage(rt))
					wide = wide || m > 1 && (removals > 0 || reopened)
				}
				w.did("publish %s", topic)
			case k < 77:
				w.list(topics[within(rt, "topic", len(topics))])
			case k < 82:
				w.svc.Store().Lock()
				w.did("lock")
				if !w.svc.Store().IsLocked() {
					w.fatalf("it is not locked")
				}
				if id, err := w.subscribe(genHook(rt)); err == nil {
					w.fatalf("the hook %s is added while locked", id)
				}
				w.unlock()
			case k < 86:
				p := fmt.Sprintf("password %d", within(rt, "password", 5))
				if err := w.svc.Store().ChangePassword(w.pass, p); err != nil {
					w.fatalf("change of password: %v", err)
				}
				w.pass = p
				w.did("change password")
				fallthrough
			case k < 90:
				if err := w.svc.Store().Close(); err != nil {
					w.fatalf("close: %v", err)
				}
				w.open()
				if chance(rt, "init", 50) { // as it is done on unlock
					if err := w.svc.Store().Init(w.pass); err != nil {
						w.fatalf("init again: %v", err)
					}
				}
				w.unlock()
				reopened = true
				w.did("reopen")
			case k < 94:
				// A write fails: what was asked may or may not be done, nothing else is touched.
				w.disk.fail = 1 + within(rt, "write", 3)
				if chance(rt, "add", 50) {
					h := genHook(rt)
					id, err := w.subscribe(h)
					w.did("subscribe %v with a failing disk: %v", h, err)
					if err != nil {
						id = "?" + h.String()
					} else {
						w.hooks[id] = h
					}
					_ = id
					if err != nil { // it must not be there
						for _, s := range w.svc.ListSubscriptionsForTopic(h.topic) {
							if _, ok := w.hooks[s.Id()]; !ok {
								w.fatalf("%v is listed: subscribing failed with %v", h, err)
							}
						}
					}
				} else {
					id := w.genID(rt)
					err := w.svc.Unsubscribe("", id)
					w.did("unsubscribe %v with a failing disk: %v", w.hooks[id], err)
					if err == nil {
						w.removed(id)
					} else if _, ok := w.hooks[id]; ok {
						w.disk.fail = 0
						if err := w.svc.Unsubscribe("", id); err != nil {
							w.fatalf("unsubscribe %v again: %v", w.hooks[id], err)
						}
						w.removed(id)
					}
				}
				c.Class("a write failed: %v", w.disk.hits > 0)
				w.disk.fail = 0
			default:
				w.crowd(rt, c)
			}
		}
		for _, tp := range topics {
			w.list(tp)
			w.publish(tp, "last "+tp)
		}
		if wide {
			c.NonTrivial("%s", w)
		}
	})
}

// crowd has everything done at the same time.
func (w *ward) crowd(rt *rapid.T, c *vt.Case) {
	type job struct {
		kind        int
		h           hook
		id, message string
	}
	var jobs []job
	before := map[string]hook{}
	for id, h := range w.hooks {
		before[id] = h
	}
	leaving, sent := map[string]bool{}, map[string]string{}
	for n := 2 + within(rt, "jobs", 7); n > 0; n-- {
		j := job{kind: within(rt, "job", 4), h: genHook(rt)}
		switch j.kind {
		case 1:
			j.id = w.genID(rt)
			leaving[j.id] = true
		case 2:
			j.message = fmt.Sprintf("%d at once %s", n, genMessage(rt))
			sent[j.message] = j.h.topic
		}
		jobs = append(jobs, j)
	}
	w.in.take()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var problem error
	added := map[string]hook{}
	start := make(chan struct{})
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			switch j.kind {
			case 1:
				if err := w.svc.Unsubscribe("", j.id); err != nil {
					mu.Lock()
					problem = fmt.Errorf("unsubscribe: %v", err)
					mu.Unlock()
				}
			case 2:
				w.svc.Publish(j.h.topic, j.message)
			default:
				id, err := w.subscribe(j.h)
				mu.Lock()
				if err != nil {
					problem = fmt.Errorf("subscribe: %v", err)
				}
				added[id] = j.h
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	w.did("at once: %d jobs, %d hooks added, %d removed, %d messages", len(jobs), len(added), len(leaving), len(sent))
	if problem != nil {
		w.fatalf("%v", problem)
	}
	got := w.in.take()
	for id, h := range added {
		w.hooks[id] = h
	}
	for message, topic := range sent {
		var must, may []string
		for _, id := range w.ids() {
			h := w.hooks[id]
			if h.topic != topic && h.topic != "*" {
				continue
			}
			if _, ok := before[id]; ok && !leaving[id] {
				must = append(must, id)
			} else {
				may = append(may, id)
			}
		}
		w.received(message, got, must, may)
	}
	for id := range leaving {
		w.removed(id)
	}
	if len(added)+len(leaving) > 1 {
		c.Class("changes at once")
	}
	for _, tp := range topics {
		w.list(tp)
	}
}
