//go:build go1.23

package secure

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"go.etcd.io/bbolt"
)

const encKey = "enckey" // the name the store keeps for itself

var names = []string{
	"a", "b", "a_b", "_", "_a", "b_", "", encKey, "root", "\x00", "\xff\xfe", "a\x00", "0", "key with spaces",
	encKey + "2", encKey + "\x00", encKey + "_", "encke", "my" + encKey, "Enckey",
	strings.Repeat("long", 80), "\x00\x01\x02_\xff",
}

// content is what a store holds: the root bucket is "".
type content map[string]map[string][]byte

func (c content) copy() content {
	d := content{}
	for b, m := range c {
		d[b] = map[string][]byte{}
		for k, v := range m {
			d[b][k] = v
		}
	}
	return d
}

func (c content) buckets() []string {
	l := []string{}
	for b := range c {
		if b != "" {
			l = append(l, b)
		}
	}
	sort.Strings(l)
	return l
}

func (c content) entries() (n int) {
	for _, m := range c {
		n += len(m)
	}
	return
}

type storeModel struct {
	*story
	dir, file string
	s         securestore.SecureStorage
	open      bool
	made      bool // some password was set
	pw        string
	data      content
	damaged   map[[2]string]bool
	clear     [][]byte // values that were ever stored
	changes   int
}

func (m *storeModel) reopen() {
	s, err := boltsecurestore.NewSecureStorage(m.dir, m.file)
	if err != nil {
		m.fatalf("open store: %v", err)
	}
	m.s, m.open = s, false
}

func (m *storeModel) close() {
	if err := m.s.Close(); err != nil {
		m.fatalf("close: %v", err)
	}
	raw, err := os.ReadFile(filepath.Join(m.dir, m.file))
	if err != nil {
		m.fatalf("[verif-error] %v", err)
	}
	for _, v := range m.clear {
		if bytes.Contains(raw, v) {
			m.fatalf("value %x is in clear in the file", v)
		}
	}
}

// name gives one of the usual names, more often one in use.
func (m *storeModel) name(what string, inUse []string) string {
	if len(inUse) > 0 && chance(m.rt, what+"Known", 75) {
		return inUse[within(m.rt, what, len(inUse))]
	}
	if rarely(m.rt, what+"Any", 10) {
		return string(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(m.rt, what))
	}
	return names[within(m.rt, what, len(names))]
}

func (m *storeModel) bucket(what string) string {
	if len(m.data) == 0 || chance(m.rt, what+"Root", 25) {
		return ""
	}
	return m.name(what, m.data.buckets())
}

func keys(d map[string][]byte) []string {
	l := []string{}
	for k := range d {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (m *storeModel) value() []byte {
	n := []int{12, 1, 8, 33, 300, 0, 6000}[within(m.rt, "size", 7)]
	v := make([]byte, 0, n+32)
	for i := 0; len(v) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint(len(m.clear), i)))
		v = append(v, h[:]...)
	}
	v = v[:n]
	if n >= 8 && chance(m.rt, "text", 40) {
		v = []byte(fmt.Sprintf("%08d:%s", len(m.clear), strings.Repeat("text ", n/5)))
	}
	if len(v) >= 8 {
		m.clear = append(m.clear, v)
	}
	return v
}

// verdict compares whether an operation worked.
func (m *storeModel) verdict(err error, ok bool, f string, a ...interface{}) bool {
	what := fmt.Sprintf(f, a...)
	m.did("%s: %v", what, err)
	if (err == nil) != (ok && m.open) {
		m.fatalf("%s gave %v (store open: %v)", what, err, m.open)
	}
	return err == nil
}

func (m *storeModel) step(n int) {
	rt := m.rt
	switch {
	case n < 2: // new bucket
		b := m.name("newBucket", nil)
		_, data := m.data[""][b]
		err := m.s.CreateBucket([]byte(b))
		if m.verdict(err, b != "" && b != encKey && !data, "create bucket %q", b) && m.data[b] == nil {
			m.data[b] = map[string][]byte{}
		}
	case n < 8: // write
		b := m.bucket("bucket")
		k := m.name("key", keys(m.data[b]))
		v := m.value()
		d, exists := m.data[b]
		_, isBucket := m.data[k]
		given := append([]byte{}, v...)
		err := m.s.AddToBucket([]byte(b), []byte(k), given)
		if m.verdict(err, (exists || b == "") && k != "" && k != encKey && len(v) > 0 && !(b == "" && isBucket), "put %q/%q of %d bytes", b, k, len(v)) {
			if d == nil {
				d = map[string][]byte{}
				m.data[b] = d
			}
			d[k] = v
			delete(m.damaged, [2]string{b, k})
		}
		for i := range given {
			given[i] = 0
		}
	case n < 9: // read one
		b := m.bucket("bucket")
		k := m.name("key", keys(m.data[b]))
		m.read(b, k)
	case n < 11: // remove
		b := m.bucket("bucket")
		k := m.name("key", keys(m.data[b]))
		_, exists := m.data[b]
		_, isBucket := m.data[k]
		err := m.s.RemoveFromBucket([]byte(b), []byte(k))
		if m.verdict(err, (exists || b == "") && k != "" && k != encKey && !(b == "" && isBucket), "remove %q/%q", b, k) && exists {
			delete(m.data[b], k)
			delete(m.damaged, [2]string{b, k})
		}
	case n < 12: // remove bucket
		b := m.name("oldBucket", m.data.buckets())
		_, exists := m.data[b]
		err := m.s.RemoveBucket([]byte(b))
		if m.verdict(err, exists && b != "" && b != encKey, "remove bucket %q", b) {
			delete(m.data, b)
			for d := range m.damaged {
				if d[0] == b {
					delete(m.damaged, d)
				}
			}
		}
	case n < 14: // password
		old, to := m.pw, genPassword(rt, m.pw)
		nilOld, nilNew := rarely(rt, "nilOld", 5), rarely(rt, "nilNew", 5)
		if rarely(rt, "wrong", 25) {
			old = genPassword(rt, m.pw)
		}
		o, p := []byte(old), []byte(to)
		if nilOld {
			o = nil
		}
		if nilNew {
			p = nil
		}
		err := m.s.ChangePassword(o, p)
		ok := m.open && old == m.pw && !nilOld && !nilNew
		m.did("change password %q to %q: %v", old, to, err)
		if err == nil && !ok || err != nil && ok && len(m.damaged) == 0 {
			m.fatalf("change of password from %q (nil %v) to %q (nil %v) gave %v, the password is %q (open %v)", old, nilOld, to, nilNew, err, m.pw, m.open)
		}
		if err == nil {
			m.pw = to
			m.changes++
		}
	case n < 15:
		m.s.Lock()
		m.open = false
		m.did("lock")
	case n < 18:
		pw := m.pw
		if rarely(rt, "wrong", 30) {
			pw = genPassword(rt, m.pw)
		}
		m.unlock(pw)
	case n < 19:
		m.close()
		m.did("reopen")
		if rarely(rt, "damage", 15) {
			m.damage()
		}
		m.reopen()
	default:
		if !m.open {
			m.unlock(m.pw)
		}
	}
	if m.s.IsLocked() == m.open {
		m.fatalf("store open %v, tells locked %v", m.open, m.s.IsLocked())
	}
}

func (m *storeModel) unlock(pw string) {
	if !m.made {
		m.pw = pw
	}
	p := []byte(pw)
	err := m.s.CreateUnlock(&p)
	m.did("unlock %q: %v", pw, err)
	if m.open {
		if err != nil {
			m.fatalf("unlock while open: %v", err)
		}
		return
	}
	if (err == nil) != (pw == m.pw) {
		m.fatalf("unlock with %q: %v, the password is %q", pw, err, m.pw)
	}
	if err == nil {
		m.open, m.made = true, true
	}
}

// damage alters a stored value behind the back of the store.
func (m *storeModel) damage() {
	db, err := bbolt.Open(filepath.Join(m.dir, m.file), 0600, &bbolt.Options{Timeout: time.Second})
	if err != nil {
		m.fatalf("[verif-error] %v", err)
	}
	defer db.Close()
	all := [][2]string{}
	for _, b := range append(m.data.buckets(), "") {
		for _, k := range keys(m.data[b]) {
			all = append(all, [2]string{b, k})
		}
	}
	if len(all) == 0 {
		return
	}
	e := all[within(m.rt, "damaged", len(all))]
	err = db.Update(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("root"))
		if b != nil && e[0] != "" {
			b = b.Bucket([]byte(e[0]))
		}
		if b == nil || m.damaged[e] || len(b.Get([]byte(e[1]))) == 0 {
			return nil
		}
		m.damaged[e] = true
		m.did("damage %q", e)
		v := append([]byte{}, b.Get([]byte(e[1]))...)
		v[len(v)-1] ^= 1
		return b.Put([]byte(e[1]), v)
	})
	if err != nil {
		m.fatalf("[verif-error] %v", err)
	}
}

func (m *storeModel) read(b, k string) {
	d, exists := m.data[b]
	bad := m.damaged[[2]string{b, k}]
	got, err := m.s.GetFromBucket([]byte(b), []byte(k))
	if !m.open || !(exists || b == "") || k == "" || k == encKey || bad {
		if err == nil {
			m.fatalf("get %q/%q gave %x (store open %v, damaged %v)", b, k, got, m.open, bad)
		}
		return
	}
	if err != nil || !bytes.Equal(got, d[k]) {
		m.fatalf("get %q/%q gave %x, %v, want %x", b, k, got, err, d[k])
	}
}

func (m *storeModel) check() {
	list, err := m.s.ListBuckets()
	if !m.open {
		if err == nil {
			m.fatalf("buckets %q listed while locked", list)
		}
		if d, err := m.s.GetAllFromBucket(nil); err == nil {
			m.fatalf("content %q given while locked", d)
		}
		return
	}
	got := []string{}
	for _, b := range list {
		got = append(got, string(b))
	}
	sort.Strings(got)
	if want := m.data.buckets(); err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
		m.fatalf("buckets %q (%v), want %q", got, err, want)
	}
	for _, b := range append(m.data.buckets(), "") {
		bad := false
		for d := range m.damaged {
			bad = bad || d[0] == b
		}
		all, err := m.s.GetAllFromBucket([]byte(b))
		if bad {
			if err == nil {
				m.fatalf("content of %q with a damaged value is given: %q", b, all)
			}
			for _, k := range keys(m.data[b]) {
				m.read(b, k)
			}
			continue
		}
		if err != nil {
			m.fatalf("content of %q: %v", b, err)
		}
		if len(all) != len(m.data[b]) {
			m.fatalf("content of %q is %q, want %q", b, all, m.data[b])
		}
		for k, v := range m.data[b] {
			if !bytes.Equal(all[k], v) {
				m.fatalf("%q/%q is %x, want %x", b, k, all[k], v)
			}
		}
	}
	if all, err := m.s.GetAllFromBucket([]byte("no such bucket")); err == nil {
		m.fatalf("content of a bucket that is not there: %q", all)
	}
}

func TestC25Store(t *testing.T) {
	rule := "histories of 5-40 operations over adversarial bucket and key names, with lock, right and wrong passwords, password changes, reopening and altered stored values, compared with a map after each; non-trivial: a password change with at least 3 entries, and a reopening"
	vt.Check(t, 6000, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		m := &storeModel{story: &story{rt: rt}, dir: tempDir(rt), file: "s.db", data: content{}, damaged: map[[2]string]bool{}}
		m.reopen()
		defer func() { m.s.Close() }()
		m.check()
		if chance(rt, "start", 90) {
			m.unlock(genPassword(rt, "none"))
		}
		for i, n := 0, within(rt, "prepared", 12); i < n; i++ {
			m.step([]int{1, 5, 6, 7}[i%4])
			m.check()
		}
		most, before, big := 0, 0, false
		for i, n := 0, rapid.IntRange(5, 40).Draw(rt, "steps"); i < n; i++ {
			m.step(within(rt, "step", 20))
			m.check()
			if e := m.data.entries(); e > most {
				most = e
			}
			if m.changes > before {
				before = m.changes
				big = big || m.data.entries() >= 3
			}
		}
		m.close()
		m.reopen()
		if m.made {
			m.unlock(genPassword(rt, m.pw))
			m.check()
			m.unlock(m.pw)
			m.check()
		}
		m.close()
		m.reopen()
		c.Class("changes=%d", m.changes)
		c.Class("damaged=%v", len(m.damaged) > 0)
		if big {
			c.NonTrivial("%v", m.String())
		}
	})
}

// child changes the password of a store, for the parent to stop meanwhile.
func child() {
	args := strings.Split(os.Getenv("VERIF_CHILD"), "|")
	s, err := boltsecurestore.NewSecureStorage(args[0], "s.db")
	if err != nil {
		fmt.Println("failed", err)
		os.Exit(3)
	}
	pw := []byte(args[1])
	if err := s.CreateUnlock(&pw); err != nil {
		fmt.Println("failed", err)
		os.Exit(3)
	}
	fmt.Println("ready")
	if err := s.ChangePassword([]byte(args[1]), []byte(args[2])); err != nil {
		fmt.Println("failed", err)
		os.Exit(4)
	}
	os.Exit(0)
}

// The process may be killed at any time while the password is changed.
func TestC25Crash(t *testing.T) {
	rule := "the password of a store with up to 60 entries is changed by a process stopped again and again, each time the state a kill would leave is opened: either password works for all of it; non-trivial: states from before and after the change were seen"
	vt.Check(t, 160, 1000, rule, func(rt *rapid.T, c *vt.Case) {
		dir := tempDir(rt)
		s, err := boltsecurestore.NewSecureStorage(dir, "s.db")
		if err != nil {
			rt.Fatal(err)
		}
		pw := []byte("old")
		if err := s.CreateUnlock(&pw); err != nil {
			rt.Fatal(err)
		}
		data := content{"": {}}
		for i, n := 0, rapid.IntRange(5, 60).Draw(rt, "entries"); i < n; i++ {
			b := []string{"", "a", "b", "dd"}[within(rt, "bucket", 4)]
			if data[b] == nil {
				data[b] = map[string][]byte{}
				if err := s.CreateBucket([]byte(b)); err != nil {
					rt.Fatal(err)
				}
			}
			k, v := fmt.Sprint("key", i), bytes.Repeat([]byte{byte(i + 1)}, 1+within(rt, "size", 400))
			if err := s.AddToBucket([]byte(b), []byte(k), v); err != nil {
				rt.Fatal(err)
			}
			data[b][k] = v
		}
		s.Close()
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir+"|old|new")
		out, err := cmd.StdoutPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			rt.Fatalf("[verif-error] %v", err)
		}
		line := make([]byte, 6)
		if n, err := out.Read(line); err != nil || string(line[:n])[:5] != "ready" {
			cmd.Process.Kill()
			cmd.Wait()
			rt.Fatalf("the password does not open the store: %q %v", line[:n], err)
		}
		pause := time.Duration(50+within(rt, "pause", 1500)) * time.Microsecond
		images := [][]byte{}
		last := [32]byte{}
		pid := cmd.Process.Pid
		var st syscall.WaitStatus
		wait := func(opt int) {
			for {
				if _, err := syscall.Wait4(pid, &st, opt, nil); err == nil {
					return
				} else if err != syscall.EINTR {
					rt.Fatalf("[verif-error] wait: %v", err)
				}
			}
		}
		for i := 0; i < 4000; i++ {
			time.Sleep(pause)
			if syscall.Kill(pid, syscall.SIGSTOP) != nil {
				break
			}
			if wait(syscall.WUNTRACED); !st.Stopped() {
				break
			}
			raw, err := os.ReadFile(filepath.Join(dir, "s.db"))
			syscall.Kill(pid, syscall.SIGCONT)
			if err != nil {
				rt.Fatalf("[verif-error] %v", err)
			}
			if h := sha256.Sum256(raw); h != last {
				last = h
				images = append(images, raw)
			}
		}
		if !st.Exited() {
			wait(0)
		}
		if st.ExitStatus() != 0 {
			rt.Fatalf("changing the password failed with %d", st.ExitStatus())
		}
		cmd.Process.Release()
		raw, err := os.ReadFile(filepath.Join(dir, "s.db"))
		if err != nil {
			rt.Fatalf("[verif-error] %v", err)
		}
		images = append(images, raw)
		seen := map[string]bool{}
		for i, raw := range images {
			sub := filepath.Join(dir, fmt.Sprint("image", i))
			os.Mkdir(sub, 0700)
			if err := os.WriteFile(filepath.Join(sub, "s.db"), raw, 0600); err != nil {
				rt.Fatalf("[verif-error] %v", err)
			}
			s, err := boltsecurestore.NewSecureStorage(sub, "s.db")
			if err != nil {
				rt.Fatalf("after a crash: %v", err)
			}
			works := ""
			for _, p := range []string{"old", "new"} {
				pw := []byte(p)
				if s.CreateUnlock(&pw) == nil {
					works = p
					break
				}
			}
			if works == "" {
				rt.Fatalf("after a crash (state %d of %d) neither password opens the store", i, len(images))
			}
			if i == len(images)-1 && works != "new" {
				rt.Fatalf("after the change the store opens with %s", works)
			}
			seen[works] = true
			for b, d := range data {
				all, err := s.GetAllFromBucket([]byte(b))
				if err != nil {
					rt.Fatalf("after a crash (state %d of %d) the store opens with the %s password, the content of %q: %v", i, len(images), works, b, err)
				}
				if len(all) != len(d) {
					rt.Fatalf("after a crash (state %d of %d) %q has %d entries of %d", i, len(images), b, len(all), len(d))
				}
				for k, v := range d {
					if !bytes.Equal(all[k], v) {
						rt.Fatalf("after a crash %q/%q is %x, want %x", b, k, all[k], v)
					}
				}
			}
			s.Close()
			os.RemoveAll(sub)
		}
		c.Class("states=%d", len(images))
		if len(seen) == 2 {
			c.NonTrivial("%d entries, %d states", data.entries(), len(images))
		}
	})
}
