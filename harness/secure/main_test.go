//go:build go1.23

package secure

import (
	"bytes"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		return
	}
	vt.Main(m)
}

func within(rt *rapid.T, name string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, name) }

func chance(rt *rapid.T, name string, pct int) bool { return within(rt, name, 100) < pct }

// rarely is for choices that matter: the shrinker goes to false.
func rarely(rt *rapid.T, name string, pct int) bool { return within(rt, name, 100) >= 100-pct }

// story tells what was done when something is wrong.
type story struct {
	rt  *rapid.T
	txt []string
}

func (s *story) did(f string, a ...interface{}) { s.txt = append(s.txt, fmt.Sprintf(f, a...)) }

func (s *story) fatalf(f string, a ...interface{}) {
	s.rt.Helper()
	s.rt.Fatalf("%s\nafter %s", fmt.Sprintf(f, a...), s.String())
}

func (s *story) String() string {
	b := &bytes.Buffer{}
	for i, t := range s.txt {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(t)
	}
	return b.String()
}

// tempDir is a scratch directory removed when the case ends.
func tempDir(rt *rapid.T) string {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		rt.Fatalf("[verif-error] %v", err)
	}
	rt.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

var passwords = []string{"password", "", "p", "Password", "hunter2 hunter2", "\xff\x00\x01", "пароль"}

// genPassword gives one other than some.
func genPassword(rt *rapid.T, not string) string {
	for i := within(rt, "password", len(passwords)); ; i++ {
		if p := passwords[i%len(passwords)]; p != not {
			return p
		}
	}
}

var _ = time.Second
