//go:build go1.23

package expl

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func within(rt *rapid.T, name string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, name) }

func chance(rt *rapid.T, name string, pct int) bool { return within(rt, name, 100) < pct }

// rarely is for choices that matter: the shrinker goes to false.
func rarely(rt *rapid.T, name string, pct int) bool { return within(rt, name, 100) >= 100-pct }

// story tells what was done when something is wrong.
type story struct {
	rt  *rapid.T
	txt []string
}

func (s *story) did(f string, a ...interface{}) { s.txt = append(s.txt, fmt.Sprintf(f, a...)) }

func (s *story) fatalf(f string, a ...interface{}) {
	s.rt.Helper()
	s.rt.Fatalf("%s\nafter %s", fmt.Sprintf(f, a...), s.String())
}

func (s *story) String() string {
	b := &bytes.Buffer{}
	for i, t := range s.txt {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(t)
	}
	return b.String()
}

func must(rt *rapid.T, err error) {
	rt.Helper()
	if err != nil {
		rt.Fatalf("[verif-error] %v", err)
	}
}

// tempDir is a scratch directory removed when the case ends.
func tempDir(rt *rapid.T) string {
	dir, err := os.MkdirTemp("", "verif")
	must(rt, err)
	rt.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}
