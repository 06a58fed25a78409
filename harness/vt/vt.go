//go:build go1.23

// Package vt is the glue between the property checks and run.py: tiers, seeds,
// case accounting (evidence), hang guards and known findings.
package vt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
)

// Thorough tells whether the thorough tier is requested.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the seed of this run.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// shard tells which part of how many this process runs.
func shard() (i, n int) {
	if _, err := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &i, &n); err != nil || n < 1 {
		return 0, 1
	}
	return i, n
}

// Replaying tells whether a single recorded failure is being replayed.
func Replaying() bool { return os.Getenv("VERIF_REPLAY") != "" }

type testStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Classes     map[string]int `json:"classes"`
	Keys        []string       `json:"keys,omitempty"`
	seen        map[[16]byte]bool
}

var (
	mu    sync.Mutex
	stats = map[string]*testStats{}
)

func statsOf(name, rule string) *testStats {
	s := stats[name]
	if s == nil {
		s = &testStats{Classes: map[string]int{}, seen: map[[16]byte]bool{}}
		stats[name] = s
	}
	if rule != "" {
		s.Rule = rule
	}
	return s
}

// Case accounts for one generated case.
type Case struct {
	s      *testStats
	sample string
	key    string
	non    bool
}

// Class counts the case under a label.
func (c *Case) Class(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	c.s.Classes[fmt.Sprintf(format, a...)]++
}

// NonTrivial marks the case as non-trivial; key identifies it for the count of
// distinct cases, and is kept as a sample for the first few.
func (c *Case) NonTrivial(format string, a ...interface{}) {
	if c.non {
		return
	}
	c.non = true
	c.key = fmt.Sprintf(format, a...)
}

func (c *Case) done() {
	mu.Lock()
	defer mu.Unlock()
	c.s.Evaluations++
	if !c.non {
		return
	}
	h := sha256.Sum256([]byte(c.key))
	var k [16]byte
	copy(k[:], h[:])
	if c.s.seen[k] {
		return
	}
	c.s.seen[k] = true
	if _, sh := shard(); sh > 1 {
		c.s.Keys = append(c.s.Keys, hex.EncodeToString(k[:]))
	}
	c.s.NonTrivial++
	n := c.s.NonTrivial
	if n <= 2 || n == 10 || n == 100 {
		s := c.key
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.s.Samples = append(c.s.Samples, s)
	}
}

// N picks the number of cases for the tier; VERIF_SCALE multiplies it.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if _, sh := shard(); sh > 1 {
		n = (n + sh - 1) / sh
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil {
		n = int(float64(n) * f)
		if n < 1 {
			n = 1
		}
	}
	return n
}

// Check runs prop over quick or thorough generated cases.
func Check(
	t *testing.T, quick, thorough int, rule string,
	prop func(rt *rapid.T, c *Case),
) {
	t.Helper()
	flag.Set("rapid.checks", strconv.Itoa(N(quick, thorough)))
	name := t.Name()
	mu.Lock()
	s := statsOf(name, rule)
	mu.Unlock()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{s: s}
		prop(rt, c)
		c.done()
	})
}

// One accounts for one enumerated (not generated) case.
func One(t *testing.T, rule string, f func(c *Case)) {
	t.Helper()
	mu.Lock()
	s := statsOf(t.Name(), rule)
	mu.Unlock()
	c := &Case{s: s}
	f(c)
	c.done()
}

// HangLimit is deliberately far beyond what a loaded machine needs.
const HangLimit = 120 * time.Second

// Guard runs f and reports whether it returned within HangLimit; a panic in f
// is returned as text.
func Guard(f func()) (panicked string, hung bool) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				ch <- fmt.Sprintf("panic: %v\n%s", r, buf)
				return
			}
			ch <- ""
		}()
		f()
	}()
	select {
	case p := <-ch:
		return p, false
	case <-time.After(HangLimit):
		return "", true
	}
}

// NoCrash fails the case if f panics or never returns.
func NoCrash(t interface{ Fatalf(string, ...interface{}) }, what string, f func()) {
	p, hung := Guard(f)
	if hung {
		t.Fatalf("%s: did not return within %v", what, HangLimit)
	}
	if p != "" {
		t.Fatalf("%s: %s", what, p)
	}
}

var knownSeen sync.Map

// KnownFinding tells whether a failure, identified by "what", is a finding
// listed in known_findings.txt, and prints its line (once) if so.
func KnownFinding(property, what string) bool {
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "known: property="+property+" "+what {
			if _, ok := knownSeen.LoadOrStore(property+what, true); !ok {
				fmt.Printf("\nKNOWN-FINDING: property=%s %s\n", property, what)
			}
			return true
		}
	}
	return false
}

// Main is the TestMain of every check package.
func Main(m *testing.M) {
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	} else {
		log.SetLevel(log.DebugLevel)
	}
	log.StandardLogger().ExitFunc = func(code int) { panic(fmt.Sprintf("log.Fatal called (exit %d)", code)) }
	flag.Parse()
	if os.Getenv("VERIF_SEED") != "" {
		i, _ := shard()
		s := uint64(Seed()) + uint64(i)*0x9e3779b97f4a7c15
		if s == 0 {
			s = 0x9e3779b97f4a7c15
		}
		flag.Set("rapid.seed", strconv.FormatUint(s, 10))
	}
	st := os.Getenv("VERIF_SHRINK")
	if st == "" {
		st = "20s"
	}
	flag.Set("rapid.shrinktime", st)
	code := m.Run()
	if out := os.Getenv("VERIF_STATS"); out != "" {
		mu.Lock()
		b, _ := json.MarshalIndent(stats, "", " ")
		mu.Unlock()
		os.WriteFile(out, b, 0o644)
	}
	os.Exit(code)
}
