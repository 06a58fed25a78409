//go:build go1.23

package storage

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"testing"
	"unsafe"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/timshannon/badgerhold/v2"
)

func TestMain(m *testing.M) {
	if dir := os.Getenv("VERIF_CRASH_DIR"); dir != "" {
		crashChild(dir)
		return
	}
	vt.Main(m)
}

// ctx is the context of the steps: that of the transaction they are part of,
// if any.
var ctx = context.Background()

func inCtx(c context.Context, f func() error) error {
	was := ctx
	ctx = c
	defer func() { ctx = was }()
	return f()
}

// open opens one of the two drivers: the in-memory one, or the badger one
// living in memory.
func open(rt *rapid.T) (string, ports.RepoManager) {
	if rapid.Bool().Draw(rt, "inmemory") {
		return "inmemory", inmemory.NewRepoManager()
	}
	rm, err := dbbadger.NewRepoManager("", nil)
	if err != nil {
		panic(err)
	}
	return "badger", rm
}

func id(i int) uuid.UUID {
	var u uuid.UUID
	copy(u[:], txlib.H("id", i))
	return u
}

func within(rt *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, label) }

func blob(rt *rapid.T, label string, n int) []byte {
	if n = rapid.IntRange(0, n).Draw(rt, label); n == 0 {
		return nil
	}
	b := make([]byte, 0, n)
	for len(b) < n {
		b = append(b, txlib.H(label, n, len(b))...)
	}
	return b[:n]
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("[verif-error] %v", err))
	}
}

// shut closes a store. The daemon opens one per process and leaves behind a
// goroutine holding it; for the many opened here its memory is given back.
func shut(rm ports.RepoManager) {
	rm.Close()
	v := reflect.ValueOf(rm)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.Elem().NumField(); i++ {
		f := v.Elem().Field(i)
		if f.Type() != reflect.TypeOf((*badgerhold.Store)(nil)) || f.IsNil() {
			continue
		}
		db := reflect.ValueOf((*badgerhold.Store)(f.UnsafePointer()).Badger()).Elem()
		for j := 0; j < db.NumField(); j++ {
			if g := db.Field(j); g.Kind() == reflect.Ptr || g.Kind() == reflect.Slice {
				reflect.NewAt(g.Type(), unsafe.Pointer(g.UnsafeAddr())).Elem().Set(reflect.Zero(g.Type()))
			}
		}
	}
}
