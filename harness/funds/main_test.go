//go:build go1.23

package funds

import (
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }
