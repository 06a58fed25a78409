//go:build go1.23

// Package client checks the trader's library against a provider under the
// check's control.
package client

import (
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }
