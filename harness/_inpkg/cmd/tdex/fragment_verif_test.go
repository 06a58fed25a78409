//go:build go1.23

package main

import (
	"os"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/cli"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
)

// TestMain is the CLI itself when a check runs this program as such.
func TestMain(m *testing.M) {
	if os.Getenv(cli.RunEnv) != "" {
		main()
		os.Exit(0)
	}
	vt.Main(m)
}

func TestC33Market(t *testing.T) { cli.Market(t) }

func TestC33Fee(t *testing.T) { cli.Fee(t) }
