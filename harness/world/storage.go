//go:build go1.23

package world

import (
	"context"
	"runtime"
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
)

// RM passes through to the real repositories until killed. Timers the daemon
// leaves behind end there instead of keeping (or touching) a closed storage.
type RM struct {
	mu    sync.RWMutex
	inner ports.RepoManager
	// Gate, if set, is called before every repository access with its name.
	Gate func(what string)
}

func (r *RM) get(what string) ports.RepoManager {
	r.mu.RLock()
	defer r.mu.RUnlock()
	if r.inner == nil {
		runtime.Goexit()
	}
	if r.Gate != nil {
		r.Gate(what)
	}
	return r.inner
}

func (r *RM) kill() {
	r.mu.Lock()
	in := r.inner
	r.inner = nil
	r.mu.Unlock()
	if in != nil {
		in.Close()
	}
}

// Detach hands the storage over (to another world) instead of closing it.
func (r *RM) Detach() ports.RepoManager {
	r.mu.Lock()
	defer r.mu.Unlock()
	in := r.inner
	r.inner = nil
	return in
}

func (r *RM) VaultRepository() domain.VaultRepository   { return r.get("vault").VaultRepository() }
func (r *RM) MarketRepository() domain.MarketRepository { return r.get("market").MarketRepository() }
func (r *RM) UnspentRepository() domain.UnspentRepository {
	return r.get("unspent").UnspentRepository()
}
func (r *RM) TradeRepository() domain.TradeRepository   { return r.get("trade").TradeRepository() }
func (r *RM) Close()                                    { r.kill() }
func (r *RM) NewTransaction() ports.Transaction         { return r.get("tx").NewTransaction() }
func (r *RM) NewPricesTransaction() ports.Transaction   { return r.get("tx").NewPricesTransaction() }
func (r *RM) NewUnspentsTransaction() ports.Transaction { return r.get("tx").NewUnspentsTransaction() }
func (r *RM) RunTransaction(ctx context.Context, ro bool, h func(context.Context) (interface{}, error)) (interface{}, error) {
	return r.get("run").RunTransaction(ctx, ro, h)
}
func (r *RM) RunUnspentsTransaction(ctx context.Context, ro bool, h func(context.Context) (interface{}, error)) (interface{}, error) {
	return r.get("run").RunUnspentsTransaction(ctx, ro, h)
}
func (r *RM) RunPricesTransaction(ctx context.Context, ro bool, h func(context.Context) (interface{}, error)) (interface{}, error) {
	return r.get("run").RunPricesTransaction(ctx, ro, h)
}
