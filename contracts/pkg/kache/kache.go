package kache

import (
	"context"
	"kv"
	"kvm"
	"net/http"
	"os"
	"os/signal"
	"syscall"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/server"
	"github.com/prometheus/client_golang/prometheus"
)

// kaPre: the state between reloads.
func kaPre(t *Kache) {
	kv.Requires(t != nil && kv.Held(&t.applyMu) == 0)
	kv.Requires(t.Cache != nil && t.loader != nil && cache.SpecInv(t.Cache) && config.SpecLoaded(t.loader))
}

// kaApplied: the configuration of the loader is in force.
func kaApplied(t *Kache) {
	c := t.loader.Config()
	now := cache.SpecConfig(t.Cache)
	kv.Ensures("C21:the loaded configuration is kept", kv.Same(t.Config, c))
	if c.HttpCache != nil {
		kv.Cover("section")
		kv.Ensures("C21:the loaded cache configuration is in force", kv.Same(now, c.HttpCache))
		return
	}
	kv.Cover("no section")
	kv.Ensures("C21:without a cache section the default is in force", kv.Eq(*now, cache.HttpCacheConfig{Strict: true}))
}

//kv:contract (*kache.Kache).applyConfig C21
func ctApplyConfig(t *Kache) {
	kaPre(t)
	kv.Requires(t.loader.Config() != nil)
	c := t.loader.Config()
	ups := kv.GhostInt("config.updates")
	kv.Modifies(&t.Config, t.Cache)
	kv.ModifiesGhost("config.updates")
	kv.ModifiesGhost("lock.acquired")
	if c.HttpCache != nil {
		kv.Modifies(c.HttpCache.Timeouts)
		if c.HttpCache.Exclude != nil {
			kv.Modifies(c.HttpCache.Exclude, c.HttpCache.Exclude.Content)
		}
	}
	t.applyConfig()
	kaApplied(t)
	kv.Ensures("C21:the configuration in force is the loaded one", kaReady(t))
	kv.Ensures("C21:the configuration is applied once", kv.GhostInt("config.updates") == ups+1)
}

// kaApplyLock: configurations may be loaded until a reload has its turn to apply what is loaded.
//
//kv:monitor applyMu
func kaApplyLock(t *Kache, acquire bool) {
	if acquire {
		config.SpecReloaded(t.loader)
	}
}

//kv:verify (*kache.Kache).applyConfig C21 monitor=kaApplyLock
func vfApplyConfig(t *Kache) {
	kv.Requires(t != nil && t.Cache != nil && t.loader != nil && t.loader.Config() != nil && cache.SpecInv(t.Cache) && kv.Held(&t.applyMu) == 0)
	n := kv.GhostInt("lock.acquired")
	t.applyConfig()
	kv.Ensures("C21:configurations are applied one after the other", kv.Held(&t.applyMu) == 0 && kv.GhostInt("lock.acquired") == n+1)
	kaApplied(t)
}

//kv:contract (*kache.Kache).reloadConfig C21 verify-only
func ctReloadConfig(t *Kache, ctx context.Context) error {
	kaPre(t)
	was, text, loaded := cache.SpecConfig(t.Cache), config.SpecSource(t.loader), t.loader.Config() != nil
	cfg, ups, changes, reads := t.Config, kv.GhostInt("config.updates"), config.SpecChanges(t.loader), kvm.File().Reads
	f := kvm.File()
	err := t.reloadConfig(ctx)
	kv.Ensures("C21:a reload reads the file", f.Reads == reads+1)
	kv.Ensures("C21:what is loaded is applied", kv.Int(kv.GhostInt("config.updates"))-kv.Int(ups) == config.SpecChanges(t.loader)-changes)
	kv.Ensures("C21:a reload leaves a loaded configuration behind", kv.Implies(loaded, kaReady(t)))
	now := cache.SpecConfig(t.Cache)
	switch {
	case f.Err != nil || !config.SpecOk(f.Content) && !(loaded && f.Content == text):
		kv.Cover("rejected")
		kv.Ensures("C21:a file that cannot be read or parsed is reported and leaves the configuration in force", err != nil && kv.Same(was, now) && kv.Same(t.Config, cfg))
	case loaded && f.Content == text:
		kv.Cover("unchanged")
		kv.Ensures("C21:an unchanged file leaves the configuration in force", err == nil && kv.Same(was, now) && kv.Same(t.Config, cfg))
	default:
		kv.Cover("changed")
		kv.Ensures("C21:the new configuration is loaded", err == nil && config.SpecSource(t.loader) == f.Content)
		kaApplied(t)
		kv.Ensures("C21:unless configured otherwise the mode is strict", config.SpecHttp(f.Content, now))
	}
	return err
}

//kv:contract (*kache.Kache).initHTTPCache C21 verify-only
func ctInitHTTPCache(t *Kache) error {
	kv.Requires(t != nil && t.Config != nil && t.Provider != nil)
	cfg := t.Config.HttpCache
	err := t.initHTTPCache()
	kv.Ensures("C21:a cache is created whatever the configuration", err == nil && t.Cache != nil && cache.SpecInv(t.Cache))
	now := cache.SpecConfig(t.Cache)
	if cfg == nil {
		kv.Cover("no section")
		kv.Ensures("C21:without a cache section the default is in force at startup", kv.Eq(*now, cache.HttpCacheConfig{Strict: true}))
		return err
	}
	kv.Cover("section")
	kv.Ensures("C21:the cache configuration is in force at startup", kv.Same(now, cfg))
	return err
}

//kv:contract kache.New C21 C24 verify-only
func ctNew(loader *config.Loader, reg prometheus.Registerer) (*Kache, error) {
	kv.Requires(loader != nil && config.SpecLoaded(loader) && loader.Config() != nil)
	cfg := loader.Config()
	kv.Requires(cfg.API != nil && cfg.Provider != nil)
	kv.Requires(kv.ForallN(len(cfg.Upstreams), func(i int) bool { return cfg.Upstreams[i] != nil }))
	kv.Requires(kv.Forall(func(n string) bool { l, ok := cfg.Listeners[n]; return !ok || l != nil }))
	t, err := New(loader, reg)
	if err != nil {
		kv.Cover("refused")
		return t, err
	}
	kv.Cover("created")
	kv.Ensures("C21:an application starts with the loaded configuration", t != nil && t.loader == loader && t.Config != nil && kv.Eq(*t.Config, *cfg))
	kv.Ensures("C21:the configuration in force is that of the application", t.Cache != nil && cache.SpecInv(t.Cache) && kv.Implies(cfg.HttpCache != nil, kv.Same(cache.SpecConfig(t.Cache), cfg.HttpCache)))
	kv.Ensures("C21,C24:the cache that is reconfigured and managed is the one requests are answered from", t.Provider != nil && server.SpecWired(t.Server, cfg, *t.Provider, t.Cache) && kv.Eq(cache.SpecBackend(t.Cache), *t.Provider))
	kv.Ensures("C24:the API manages the server", api.SpecManages(t.API, t.Server))
	return t, err
}

// ---- running ----

// kaNote records what triggers reloads while running.
type kaNote struct {
	On      bool
	T       *Kache
	Signals chan<- os.Signal // delivers SIGHUP
	Events  kv.Int           // notifications received before
	Sent    kv.Int           // notifications sent before
	Hups    kv.Int           // signals received before
	Stops   kv.Int // calls to stop received before
	Closes  int    // channels closed before
	Changes kv.Int
	Reads   kv.Int
	Updates kv.Int
}

var kaAt = new(int)

func kaRun() *kaNote { return kv.Ghost[kaNote](kaAt) }

//kv:chaninv C21
func ciEvent(changed bool) bool { return changed }

// ciSignal: Run asks for SIGHUP only (mdNotify).
//
//kv:chaninv
func ciSignal(s os.Signal) bool { return s == syscall.SIGHUP }

//kv:model os/signal.Notify
func mdNotify(c chan<- os.Signal, sig ...os.Signal) {
	g := kaRun()
	if len(sig) == 1 && sig[0] == syscall.SIGHUP {
		g.Signals = c
		kv.NeverClosed(c)
		g.Hups = kv.Int(kv.Received(c))
	}
}

//kv:model os/signal.NotifyContext
func mdNotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

func kaStops() kv.Int { return kv.Int(kv.GhostInt("recv:struct{}")) }

func kaEvents(t *Kache) kv.Int { return kv.Int(kv.Received(t.loader.Events)) }

// kaReloads: every notification of a changed file is applied, and so is every change found otherwise.
func kaReloads(t *Kache) bool {
	g := kaRun()
	ups := kv.Int(kv.GhostInt("config.updates")) - g.Updates
	sent := kv.Int(kv.Sent(t.loader.Events)) - g.Sent
	if sent > 0 || config.SpecClosed(t.loader) {
		return true // the watcher
	}
	return ups == (kaEvents(t)-g.Events)+(config.SpecChanges(t.loader)-g.Changes)
}

// kaReads: the file is read for every SIGHUP.
func kaReads(t *Kache) bool {
	g := kaRun()
	return kvm.File().Reads-g.Reads == kv.Int(kv.Received(g.Signals))-g.Hups && kaStops() >= g.Stops
}

//kv:loopinv (*kache.Kache).Run C21
func liReloads(t *Kache) bool {
	g := kaRun()
	return kv.Implies(g.On && g.T == t, kaReloads(t) && kaReads(t))
}

//kv:loopinv (*kache.Kache).Run C21
func liReady(t *Kache) bool {
	g := kaRun()
	return kv.Implies(g.On && g.T == t, kaReady(t))
}

func kaReady(t *Kache) bool {
	return t.Cache != nil && t.loader != nil && t.loader.Config() != nil && cache.SpecInv(t.Cache) && config.SpecLoaded(t.loader)
}

// kaServing: reloading is in place as long as the server is waited for.
//
//kv:before (*server.Server).Await
func kaServing(s *server.Server) {
	g := kaRun()
	if g.T != nil && s == g.T.Server {
		kv.Assert("C21:nothing is told to stop while serving", kv.GhostInt("close:struct{}") == g.Closes)
		kv.Assert("C21:the file is watched while serving", !config.SpecShut(g.T.loader))
	}
}

//kv:contract (*kache.Kache).Run C21 verify-only choose before=kaServing
func ctRun(t *Kache) error {
	kaPre(t)
	kv.Requires(kaReady(t) && config.SpecRunning(t.loader) && t.Server != nil && server.SpecReady(t.Server, t.loader.Events) && t.API != nil)
	what := kv.Choose(3)
	if what != 2 {
		kv.NeverClosed(t.loader.Events)
	}
	api.SpecAsk(t.API, http.MethodPost, "/cache/config/reload")
	g := kaRun()
	g.On, g.T, g.Signals = false, t, nil
	config.SpecWatching(t.loader)
	g.Closes = kv.GhostInt("close:struct{}")
	err := t.Run()
	if err != nil {
		kv.Cover("refused")
		return err
	}
	if what == 0 {
		kv.Cover("started")
		do := api.SpecAsked(t.API)
		kv.Ensures("C21:a reload can be asked for", do != nil)
		kaRoute(t, do)
		return err
	}
	if what == 2 {
		kv.Ensures("C21:SIGHUP is waited for", kv.SpawnedAwait(g.Signals))
		kv.Ensures("C21:changes of the file are waited for", kv.Implies(t.loader.AutoReload(), kv.SpawnedAwait(t.loader.Events)))
		return err
	}
	kv.Ensures("C21:SIGHUP is listened for, and not lost while a reload is going on", g.Signals != nil && cap(g.Signals) > 0)
	g.Updates, g.Changes, g.Reads, g.Events = kv.Int(kv.GhostInt("config.updates")), config.SpecChanges(t.loader), kvm.File().Reads, kaEvents(t)
	g.Sent = kv.Int(kv.Sent(t.loader.Events))
	config.SpecFrom(t.loader)
	g.Stops = kaStops()
	g.On = true
	kv.RunOneSpawned()
	kv.Ensures("C21:a goroutine that ends has reacted to everything it received", kaReloads(t))
	kv.Ensures("C21:SIGHUP and changes are listened for until told to stop", kv.Implies(kv.Int(kv.Received(g.Signals)) > g.Hups || kaEvents(t) > g.Events, kaStops() > g.Stops))
	return err
}

// kaRoute: the reload route.
func kaRoute(t *Kache, do func(http.ResponseWriter, *http.Request)) {
	w, r := kv.Any[http.ResponseWriter](), kv.Any[*http.Request]()
	kv.Assume(w != nil && r != nil && !kvm.Resp(w).Wrote && kvm.Resp(w).Calls == 0)
	was, text := cache.SpecConfig(t.Cache), config.SpecSource(t.loader)
	f := kvm.File()
	reads := f.Reads
	do(w, r)
	now := cache.SpecConfig(t.Cache)
	kv.Ensures("C21:the file is read when a reload is asked for", f.Reads == reads+1)
	g := *kvm.Resp(w)
	switch {
	case f.Err != nil || !config.SpecOk(f.Content) && f.Content != text:
		kv.Cover("bad file")
		kv.Ensures("C21:a file that cannot be read or parsed is reported to the client and leaves the configuration in force", g.Wrote && g.Calls == 1 && g.Status >= 400 && kv.Same(was, now))
	case f.Content == text:
		kv.Cover("unchanged file")
		kv.Ensures("C21:an unchanged file is fine", g.Wrote && g.Calls == 1 && g.Status == http.StatusOK && kv.Same(was, now))
	default:
		kv.Cover("changed file")
		kv.Ensures("C21:the new configuration is loaded when 200 is sent", g.Wrote && g.Calls == 1 && g.Status == http.StatusOK && config.SpecSource(t.loader) == f.Content)
		kaApplied(t)
	}
}
