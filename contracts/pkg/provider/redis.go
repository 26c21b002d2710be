package provider

import (
	"context"
	"kv"
	"kvm"
	"time"

	"github.com/redis/go-redis/v9"
)

// JobLog records the jobs run.
type JobLog struct {
	N, From kv.Int
	Last    func()
}

var jobLogAt = new(int)

func Jobs() *JobLog { return kv.Ghost[JobLog](jobLogAt) }

//kv:model func:func()
func mdJob(f func()) {
	g := Jobs()
	g.N++
	g.Last = f
}

// RedisLog records the commands sent to a redis client of unknown type.
type RedisLog struct {
	Gets, Sets, Dels, Scans, Flushes, Closes kv.Int
	Key, Val                                 string
	TTL                                      time.Duration
	Match                                    string
	Got                                      string
	Err, IterErr                             error
	Keys                                     []string
	Gone                                     map[string]bool
	DelOK                                    bool
}

func RedisOf(c redis.Cmdable) *RedisLog { return kv.Ghost[RedisLog](c) }

// CmdOut is the outcome of a command.
type CmdOut struct {
	Val string
	Err error
}

// IterState is the state of a scan: the keys it yields in order, how many have been read, and how it ends.
type IterState struct {
	Keys []string
	Pos  int
	Err  error
}

//kv:model (*github.com/redis/go-redis/v9.baseCmd).Err
func mdCmdErr(c any) error { return kv.Ghost[CmdOut](c).Err }

//kv:model (github.com/redis/go-redis/v9.StringCmdable).Get
func mdRedisGet(c redis.Cmdable, ctx context.Context, key string) *redis.StringCmd {
	g := RedisOf(c)
	g.Gets++
	g.Key = key
	r := new(redis.StringCmd)
	o := kv.Ghost[CmdOut](r)
	o.Val, o.Err = kv.Any[string](), kv.Any[error]()
	g.Got, g.Err = o.Val, o.Err
	return r
}

//kv:model (*github.com/redis/go-redis/v9.StringCmd).Result
func mdStringResult(c *redis.StringCmd) (string, error) {
	o := kv.Ghost[CmdOut](c)
	return o.Val, o.Err
}

//kv:model (github.com/redis/go-redis/v9.StringCmdable).Set
func mdRedisSet(c redis.Cmdable, ctx context.Context, key string, value interface{}, ttl time.Duration) *redis.StatusCmd {
	g := RedisOf(c)
	g.Sets++
	g.Key, g.TTL = key, ttl
	if b, ok := value.([]byte); ok {
		g.Val = kv.Bytes(b)
	} else {
		g.Val = kv.Any[string]()
	}
	r := new(redis.StatusCmd)
	o := kv.Ghost[CmdOut](r)
	o.Val, o.Err = kv.Any[string](), kv.Any[error]()
	g.Err = o.Err
	return r
}

//kv:model (*github.com/redis/go-redis/v9.StatusCmd).Result
func mdStatusResult(c *redis.StatusCmd) (string, error) {
	o := kv.Ghost[CmdOut](c)
	return o.Val, o.Err
}

//kv:model (github.com/redis/go-redis/v9.GenericCmdable).Del
func mdRedisDel(c redis.Cmdable, ctx context.Context, keys ...string) *redis.IntCmd {
	g := RedisOf(c)
	g.Dels++
	r := new(redis.IntCmd)
	o := kv.Ghost[CmdOut](r)
	o.Err = kv.Any[error]()
	g.Err = o.Err
	g.DelOK = g.DelOK && o.Err == nil
	if len(keys) == 1 {
		g.Key = keys[0]
		if g.Gone != nil {
			g.Gone[keys[0]] = true
		}
	} else {
		g.Key = kv.Any[string]()
	}
	return r
}

//kv:model (github.com/redis/go-redis/v9.GenericCmdable).Scan
func mdRedisScan(c redis.Cmdable, ctx context.Context, cursor uint64, match string, count int64) *redis.ScanCmd {
	g := RedisOf(c)
	g.Scans++
	g.Match = match
	r := new(redis.ScanCmd)
	it := kv.Ghost[IterState](r)
	it.Keys, it.Pos, it.Err = kv.Any[[]string](), 0, kv.Any[error]()
	g.Keys, g.IterErr = it.Keys, it.Err
	if cursor != 0 {
		g.Match = kv.Any[string]()
	}
	return r
}

//kv:model (*github.com/redis/go-redis/v9.ScanCmd).Iterator
func mdScanIterator(c *redis.ScanCmd) *redis.ScanIterator {
	r := new(redis.ScanIterator)
	*kv.Ghost[IterState](r) = *kv.Ghost[IterState](c)
	return r
}

//kv:model (*github.com/redis/go-redis/v9.ScanIterator).Next
func mdScanNext(it *redis.ScanIterator, ctx context.Context) bool {
	g := kv.Ghost[IterState](it)
	if g.Pos >= len(g.Keys) {
		return false
	}
	g.Pos++
	return true
}

//kv:model (*github.com/redis/go-redis/v9.ScanIterator).Val
func mdScanVal(it *redis.ScanIterator) string {
	g := kv.Ghost[IterState](it)
	if g.Pos >= 1 && g.Pos <= len(g.Keys) {
		return g.Keys[g.Pos-1]
	}
	return ""
}

//kv:model (*github.com/redis/go-redis/v9.ScanIterator).Err
func mdScanErr(it *redis.ScanIterator) error { return kv.Ghost[IterState](it).Err }

//kv:model (github.com/redis/go-redis/v9.Cmdable).FlushDB
func mdRedisFlush(c redis.Cmdable, ctx context.Context) *redis.StatusCmd {
	g := RedisOf(c)
	g.Flushes++
	r := new(redis.StatusCmd)
	o := kv.Ghost[CmdOut](r)
	o.Err = kv.Any[error]()
	g.Err = o.Err
	return r
}

//kv:model (github.com/redis/go-redis/v9.UniversalClient).Close
func mdRedisClose(c redis.UniversalClient) error {
	RedisOf(c).Closes++
	return kv.Any[error]()
}

// RedisNew records how redis clients are created.
type RedisNew struct {
	Opts redis.UniversalOptions
	C    redis.UniversalClient
	Ping error
}

var redisNewAt = new(int)

//kv:model github.com/redis/go-redis/v9.NewUniversalClient
func mdRedisNew(opts *redis.UniversalOptions) redis.UniversalClient {
	g := kv.Ghost[RedisNew](redisNewAt)
	g.Opts = *opts
	g.C = kv.Any[redis.UniversalClient]()
	kv.Assume(g.C != nil)
	return g.C
}

//kv:model (github.com/redis/go-redis/v9.Cmdable).Ping
func mdRedisPing(c redis.Cmdable, ctx context.Context) *redis.StatusCmd {
	r := new(redis.StatusCmd)
	e := kv.Any[error]()
	kv.Ghost[CmdOut](r).Err = e
	kv.Ghost[RedisNew](redisNewAt).Ping = e
	return r
}

// rcKept: no command that changes the contents of redis was sent.
func rcKept(a, b RedisLog) bool {
	return a.Sets == b.Sets && a.Dels == b.Dels && a.Flushes == b.Flushes
}

func rcPre(c *redisClient) RedisLog {
	kv.Requires(c != nil && c.UniversalClient != nil && c.queue != nil)
	return *RedisOf(c.UniversalClient)
}

// spOversized: items above the configured maximum size, which 0 (or less) disables.
func spOversized(c *redisClient, v []byte) bool {
	return c.config.MaxItemSize > 0 && len(v) > c.config.MaxItemSize
}

//kv:contract (*provider.redisClient).Fetch C17 verify-only
func ctRcFetch(c *redisClient, ctx context.Context, key string) []byte {
	o := rcPre(c)
	v := c.Fetch(ctx, key)
	g := *RedisOf(c.UniversalClient)
	kv.Ensures("C17:a lookup asks redis for the key once", g.Gets == o.Gets+1 && g.Key == key && rcKept(g, o))
	if g.Err != nil {
		kv.Cover("failed")
		kv.Ensures("C17:a failed lookup is a miss", v == nil)
	} else {
		kv.Cover("found")
		kv.Ensures("C17:a lookup returns what redis holds", v != nil && kv.Bytes(v) == g.Got)
	}
	return v
}

//kv:contract (*provider.redisClient).Store C17 verify-only
func ctRcStore(c *redisClient, key string, value []byte, ttl time.Duration) error {
	o := rcPre(c)
	err := c.Store(key, value, ttl)
	g := *RedisOf(c.UniversalClient)
	if spOversized(c, value) {
		kv.Cover("oversized")
		kv.Ensures("C17:an oversized item is never sent", err != nil && kv.Eq(g, o))
		return err
	}
	kv.Cover("sent")
	kv.Ensures("C17:a store writes the item once", g.Sets == o.Sets+1 && g.Key == key && g.Val == kv.Bytes(value) && g.TTL == ttl && g.Dels == o.Dels && g.Flushes == o.Flushes)
	kv.Ensures("C17:a failed store is reported", kv.Eq(err, g.Err))
	return err
}

//kv:contract (*provider.redisClient).StoreAsync C17 verify-only
func ctRcStoreAsync(c *redisClient, key string, value []byte, ttl time.Duration) error {
	o := rcPre(c)
	q := c.queue
	ch := q.jobCh
	kv.Requires(ch != nil && q.stopCh != nil)
	n, b, sp := kv.Sent(ch), kv.Blocking(), kv.Spawned()
	jobs := Jobs().N
	err := c.StoreAsync(key, value, ttl)
	kv.Ensures("C17:queueing a write never blocks", kv.Blocking() == b)
	kv.Ensures("C17:queueing a write starts no goroutine", kv.Spawned() == sp)
	kv.Ensures("C17:queueing a write sends nothing itself", kv.Eq(*RedisOf(c.UniversalClient), o) && Jobs().N == jobs)
	kv.Ensures("C17:a write that does not fit is dropped with an error, any other is queued once", kv.Ite(err == nil, kv.Sent(ch) == n+1, kv.Sent(ch) == n))
	if err != nil {
		kv.Cover("dropped")
		kv.Ensures("C17:a write is dropped only if the queue is full", len(ch) >= cap(ch))
		return err
	}
	kv.Cover("queued")
	job := kv.SentAt[func()](ch, n)
	val := kv.Bytes(value)
	job()
	g := *RedisOf(c.UniversalClient)
	if spOversized(c, value) {
		kv.Cover("oversized")
		kv.Ensures("C17:an oversized item is never sent later either", kv.Eq(g, o))
		return err
	}
	kv.Cover("performed")
	kv.Ensures("C17:an accepted write performs exactly one store of the key, value and TTL", g.Sets == o.Sets+1 && g.Key == key && g.Val == val && g.TTL == ttl && g.Dels == o.Dels && g.Flushes == o.Flushes)
	return err
}

//kv:contract (*provider.redisClient).Delete C17 verify-only
func ctRcDelete(c *redisClient, ctx context.Context, key string) error {
	o := rcPre(c)
	err := c.Delete(ctx, key)
	g := *RedisOf(c.UniversalClient)
	kv.Ensures("C17:a delete removes the key once", g.Dels == o.Dels+1 && g.Key == key && g.Sets == o.Sets && g.Flushes == o.Flushes)
	kv.Ensures("C17:a failed delete is reported", kv.Eq(err, g.Err))
	return err
}

//kv:contract (*provider.redisClient).Flush C17 verify-only
func ctRcFlush(c *redisClient, ctx context.Context) error {
	o := rcPre(c)
	err := c.Flush(ctx)
	g := *RedisOf(c.UniversalClient)
	kv.Ensures("C17:a flush empties redis once", g.Flushes == o.Flushes+1)
	kv.Ensures("C17:a failed flush is reported", kv.Eq(err, g.Err))
	return err
}

//kv:contract (*provider.redisClient).Keys C17 verify-only
func ctRcKeys(c *redisClient, ctx context.Context, prefix string) []string {
	o := rcPre(c)
	r := c.Keys(ctx, prefix)
	g := *RedisOf(c.UniversalClient)
	kv.Ensures("C17:listing asks for the keys with the prefix", g.Scans == o.Scans+1 && g.Match == prefix+"*" && rcKept(g, o))
	kv.Ensures("C17:listing returns what redis yields, also if it fails midway", kv.SeqEq(r, g.Keys))
	return r
}

//kv:loopinv (*provider.redisClient).Keys
func liRcKeys(c *redisClient, keys []string, iter *redis.ScanIterator, k int) bool {
	g := kv.Ghost[IterState](iter)
	l := RedisOf(c.UniversalClient)
	return g.Pos == k && k <= len(g.Keys) && len(keys) == k && kv.SeqEq(g.Keys, l.Keys) && kv.ForallN(k, func(i int) bool { return keys[i] == g.Keys[i] })
}

//kv:contract (*provider.redisClient).Purge C17 C15 verify-only
func ctRcPurge(c *redisClient, ctx context.Context, pattern string) error {
	o := rcPre(c)
	l := RedisOf(c.UniversalClient)
	l.Gone, l.DelOK = map[string]bool{}, true
	err := c.Purge(ctx, pattern)
	g := *RedisOf(c.UniversalClient)
	it := g.IterErr
	kv.Ensures("C17:a purge asks redis for the keys matching the pattern", g.Scans == o.Scans+1 && g.Match == pattern && g.Sets == o.Sets && g.Flushes == o.Flushes)
	kv.Ensures("C17:a purge deletes nothing else", kv.Forall(func(s string) bool {
		return kv.Implies(g.Gone[s], kv.ExistsN(len(g.Keys), func(i int) bool { return g.Keys[i] == s }))
	}))
	if err == nil {
		kv.Cover("purged")
		kv.Ensures("C17:a purge that reports success deleted every matching key", g.DelOK && it == nil && kv.ForallN(len(g.Keys), func(i int) bool { return g.Keys[i] == "" || g.Gone[g.Keys[i]] }))
		return err
	}
	kv.Cover("failed")
	kv.Ensures("C17:a purge fails only if redis does", !g.DelOK || it != nil)
	return err
}

//kv:loopinv (*provider.redisClient).Purge
func liRcPurge(c *redisClient, iter *redis.ScanIterator, k int) bool {
	g := kv.Ghost[IterState](iter)
	l := RedisOf(c.UniversalClient)
	return g.Pos == k && k <= len(g.Keys) && kv.SeqEq(g.Keys, l.Keys) && kv.Eq(g.Err, l.IterErr)
}

//kv:loopinv (*provider.redisClient).Purge
func liRcPurge2(c *redisClient, iter *redis.ScanIterator, k int) bool {
	l := RedisOf(c.UniversalClient)
	return l.Gone != nil && l.DelOK && kv.ForallN(k, func(i int) bool { return l.Keys[i] == "" || l.Gone[l.Keys[i]] })
}

//kv:loopinv (*provider.redisClient).Purge
func liRcPurge3(c *redisClient, iter *redis.ScanIterator, k int) bool {
	l := RedisOf(c.UniversalClient)
	return kv.Forall(func(s string) bool {
		return kv.Implies(l.Gone[s], kv.ExistsN(k, func(i int) bool { return l.Keys[i] == s }))
	})
}

//kv:contract (*provider.redisClient).Stop C17 verify-only
func ctRcStop(c *redisClient) {
	o := rcPre(c)
	kv.Requires(c.queue.stopCh != nil && !kv.Closed(c.queue.stopCh))
	kv.NeverClosed(c.queue.stopCh)
	c.Stop()
	kv.Ensures("C17:stopping tells the workers to stop", kv.Closed(c.queue.stopCh))
	kv.Ensures("C17:stopping closes the connection", RedisOf(c.UniversalClient).Closes == o.Closes+1)
}

//kv:contract (*provider.jobQueue).listen C17 verify-only
func ctQueueListen(q *jobQueue) {
	kv.Requires(q != nil && q.jobCh != nil && q.stopCh != nil)
	kv.Requires(!kv.Same(q.jobCh, q.stopCh) && kv.Pending(&q.wg) >= 1 && kv.Pending(&q.wg) < 1<<31)
	kv.NeverClosed(q.jobCh)
	kv.NonNil(q.jobCh)
	g := Jobs()
	g.N = kv.Int(kv.Received(q.jobCh))
	g.From = g.N
	stops, wg := kv.Received(q.stopCh), kv.Pending(&q.wg)
	q.listen()
	kv.Ensures("C17:every queued write taken is performed once", g.N == kv.Int(kv.Received(q.jobCh)))
	n := kv.Received(q.jobCh)
	kv.Ensures("C17:it is the write taken that is performed", g.N == g.From || kv.Same(g.Last, kv.ReceivedAt[func()](q.jobCh, n-1)))
	kv.Ensures("C17:a worker ends only when told to stop", kv.Received(q.stopCh) > stops)
	kv.Ensures("C17:a worker that ends says so", kv.Pending(&q.wg) == wg-1)
}

//kv:loopinv (*provider.jobQueue).listen
func liQueueListen(q *jobQueue, k int) bool {
	g := Jobs()
	n := kv.Received(q.jobCh)
	return g.N == kv.Int(n) && g.From <= g.N && (g.N == g.From || kv.Same(g.Last, kv.ReceivedAt[func()](q.jobCh, n-1)))
}

//kv:contract provider.newJobQueue C17 verify-only
func ctNewJobQueue(size, maxConcurrency int) *jobQueue {
	kv.Requires(size >= 0 && maxConcurrency >= 0 && maxConcurrency < 1<<31)
	n := kv.GhostInt("spawned:(*provider.jobQueue).listen")
	q := newJobQueue(size, maxConcurrency)
	kv.Ensures("C17:a queue has the configured size", kv.Fresh(q) && cap(q.jobCh) == size && len(q.jobCh) == 0)
	kv.Ensures("C17:a queue can be stopped", q.stopCh != nil && !kv.Closed(q.stopCh))
	kv.Ensures("C17:as many workers as configured are started", kv.GhostInt("spawned:(*provider.jobQueue).listen") == n+maxConcurrency)
	kv.Ensures("C17:stopping waits for the workers", kv.Pending(&q.wg) == maxConcurrency)
	return q
}

//kv:contract provider.NewRedisClient C17 verify-only
func ctNewRedisClient(name string, config RedisClientConfig) (RemoteCacheClient, error) {
	kv.Requires(config.MaxQueueBufferSize >= 0 && config.MaxQueueConcurrency >= 0 && config.MaxQueueConcurrency < 1<<31)
	n := kv.GhostInt("spawned:(*provider.jobQueue).listen")
	r, err := NewRedisClient(name, config)
	g := kv.Ghost[RedisNew](redisNewAt)
	kv.Ensures("C17:a redis server that does not answer is reported", kv.Iff(err != nil, g.Ping != nil))
	if err != nil {
		kv.Cover("unreachable")
		return r, err
	}
	kv.Cover("connected")
	c, ok := r.(*redisClient)
	if !ok {
		return r, err
	}
	kv.Ensures("C17:the client applies the configuration", kv.Eq(c.config, config) && c.UniversalClient != nil && g.Opts.Username == config.Username && g.Opts.Password == config.Password && g.Opts.DB == config.DB)
	kv.Ensures("C17:the queue has the configured size and workers", cap(c.queue.jobCh) == config.MaxQueueBufferSize && kv.GhostInt("spawned:(*provider.jobQueue).listen") == n+config.MaxQueueConcurrency)
	return r, err
}

//kv:contract (*provider.RedisClientConfig).Validate C17 verify-only
func ctRcValidate(c *RedisClientConfig) error {
	kv.Requires(c != nil)
	err := c.Validate()
	kv.Ensures("C17:a redis backend needs an endpoint and a worker", (err == nil) == (c.Endpoint != "" && c.MaxQueueConcurrency >= 1))
	return err
}

// RemoteLog records the calls of a remote client of unknown type.
type RemoteLog struct {
	Fetches, Stores, Asyncs, Dels, Purges, Flushes kv.Int
	Key, Val                                       string
	TTL                                            time.Duration
	Got                                            []byte
	Keys                                           []string
	Err                                            error
}

func RemoteOf(c RemoteCacheClient) *RemoteLog { return kv.Ghost[RemoteLog](c) }

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).Fetch
func mdRemoteFetch(c RemoteCacheClient, ctx context.Context, key string) []byte {
	g := RemoteOf(c)
	g.Fetches++
	g.Key, g.Got = key, kv.Any[[]byte]()
	return g.Got
}

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).Store
func mdRemoteStore(c RemoteCacheClient, key string, value []byte, ttl time.Duration) error {
	RemoteOf(c).Stores++
	return kv.Any[error]()
}

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).StoreAsync
func mdRemoteAsync(c RemoteCacheClient, key string, value []byte, ttl time.Duration) error {
	g := RemoteOf(c)
	g.Asyncs++
	g.Key, g.Val, g.TTL = key, kv.Bytes(value), ttl
	return kv.Any[error]()
}

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).Delete
func mdRemoteDelete(c RemoteCacheClient, ctx context.Context, key string) error {
	g := RemoteOf(c)
	g.Dels++
	g.Key, g.Err = key, kv.Any[error]()
	return g.Err
}

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).Keys
func mdRemoteKeys(c RemoteCacheClient, ctx context.Context, prefix string) []string {
	g := RemoteOf(c)
	g.Key, g.Keys = prefix, kv.Any[[]string]()
	return g.Keys
}

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).Purge
func mdRemotePurge(c RemoteCacheClient, ctx context.Context, pattern string) error {
	g := RemoteOf(c)
	g.Purges++
	g.Key, g.Err = pattern, kv.Any[error]()
	return g.Err
}

//kv:model (github.com/kacheio/kache/pkg/provider.RemoteCacheClient).Flush
func mdRemoteFlush(c RemoteCacheClient, ctx context.Context) error {
	g := RemoteOf(c)
	g.Flushes++
	g.Err = kv.Any[error]()
	return g.Err
}

func rmPre(c *remoteCache) RemoteLog {
	kv.Requires(c != nil && c.client != nil)
	return *RemoteOf(c.client)
}

// rmSame: nothing was written or removed.
func rmSame(a, b RemoteLog) bool {
	return a.Stores == b.Stores && a.Asyncs == b.Asyncs && a.Dels == b.Dels && a.Purges == b.Purges && a.Flushes == b.Flushes
}

//kv:contract (*provider.remoteCache).Get C17 verify-only
func ctRmGet(c *remoteCache, ctx context.Context, key string) []byte {
	o := rmPre(c)
	v := c.Get(ctx, key)
	g := *RemoteOf(c.client)
	kv.Ensures("C17:a lookup returns what the remote client fetched", g.Fetches == o.Fetches+1 && g.Key == key && (v == nil) == (g.Got == nil) && kv.Bytes(v) == kv.Bytes(g.Got) && rmSame(g, o))
	return v
}

//kv:contract (*provider.remoteCache).Set C17 verify-only
func ctRmSet(c *remoteCache, key string, value []byte, ttl time.Duration) {
	o := rmPre(c)
	c.Set(key, value, ttl)
	g := *RemoteOf(c.client)
	kv.Ensures("C17:a set never waits for the remote backend", g.Stores == o.Stores && g.Dels == o.Dels && g.Purges == o.Purges && g.Flushes == o.Flushes)
	kv.Ensures("C17:a set queues one write of the key, value and TTL", g.Asyncs == o.Asyncs+1 && g.Key == key && g.Val == kv.Bytes(value) && g.TTL == ttl)
}

//kv:contract (*provider.remoteCache).Delete C17 verify-only
func ctRmDelete(c *remoteCache, ctx context.Context, key string) bool {
	o := rmPre(c)
	r := c.Delete(ctx, key)
	g := *RemoteOf(c.client)
	kv.Ensures("C17:a delete succeeds exactly if the remote delete does", g.Dels == o.Dels+1 && g.Key == key && r == (g.Err == nil) && g.Asyncs == o.Asyncs)
	return r
}

//kv:contract (*provider.remoteCache).Keys C17 C15 verify-only
func ctRmKeys(c *remoteCache, ctx context.Context, prefix string) []string {
	o := rmPre(c)
	r := c.Keys(ctx, prefix)
	g := *RemoteOf(c.client)
	kv.Ensures("C15:the remote keys are listed", g.Key == prefix && kv.SeqEq(r, g.Keys) && rmSame(g, o))
	return r
}

//kv:contract (*provider.remoteCache).Purge C17 C15 verify-only
func ctRmPurge(c *remoteCache, ctx context.Context, pattern string) error {
	o := rmPre(c)
	err := c.Purge(ctx, pattern)
	g := *RemoteOf(c.client)
	kv.Ensures("C15,C17:a purge reaches the remote backend and reports its outcome", g.Purges == o.Purges+1 && g.Key == pattern && kv.Eq(err, g.Err))
	return err
}

//kv:contract (*provider.remoteCache).Flush C17 C15 verify-only
func ctRmFlush(c *remoteCache, ctx context.Context) error {
	o := rmPre(c)
	err := c.Flush(ctx)
	g := *RemoteOf(c.client)
	kv.Ensures("C15,C17:a flush reaches the remote backend and reports its outcome", g.Flushes == o.Flushes+1 && kv.Eq(err, g.Err))
	return err
}

//kv:contract provider.NewRedisCache C17 verify-only
func ctNewRedisCache(name string, client RemoteCacheClient) *RedisCache {
	c := NewRedisCache(name, client)
	kv.Ensures("C17:a redis cache uses the client", kv.Fresh(c) && c.remoteCache != nil && kv.Eq(c.client, client))
	return c
}

//kv:contract provider.CreateCacheProvider C16 C17 verify-only
func ctCreateProvider(name string, config ProviderBackendConfig) (Provider, error) {
	kv.Requires(config.Redis.MaxQueueBufferSize >= 0 && config.Redis.MaxQueueConcurrency < 1<<31)
	want := spSane(config.InMemory)
	p, err := CreateCacheProvider(name, config)
	kv.Ensures("C17:there is a backend exactly if there is no error", (p != nil) == (err == nil))
	if err != nil {
		kv.Cover("refused")
		return p, err
	}
	switch config.Backend {
	case "inmemory":
		kv.Cover("in memory")
		c, ok := p.(*inMemoryCache)
		kv.Ensures("C11:an in-memory backend is created", ok && kv.Fresh(c) && c.maxSizeBytes == want.MaxSize && c.maxItemSizeBytes == want.MaxItemSize)
	case "redis":
		kv.Ensures("C17:a redis backend has an endpoint and a worker", config.Redis.Endpoint != "" && config.Redis.MaxQueueConcurrency >= 1)
		if config.Layered {
			kv.Cover("layered")
			c, ok := p.(*Cached)
			if !ok {
				kv.Ensures("C16:a layered backend is created", false)
				return p, err
			}
			r, isRedis := c.inner.(*RedisCache)
			kv.Ensures("C16:a layered backend keeps items in redis", isRedis && kv.Fresh(r) && r.remoteCache != nil && r.client != nil)
			kv.Ensures("C16:the local level has the layered lifetime", kv.Ite(kvm.DurOk(config.LayeredTTL), c.ttl == kvm.DurVal(config.LayeredTTL), c.ttl == 120*time.Second))
			l, local := c.outer.(*inMemoryCache)
			kv.Ensures("C16:the local level has the limits configured for memory", local && kv.Fresh(l) && l.maxSizeBytes == want.MaxSize && l.maxItemSizeBytes == want.MaxItemSize)
			return p, err
		}
		kv.Cover("redis")
		r, isRedis := p.(*RedisCache)
		kv.Ensures("C17:a redis backend is created", isRedis && kv.Fresh(r) && r.remoteCache != nil && r.client != nil)
	default:
		kv.Ensures("C17:an unknown backend is refused", false)
	}
	return p, err
}
