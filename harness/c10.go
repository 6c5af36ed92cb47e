package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/provider/remotestore"
	"google.golang.org/grpc"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C10"] = c10 }

func c10(t *core.T) {
	t.SetRule("8 goroutines mixing complete, slow, partial-then-cancelled, abandoned-then-cancelled and timed reads of every scope (also several aggregate types while writers wait), reads over undecodable records, successful, failing, conflicting and cancelled saves, right, wrong and unknown deletes, totals, subscriptions started, stopped and cancelled at random, subscribers that read and write the store from Accept, with random delays inside the store's critical sections; then stopping the store, server, connection. Monitors: every operation returns within the bound (a hang is reported with the stacks of all goroutines in the code), a save succeeds after everything was cancelled, no reading goroutine stays behind. Distinct by the multiset of operations that completed")
	t.Assume("a bound of 30-60 s per operation stands for 'forever' (normal operations take microseconds to 1.1 s)")
	kinds := []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "enc-ldb-json", "remote-mem-json", "remote-ldb-json", "pgnotify", "enc-pgnotify"}
	per := t.N(14, 350)
	t.Parallel(per*len(kinds), 56, func(i int) {
		kind := kinds[i%len(kinds)]
		name := fmt.Sprintf("mix/%s-%d", kind, i)
		if !t.Skip(name) {
			t.Guard(name, func() { c10Mix(t, name, kind, t.Rand(name)) })
			t.Eval()
		}
	})
	t.Parallel(t.N(60, 1500), 16, func(i int) {
		name := fmt.Sprintf("stop-%d", i)
		if !t.Skip(name) {
			t.Guard(name, func() { c10Stop(t, name, t.Rand(name)) })
			t.Eval()
		}
	})
	if t.Only == "" && !t.Stopped() {
		// every read was cancelled, finished or failed: nothing may be left reading
		pat := []string{"inmemorystore.(*inMemoryStore).recordsByIDs", "leveldbstore.(*levelDbStore).getEventsByPrefix", "leveldbstore.(*levelDbStore).readEventsByLookup"}
		var n int
		var st string
		if !env.WaitUntil(30*time.Second, func() bool {
			n, st = repoGoroutines(pat...)
			if n > 0 {
				time.Sleep(50 * time.Millisecond)
			}
			return n == 0
		}) {
			t.Fail("leak", "reader-left", "%d reading goroutines of the stores are left although every read ended or was cancelled:\n%s", n, st)
		}
		t.Count("reader_leak_checks", 1)
	}
}

func c10Mix(t *core.T, name, kind string, r0 *rand.Rand) {
	g := env.Open(kind)
	root, cancelRoot := context.WithCancel(context.Background())
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	g.Clock.SetJitter(env.RandomJitter(r0.Int63(), 100*time.Microsecond))
	types := []string{"a", "b", "c"}
	remote := strings.Contains(kind, "remote")
	hist := 40 + r0.Intn(60)
	for i := 0; i < hist; i++ {
		ty := types[r0.Intn(3)]
		if _, err := g.Store.Save(root, rangedb.GetStream(ty, fmt.Sprint(i%4)), simpleBatch(r0, ty, fmt.Sprint(i%4), fmt.Sprint("h", i), 1)...); err != nil {
			fail("save", "%v", err)
			return
		}
	}
	withPoison := r0.Intn(2) == 0
	if withPoison {
		_, _ = g.Store.Save(root, "c!poison", &rangedb.EventRecord{Event: &env.EvPoison{T: "c", ID: "poison", UID: "p"}})
	}
	var counts [24]int64
	var mu sync.Mutex
	var subs []rangedb.RecordSubscription
	okAll := int32(1)
	workers := 8
	var wg sync.WaitGroup
	trace := make([][]string, workers)
	ops := 14
	for w := 0; w < workers; w++ {
		wg.Add(1)
		r := t.Rand(fmt.Sprintf("%s/%d", name, w))
		go func(w int) {
			defer wg.Done()
			for i := 0; i < ops && atomic.LoadInt32(&okAll) == 1; i++ {
				op := r.Intn(16)
				ty := types[r.Intn(3)]
				stream := rangedb.GetStream(ty, fmt.Sprint(r.Intn(4)))
				tys := append([]string{}, types...)
				r.Shuffle(3, func(i, j int) { tys[i], tys[j] = tys[j], tys[i] })
				tys = tys[:1+r.Intn(3)]
				if r.Intn(4) == 0 {
					tys = append(tys, tys[0])
				}
				open := func(ctx context.Context) rangedb.RecordIterator {
					switch r.Intn(3) {
					case 0:
						return g.Store.Events(ctx, uint64(r.Intn(hist)))
					case 1:
						return g.Store.EventsByAggregateTypes(ctx, uint64(r.Intn(hist)), tys...)
					}
					return g.Store.EventsByStream(ctx, uint64(r.Intn(5)), stream)
				}
				desc := ""
				f := func() {
					switch op {
					case 0, 1:
						desc = "full read"
						_, _ = env.Collect(open(root))
					case 2:
						desc = "slow read of several types"
						it := g.Store.EventsByAggregateTypes(root, uint64(hist-5), tys...)
						for k := 0; it.Next(); k++ {
							if k < 8 {
								time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
							}
						}
					case 3:
						desc = "partial read, cancelled, drained"
						ctx, cancel := context.WithCancel(root)
						it := open(ctx)
						for k := r.Intn(5); k > 0 && it.Next(); k-- {
						}
						cancel()
						for it.Next() {
						}
					case 4, 5:
						desc = "partial read, abandoned, cancelled"
						ctx, cancel := context.WithCancel(root)
						it := open(ctx)
						for k := r.Intn(4); k > 0 && it.Next(); k-- {
						}
						if r.Intn(2) == 0 {
							time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
						}
						cancel()
					case 6:
						desc = "read with timeout, abandoned"
						ctx, cancel := context.WithTimeout(root, time.Duration(r.Intn(2000))*time.Microsecond)
						it := open(ctx)
						for k := r.Intn(30); k > 0 && it.NextContext(ctx); k-- {
						}
						_ = cancel
						go func() { <-ctx.Done(); cancel() }()
					case 7, 8:
						desc = "save"
						if _, err := g.Store.Save(root, stream, simpleBatch(r, ty, stream, "s", 1+r.Intn(2))...); err != nil && !strings.Contains(err.Error(), "unmatched") {
							fail("save", "%v", err)
						}
					case 9:
						desc = "failing save"
						b := simpleBatch(r, ty, stream, "f", 2)
						switch r.Intn(4) {
						case 0:
							b[1].Event = &env.EvFail{T: ty, ID: stream}
						case 1:
							b = append(b, simpleBatch(r, ty+"x", stream, "f", 1)...)
						case 2:
							b = append(b, simpleBatch(r, ty, stream+"x", "f", 1)...)
						case 3:
							b = nil
						}
						if _, err := g.Store.Save(root, stream, b...); err == nil {
							fail("bad-batch-accepted", "a bad batch was accepted")
						}
					case 10:
						desc = "conflicting or cancelled save"
						ctx, cancel := context.WithCancel(root)
						if r.Intn(2) == 0 {
							cancel()
						}
						_, _ = g.Store.OptimisticSave(ctx, uint64(r.Intn(50)), stream, simpleBatch(r, ty, stream, "o", 2)...)
						cancel()
					case 11:
						desc = "delete"
						_ = g.Store.OptimisticDeleteStream(root, uint64(r.Intn(12)), stream)
					case 12:
						desc = "delete at length"
						n, _ := g.Store.TotalEventsInStream(root, stream)
						_ = g.Store.OptimisticDeleteStream(root, n, stream)
					case 13:
						desc = "subscription started and stopped"
						ctx, cancel := context.WithCancel(root)
						var sub rangedb.RecordSubscription
						if r.Intn(2) == 0 {
							sub = g.Store.AllEventsSubscription(ctx, r.Intn(30), env.NewRecorder())
						} else {
							sub = g.Store.AggregateTypesSubscription(ctx, r.Intn(30), env.NewRecorder(), tys...)
						}
						if r.Intn(2) == 0 {
							_ = sub.Start()
						} else {
							_ = sub.StartFrom(uint64(hist - 10))
						}
						switch r.Intn(3) {
						case 0:
							sub.Stop()
							cancel()
						case 1:
							cancel()
							sub.Stop()
						case 2:
							mu.Lock()
							subs = append(subs, sub)
							mu.Unlock()
							_ = cancel
							go func() { <-root.Done(); cancel() }()
						}
					case 14:
						desc = "subscriber that uses the store"
						ctx, cancel := context.WithCancel(root)
						rec := env.NewRecorder()
						did := 0
						rec.OnRec = func(int, *rangedb.Record) {
							did++
							if did > 2 {
								return
							}
							c, cc := context.WithTimeout(ctx, 50*time.Millisecond)
							defer cc()
							_, _ = g.Store.TotalEventsInStream(c, stream)
							it := g.Store.EventsByStream(c, 0, stream)
							for it.NextContext(c) {
							}
						}
						sub := g.Store.AllEventsSubscription(ctx, 1+r.Intn(20), rec)
						_ = sub.Start()
						_, _ = g.Store.Save(root, stream, simpleBatch(r, ty, stream, "u", 1)...)
						if r.Intn(2) == 0 {
							sub.Stop()
						}
						mu.Lock()
						subs = append(subs, sub)
						mu.Unlock()
						_ = cancel
						go func() { <-root.Done(); cancel() }()
					default:
						desc = "total"
						_, _ = g.Store.TotalEventsInStream(root, stream)
					}
				}
				if !within(t, name, fmt.Sprintf("[%s] operation %d (%s) of goroutine %d after %v", kind, op, stream, w, trace[w]), opLimit, f) {
					atomic.StoreInt32(&okAll, 0)
					return
				}
				trace[w] = append(trace[w], desc)
				atomic.AddInt64(&counts[op], 1)
			}
		}(w)
	}
	wg.Wait()
	if atomic.LoadInt32(&okAll) == 0 {
		cancelRoot()
		return
	}
	// one abandoned read of each scope, then cancel everything: writers must proceed
	for i := 0; i < 3; i++ {
		it := []rangedb.RecordIterator{g.Store.Events(root, 0), g.Store.EventsByAggregateTypes(root, 0, types...), g.Store.EventsByStream(root, 0, "a!0")}[i]
		if r0.Intn(2) == 0 {
			it.Next()
		}
	}
	if !within(t, name, "stopping subscriptions", opLimit, func() {
		for _, s := range subs {
			s.Stop()
		}
	}) {
		cancelRoot()
		return
	}
	cancelRoot()
	var serr error
	if !within(t, name, "["+kind+"] a save after every read was cancelled", opLimit, func() {
		_, serr = g.Store.Save(context.Background(), "final!1", simpleBatch(r0, "final", "1", "z", 1)...)
	}) {
		return
	}
	if serr != nil {
		fail("save", "save after all reads were cancelled: %v", serr)
		return
	}
	if !remote {
		// exclusive use works as well
		if !within(t, name, "["+kind+"] a delete after every read was cancelled", opLimit, func() {
			serr = g.Store.OptimisticDeleteStream(context.Background(), 1, "final!1")
		}) {
			return
		}
		if serr != nil {
			fail("delete", "delete after all reads were cancelled: %v", serr)
			return
		}
	}
	if !within(t, name, "["+kind+"] closing everything", opLimit, g.Close) {
		return
	}
	n := 0
	for _, c := range counts {
		n += int(c)
	}
	t.Count("operations_completed", n)
	t.Distinct(kind + fmt.Sprint(counts))
	t.Sample(map[string]interface{}{"case": name, "operations": trace[0], "undecodable_record": withPoison})
}

// c10Stop: stopping stores, servers and connections while they are in use.
func c10Stop(t *core.T, name string, r *rand.Rand) {
	kind := []string{"ldb-json", "ldb-msgpack", "mem-json"}[r.Intn(3)]
	g := env.Open(kind)
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s stop] %s", kind, fmt.Sprintf(f, a...)) }
	root, cancelRoot := context.WithCancel(context.Background())
	defer cancelRoot()
	rs, err := rangedbserver.New(rangedbserver.WithStore(g.Store))
	if err != nil {
		fail("new", "%v", err)
		return
	}
	srv, dial, shut := serveGRPC(func(s *grpc.Server) { rangedbpb.RegisterRangeDBServer(s, rs) })
	defer shut()
	conn, err := dial()
	if err != nil {
		fail("dial", "%v", err)
		return
	}
	st, err := remotestore.New(conn)
	if err != nil {
		fail("new", "%v", err)
		return
	}
	env.BindAll(st)
	for i := 0; i < 30; i++ {
		if _, err := g.Store.Save(root, "a!1", simpleBatch(r, "a", "1", fmt.Sprint(i), 1)...); err != nil {
			fail("save", "%v", err)
			return
		}
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var done int64
	for w := 0; w < 5; w++ {
		wg.Add(1)
		rr := t.Rand(fmt.Sprintf("%s/%d", name, w))
		go func(w int) {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				s := rangedb.Store(st)
				if w < 2 {
					s = g.Store
				}
				ctx, cancel := context.WithCancel(root)
				switch rr.Intn(6) {
				case 0:
					_, _ = s.Save(ctx, "a!1", simpleBatch(rr, "a", "1", "x", 1)...)
				case 1:
					_, _ = env.Collect(s.Events(ctx, 0))
				case 2:
					it := s.EventsByAggregateTypes(ctx, 0, "a", "b")
					it.Next()
				case 3:
					sub := s.AllEventsSubscription(ctx, 5, env.NewRecorder())
					_ = sub.StartFrom(25)
					sub.Stop()
				case 4:
					sub := s.AggregateTypesSubscription(ctx, 5, env.NewRecorder(), "a", "b")
					_ = sub.Start()
				case 5:
					_, _ = s.TotalEventsInStream(ctx, "a!1")
				}
				cancel()
				atomic.AddInt64(&done, 1)
				time.Sleep(20 * time.Microsecond)
			}
		}(w)
	}
	time.Sleep(time.Duration(500+r.Intn(4000)) * time.Microsecond)
	order := r.Perm(4)
	steps := []struct {
		what string
		f    func()
	}{
		{"stopping the gRPC service", func() { _ = rs.Stop() }},
		{"stopping the gRPC server", srv.Stop},
		{"closing the client connection", func() { _ = conn.Close() }},
		{"stopping the store", func() {
			if s, ok := g.Store.(env.Stopper); ok {
				_ = s.Stop()
			}
		}},
	}
	for _, i := range order {
		if !within(t, name, steps[i].what+" while in use", opLimit, steps[i].f) {
			return
		}
		time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
	}
	close(stop)
	if !within(t, name, "operations around a stop", opLimit, wg.Wait) {
		return
	}
	if kind != "mem-json" {
		if !within(t, name, "operations on a stopped store", opLimit, func() {
			if _, err := g.Store.Save(root, "a!1", simpleBatch(r, "a", "1", "y", 1)...); err == nil {
				fail("stopped-save", "a save on a stopped store succeeded")
			}
			if recs, err := env.Collect(g.Store.Events(root, 0)); err == nil {
				fail("stopped-read", "a read of a stopped store gave %d records and no error", len(recs))
			}
			if err := g.Store.OptimisticDeleteStream(root, 1, "a!1"); err == nil {
				fail("stopped-delete", "a delete on a stopped store succeeded")
			}
		}) {
			return
		}
	} else if !within(t, name, "a save after the server stopped", opLimit, func() {
		if _, err := g.Store.Save(root, "a!1", simpleBatch(r, "a", "1", "y", 1)...); err != nil {
			fail("save", "%v", err)
		}
	}) {
		return
	}
	t.Count("stops", 1)
	t.Count("operations_around_stops", int(atomic.LoadInt64(&done)))
	t.Distinct(fmt.Sprintf("stop/%s/%v", kind, order))
}
