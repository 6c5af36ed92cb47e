package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C07"] = c07 }

func c07(t *core.T) {
	t.SetRule("concurrent writers (some saves failing) on several aggregate types while subscribers join at random moments, live or from a random number (0, the past, the present, beyond the end), to everything or to a set of types (also with repetitions), directly, through the encrypting store, through the gRPC client and as raw gRPC subscriptions, with random delays in the store's critical sections and in consumers; offline checker: each delivery sequence must be exactly the matching part of the final all-events view; histories of thousands of events, and half a minute without events, included. Non-trivial: the subscriber joined while events existed or were being written; distinct by join point and delivered sequence")
	kinds := []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "enc-ldb-json", "remote-mem-json", "remote-ldb-json", "encremote-mem-json"}
	per := t.N(40, 900)
	var idle sync.WaitGroup
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "enc-mem-json", "remote-mem-json", "remote-ldb-msgpack"} {
		kind := k
		j.add(1, "idle-"+kind, func(t *core.T, name string, r *rand.Rand) {
			idleSubs(t, name, kind, r, time.Duration(t.N(33, 130))*time.Second)
		})
	}
	for k := 0; k < t.N(4, 24); k++ {
		n := 1 + k%2
		j.add(1, fmt.Sprintf("pgdrop%d", k), func(t *core.T, name string, r *rand.Rand) { c07PgDrop(t, name, "pgnotify", r, n) })
	}
	idle.Add(1)
	go func() {
		defer idle.Done()
		j.run(len(j.list))
	}()
	t.Parallel(per*len(kinds), 4, func(i int) {
		kind := kinds[i%len(kinds)]
		c07Case(t, fmt.Sprintf("%s-%d", kind, i), kind)
	})
	t.Parallel(t.N(12, 250)*len(env.PgKinds), 4, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		c07Case(t, fmt.Sprintf("%s-%d", kind, i), kind)
	})
	lj := &jobs{t: t}
	for _, kind := range []string{"mem-json", "ldb-msgpack", "enc-mem-json", "remote-mem-json"} {
		lj.add(t.N(1, 20), "large-"+kind, largeSubs(largeHistory(t.N(5000, 12000)), kind))
		lj.add(t.N(1, 20), "wide-"+kind, largeSubs(wideHistory(t.N(600, 3000), t.N(70, 300)), kind))
	}
	lj.run(4)
	idle.Wait()
}

// rpcRecorder receives from a raw gRPC subscription.
type rpcSub interface {
	Recv() (*rangedbpb.Record, error)
}

func pbString(p *rangedbpb.Record) string {
	st := env.NewTypes()
	rec, err := rangedbpb.ToRecord(p, st)
	if err != nil {
		return "undecodable: " + err.Error()
	}
	return env.RecString(rec)
}

type subPlan struct {
	id     string
	rec    *env.Recorder
	from   uint64
	live   bool
	types  []string // nil: all
	callT  int64
	retT   int64
	joined uint64 // events saved when it joined
	err    error
	rpcEnd atomic.Value
}

func (p *subPlan) match(typ string) bool {
	if p.types == nil {
		return true
	}
	for _, x := range p.types {
		if x == typ {
			return true
		}
	}
	return false
}

func (p *subPlan) String() string {
	return fmt.Sprintf("%s from=%d live=%v types=%q joined after %d saves", p.id, p.from, p.live, p.types, p.joined)
}

func c07Case(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r0 := t.Rand(name)
		g := env.Open(kind)
		ctx, cancel := context.WithCancel(context.Background())
		var cleanup []func()
		defer func() {
			cancel()
			for _, f := range cleanup {
				f()
			}
			g.Close()
		}()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		remote := strings.Contains(kind, "remote")
		g.Clock.SetJitter(env.RandomJitter(r0.Int63(), time.Duration(1+r0.Intn(150))*time.Microsecond))
		types := []string{"a", "b", "c!d", "e"}[:2+r0.Intn(3)]
		var tick, saved int64
		now := func() int64 { return atomic.AddInt64(&tick, 1) }
		sentinel := env.NewRecorder()
		ss := g.Store.AllEventsSubscription(ctx, 20000, sentinel)
		if err := ss.Start(); err != nil {
			fail("subscribe", "Start: %v", err)
			return
		}
		cleanup = append(cleanup, ss.Stop)
		type saveRec struct {
			uids      []string
			call, ret int64
		}
		var mu sync.Mutex
		var saves []saveRec
		var plans []*subPlan
		var bad int32
		lag := int64(60)
		if remote {
			lag = 6
		}
		pace := func() {
			n := atomic.LoadInt64(&saved)
			if !sentinel.WaitLen(int(n-lag), 20*time.Second) {
				fail("subscriber-missing", "the subscriber of all events received %d of %d events", sentinel.Len(), n)
				atomic.StoreInt32(&bad, 1)
			}
			if remote {
				mu.Lock()
				ps := append([]*subPlan{}, plans...)
				mu.Unlock()
				for _, p := range ps {
					if strings.HasPrefix(p.id, "rpc") && p.types == nil && !p.live && p.from == 0 {
						p.rec.WaitLen(int(n-lag), 5*time.Second)
					}
				}
			}
		}
		save := func(w, i int, r *rand.Rand) {
			ty := types[r.Intn(len(types))]
			stream := rangedb.GetStream(ty, fmt.Sprint(r.Intn(3)))
			_, id := ty, stream
			k := 1 + r.Intn(3)
			var b []*rangedb.EventRecord
			var uids []string
			for j := 0; j < k; j++ {
				u := fmt.Sprintf("w%d-%d-%d", w, i, j)
				uids = append(uids, u)
				b = append(b, &rangedb.EventRecord{Event: env.MakeEvent(r, ty, id, u, false), Metadata: map[string]interface{}{"u": u}})
			}
			if r.Intn(6) == 0 {
				b[r.Intn(k)].Event = &env.EvFail{T: ty, ID: id}
				if _, err := g.Store.Save(ctx, stream, b...); err == nil {
					fail("bad-batch-accepted", "a batch with an unserializable event was accepted")
					atomic.StoreInt32(&bad, 1)
				}
				return
			}
			c := now()
			_, err := g.Store.Save(ctx, stream, b...)
			e := now()
			if err != nil {
				fail("save", "save: %v", err)
				atomic.StoreInt32(&bad, 1)
				return
			}
			mu.Lock()
			saves = append(saves, saveRec{uids, c, e})
			mu.Unlock()
			atomic.AddInt64(&saved, int64(k))
			pace()
			t.Tick()
		}
		// history before anyone subscribes
		for i := 0; i < r0.Intn(12); i++ {
			save(9, i, r0)
		}
		var writers sync.WaitGroup
		for w := 0; w < 2; w++ {
			r := t.Rand(fmt.Sprintf("%s/w%d", name, w))
			n := 15 + r.Intn(20)
			writers.Add(1)
			go func(w int) {
				defer writers.Done()
				for i := 0; i < n && atomic.LoadInt32(&bad) == 0; i++ {
					save(w, i, r)
					if r.Intn(4) == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}(w)
		}
		var joiners sync.WaitGroup
		for k := 0; k < 2+r0.Intn(4); k++ {
			r := t.Rand(fmt.Sprintf("%s/s%d", name, k))
			joiners.Add(1)
			go func(k int) {
				defer joiners.Done()
				time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
				p := &subPlan{id: fmt.Sprintf("sub%d", k), rec: env.NewRecorder()}
				p.live = r.Intn(4) == 0
				if r.Intn(2) == 0 {
					for i := 0; i < 1+r.Intn(3); i++ {
						p.types = append(p.types, types[r.Intn(len(types))])
					}
				}
				cur := uint64(atomic.LoadInt64(&saved))
				p.joined = cur
				switch r.Intn(6) {
				case 0:
					p.from = 0
				case 1:
					p.from = 1
				case 2:
					p.from = cur + uint64(r.Intn(25))
				case 3:
					p.from = uint64(r.Int63n(int64(cur) + 1))
				case 4:
					p.from = cur
				case 5:
					p.from = 0
					if r.Intn(4) == 0 {
						p.from = math.MaxUint64 - uint64(r.Intn(2))
					}
				}
				if r.Intn(3) == 0 {
					jit := env.RandomJitter(r.Int63(), 200*time.Microsecond)
					p.rec.OnRec = func(int, *rangedb.Record) { jit() }
				}
				rpc := remote && g.Keys == nil && r.Intn(2) == 0
				if rpc {
					p.id = "rpc" + p.id
					c := rangedbpb.NewRangeDBClient(g.Conn)
					var sub rpcSub
					var err error
					p.live = false // a raw live stream has no start acknowledgement other than its header
					if p.types == nil {
						sub, err = c.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: p.from})
					} else {
						sub, err = c.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: p.from, AggregateTypes: p.types})
					}
					if err != nil {
						fail("subscribe", "%s: %v", p, err)
						return
					}
					go func() {
						types := env.NewTypes()
						for {
							m, err := sub.Recv()
							if err != nil {
								p.rpcEnd.Store(err.Error())
								return
							}
							rec, err := rangedbpb.ToRecord(m, types)
							if err != nil {
								p.rpcEnd.Store("undecodable record: " + err.Error())
								return
							}
							p.rec.Accept(rec)
						}
					}()
				} else {
					var s rangedb.RecordSubscription
					buf := 5000
					if p.types == nil {
						s = g.Store.AllEventsSubscription(ctx, buf, p.rec)
					} else {
						s = g.Store.AggregateTypesSubscription(ctx, buf, p.rec, p.types...)
					}
					mu.Lock()
					cleanup = append(cleanup, s.Stop)
					mu.Unlock()
					p.callT = now()
					if p.live {
						p.err = s.Start()
					} else {
						p.err = s.StartFrom(p.from)
					}
					p.retT = now()
					if p.err != nil {
						fail("subscribe", "%s: %v", p, p.err)
						return
					}
				}
				mu.Lock()
				plans = append(plans, p)
				mu.Unlock()
			}(k)
		}
		writers.Wait()
		joiners.Wait()
		if atomic.LoadInt32(&bad) != 0 {
			return
		}
		final, err := env.Collect(g.Store.Events(ctx, 0))
		if err != nil || int64(len(final)) != atomic.LoadInt64(&saved) {
			fail("final", "final view holds %d events (%v), expected %d", len(final), err, saved)
			return
		}
		callOf := map[string]int64{}
		for _, s := range saves {
			for _, u := range s.uids {
				callOf[u] = s.call
			}
		}
		sp := &subPlan{id: "sentinel", rec: sentinel, from: 0}
		for _, p := range append(plans, sp) {
			var want []*rangedb.Record
			for _, x := range final {
				if !p.match(x.AggregateType) {
					continue
				}
				if p.live {
					want = append(want, x)
				} else if x.GlobalSequenceNumber >= p.from {
					want = append(want, x)
				}
			}
			need := len(want)
			if p.live {
				// everything whose save began after Start returned
				need = 0
				for i, x := range want {
					if callOf[env.UID(x.Data)] > p.retT {
						need = len(want) - i
						break
					}
				}
			}
			complete := p.rec.WaitLen(need, 15*time.Second)
			if p.live && complete && need > 0 {
				// events from before Start returned count as well: the last one tells
				last := env.RecString(want[len(want)-1])
				complete = env.WaitUntil(15*time.Second, func() bool {
					s := p.rec.Strings()
					return len(s) > 0 && s[len(s)-1] == last
				})
			}
			time.Sleep(200 * time.Microsecond)
			got := p.rec.Strings()
			wantS := env.Strings(want)
			if p.live && complete {
				// events committed before Start returned may or may not be delivered, in order
				early := wantS[:len(wantS)-need]
				if len(got) >= need && isSubsequence(got[:len(got)-need], early) {
					wantS = append(append([]string{}, got[:len(got)-need]...), wantS[len(wantS)-need:]...)
				}
			}
			end, _ := p.rpcEnd.Load().(string)
			if d := env.Diff(got, wantS); d != "" || !complete {
				fail("delivery", "%s: needs at least %d records; the delivered records differ from the stored ones %s\nstream end: %q\ndelivered: %v\nstored: %v", p, need, d, end, short(got), short(wantS))
				return
			}
			if end != "" {
				fail("subscription-ended", "%s: the subscription of a client that keeps up ended with %q", p, end)
				return
			}
			t.Count("deliveries_checked", len(got))
			t.Count("subscriptions", 1)
			if p.joined > 0 {
				t.Distinct(fmt.Sprintf("%s/%v/%d/%v/%d/%d", kind, p.types, p.from, p.live, len(got), p.joined))
			}
		}
		t.Eval()
		if t.Counter("subscriptions") < 40 {
			var s []string
			for _, p := range plans {
				s = append(s, fmt.Sprintf("%s received %d", p, p.rec.Len()))
			}
			t.Sample(map[string]interface{}{"case": name, "subscribers": s, "events": len(final)})
		}
	})
}

func short(s []string) []string {
	var out []string
	for _, x := range s {
		if i := strings.Index(x, " stream="); i > 0 {
			out = append(out, x[:i])
		} else {
			out = append(out, x)
		}
	}
	return out
}
