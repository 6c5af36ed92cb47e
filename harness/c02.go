package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C02"] = c02 }

// failingBatch issues a batch that must fail as a whole, or, where its cause may
// come too late to matter, may succeed as a whole.
func (q *seqRun) failingBatch(s streamID) bool {
	ctx := context.Background()
	cur := q.m.Len[s.stream]
	n := q.size(5, 12)
	b := q.batch(s, n)
	p := q.r.Intn(n)
	exp := cur
	optimistic := q.r.Intn(2) == 0
	maySucceed := false
	cause := q.r.Intn(9)
	remote := strings.Contains(q.g.Kind, "remote-")
	enc := strings.HasPrefix(q.g.Kind, "enc")
	desc := ""
	switch {
	case cause == 0 || (cause == 7 && !remote && !enc):
		desc = "an event that cannot be serialized"
		b[p].Event = &env.EvFail{T: s.ty, ID: s.id}
	case cause == 1:
		if n == 1 {
			return true
		}
		desc = "a different aggregate type"
		p = 1 + q.r.Intn(n-1)
		b[p].Event = &env.EvA{T: s.ty + "x", ID: s.id, UID: q.uid()}
	case cause == 2:
		if n == 1 {
			return true
		}
		desc = "a different aggregate id"
		p = 1 + q.r.Intn(n-1)
		b[p].Event = &env.EvA{T: s.ty, ID: s.id + "x", UID: q.uid()}
	case cause == 3:
		desc = "its context cancelled while the batch is processed"
		c, cancel := context.WithCancel(ctx)
		ctx = c
		defer cancel()
		after := q.r.Intn(3) // engines and decorators ask for the type a different number of times
		b[p].Event = env.EvHook{EvA: env.EvA{T: s.ty, ID: s.id, UID: q.uid(), Payload: "h"}, Hook: func() {
			if after == 0 {
				cancel()
			}
			after--
		}}
		maySucceed = true
	case cause == 4:
		desc = "a wrong expected number"
		optimistic = true
		exp = wrongNumber(q.r, cur)
		if q.r.Intn(3) == 0 {
			b[p].Event = &env.EvFail{T: s.ty, ID: s.id}
		}
	case cause == 5:
		desc = "metadata that cannot be serialized"
		b[p].Metadata = make(chan int)
	case cause == 6:
		desc = "a context that is already cancelled"
		ctx = canceled()
		if q.r.Intn(3) == 0 {
			ctx = expired()
		}
	case cause == 8:
		if n == 1 || s.ty == "" || s.id == "" {
			return true
		}
		// empty names are names like any other
		p = 1 + q.r.Intn(n-1)
		desc = "an empty aggregate type before another"
		blankID := q.r.Intn(2) == 0
		if blankID {
			desc = "an empty aggregate id before another"
		}
		for i := 0; i < p; i++ {
			ev := &env.EvA{T: s.ty, ID: s.id, UID: q.uid()}
			if blankID {
				ev.ID = ""
			} else {
				ev.T = ""
			}
			b[i].Event = ev
		}
		if q.r.Intn(2) == 0 {
			b[n-1].Event = &env.EvA{T: s.ty + "z", ID: s.id, UID: q.uid()}
		}
	case cause == 7 && enc:
		desc = "an event that cannot be encrypted"
		b[p].Event = &env.EvEncFail{EvA: env.EvA{T: s.ty, ID: s.id, UID: q.uid()}}
	default:
		return q.failingRPC(s, p, n)
	}
	q.logf("failing save(%q, %d events, at %d: %s, optimistic %v) len=%d", s.stream, n, p, desc, optimistic, cur)
	q.m.Lo, q.m.Hi = 0, 0
	var got uint64
	var err error
	if optimistic {
		got, err = q.g.Store.OptimisticSave(ctx, exp, s.stream, b...)
	} else {
		got, err = q.g.Store.Save(ctx, s.stream, b...)
	}
	q.t.Count("failing_batches", 1)
	q.t.Count("failing: "+desc, 1)
	q.sig.WriteString(fmt.Sprintf("f%d.%d.%d", cause, p, n))
	if err == nil {
		if !maySucceed {
			q.fail("bad-batch-accepted", "a save of %d events with %s at position %d succeeded with %d", n, desc, p, got)
			return false
		}
		if got != cur+uint64(n) {
			q.fail("save-result", "save of %d events at length %d returned %d", n, cur, got)
			return false
		}
		q.m.Append(s.stream, b...)
	} else if got != 0 {
		q.fail("save-result", "a failed save returned sequence number %d with error %v", got, err)
		return false
	}
	// The very next view must be as before.
	if q.r.Intn(3) == 0 {
		return q.verify()
	}
	return true
}

// failingRPC sends a batch to the server directly that the client would refuse.
func (q *seqRun) failingRPC(s streamID, p, n int) bool {
	if q.g.Conn == nil || q.g.Keys != nil {
		return true
	}
	c := rangedbpb.NewRangeDBClient(q.g.Conn)
	var evs []*rangedbpb.Event
	for i := 0; i < n; i++ {
		evs = append(evs, &rangedbpb.Event{AggregateType: s.ty, AggregateID: s.id, EventType: "VerifU", Data: fmt.Sprintf(`{"uid":%q}`, q.uid()), Metadata: "null"})
	}
	desc := ""
	switch q.r.Intn(6) {
	case 0:
		desc = "malformed data"
		evs[p].Data = `{"uid":`
	case 1:
		desc = "malformed metadata"
		evs[p].Metadata = `{]`
	case 2:
		if n == 1 {
			return true
		}
		desc = "different aggregate id"
		p = 1 + q.r.Intn(n-1)
		evs[p].AggregateID += "y"
	case 3:
		if n == 1 {
			return true
		}
		desc = "different aggregate type"
		p = 1 + q.r.Intn(n-1)
		evs[p].AggregateType += "y"
	case 4, 5:
		if n == 1 || s.ty == "" || s.id == "" {
			return true
		}
		p = 1 + q.r.Intn(n-1)
		desc = "an empty aggregate type or id before another"
		blankID := q.r.Intn(2) == 0
		for i := 0; i < p; i++ {
			if blankID {
				evs[i].AggregateID = ""
			} else {
				evs[i].AggregateType = ""
			}
		}
	}
	q.logf("failing RPC save(%q, %d events, at %d: %s)", s.stream, n, p, desc)
	var err error
	if q.r.Intn(2) == 0 {
		_, err = c.Save(context.Background(), &rangedbpb.SaveRequest{StreamName: s.stream, Events: evs})
	} else {
		_, err = c.OptimisticSave(context.Background(), &rangedbpb.OptimisticSaveRequest{StreamName: s.stream, Events: evs, ExpectedStreamSequenceNumber: q.m.Len[s.stream]})
	}
	q.t.Count("failing_rpc_batches", 1)
	if err == nil {
		q.fail("bad-batch-accepted", "the server accepted a batch with %s at position %d", desc, p)
		return false
	}
	return true
}

func c02(t *core.T) {
	t.SetRule("(1) seeded sequential histories in which a third of the saves are batches that must fail (unserializable event or metadata, other aggregate (also after events with an empty type or id), wrong expected number, context cancelled before or during the batch, event that cannot be encrypted, malformed RPC) at a random position; all views, counts and two live subscribers are compared with a model afterwards; (2) concurrent writers of marked batches, some failing, with readers of every view and subscribers that check each batch is seen whole, contiguous and in order; (3) LevelDB on storage that fails the n-th operation during a save or deletion, also ones larger than the engine's write buffer. Non-trivial: at least one batch failed; distinct by failure positions and causes")
	kinds := env.AllKinds
	per := t.N(120, 2400)
	t.Parallel(per*len(kinds), 8, func(i int) {
		kind := kinds[i%len(kinds)]
		runSeq(t, fmt.Sprintf("seq-%s-%d", kind, i), kind, seqCfg{ops: 36, awkward: i%3 == 0, rich: i%4 == 0, deletes: true, queries: 2, every: 9, reopen: false, failPct: 35, subscribe: true})
	})
	ck := []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "remote-mem-json", "remote-ldb-json"}
	t.Parallel(t.N(3, 60)*len(ck), 2, func(i int) {
		c02Concurrent(t, fmt.Sprintf("conc-%s-%d", ck[i%len(ck)], i), ck[i%len(ck)])
	})
	t.Parallel(t.N(30, 600)*len(env.PgKinds), 8, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		runSeq(t, fmt.Sprintf("seq-%s-%d", kind, i), kind, seqCfg{ops: 36, awkward: i%3 == 0, rich: i%4 == 0, deletes: true, queries: 2, every: 9, reopen: false, failPct: 35, subscribe: true})
	})
	t.Parallel(t.N(3, 60)*len(env.PgKinds), 2, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		c02Concurrent(t, fmt.Sprintf("conc-%s-%d", kind, i), kind)
	})
	t.Parallel(t.N(160, 4000), 8, func(i int) {
		kind := []string{"pg", "pgnotify"}[i%2]
		c02PgFaults(t, fmt.Sprintf("faults-%s-%d", kind, i), kind, false)
	})
	t.Parallel(t.N(60, 1500), 4, func(i int) {
		kind := []string{"pg", "pgnotify"}[i%2]
		c02PgWriters(t, fmt.Sprintf("writers-%s-%d", kind, i), kind)
	})
	t.Parallel(t.N(160, 4000), 8, func(i int) {
		c02Storage(t, fmt.Sprintf("storage-%d", i), false)
	})
	t.Parallel(t.N(16, 200), 8, func(i int) {
		c02Large(t, fmt.Sprintf("large-%d", i), i%4 == 0)
	})
}

// batch uid: "b<batch>/<index>/<size>"; batches that must fail start with "x".
func splitBatch(uid string) (id string, i, n int) {
	p := strings.Split(uid, "/")
	if len(p) != 3 {
		return uid, -1, -1
	}
	fmt.Sscan(p[1], &i)
	fmt.Sscan(p[2], &n)
	return p[0], i, n
}

// wholeBatches checks that uids are a sequence of complete batches.
func wholeBatches(uids []string) string {
	for k := 0; k < len(uids); {
		id, i, n := splitBatch(uids[k])
		if n < 1 {
			return fmt.Sprintf("unexpected event %s", uids[k])
		}
		if id[0] == 'x' {
			return fmt.Sprintf("event %s of a batch that failed is visible", uids[k])
		}
		if i != 0 {
			return fmt.Sprintf("event %s without the events of its batch before it (after %v)", uids[k], uids[max(0, k-2):k])
		}
		for j := 0; j < n; j++ {
			if k+j >= len(uids) || uids[k+j] != fmt.Sprintf("%s/%d/%d", id, j, n) {
				return fmt.Sprintf("batch %s of %d events is only partly visible: %v", id, n, uids[k:min(len(uids), k+n+1)])
			}
		}
		k += n
	}
	return ""
}

func uidsOf(rs []*rangedb.Record) []string {
	out := make([]string, len(rs))
	for i, r := range rs {
		out[i] = env.UID(r.Data)
	}
	return out
}

func c02Concurrent(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open(kind)
		defer g.Close()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		rec := env.NewRecorder()
		sub := g.Store.AllEventsSubscription(ctx, 10000, rec)
		if err := sub.Start(); err != nil {
			fail("subscribe", "Start: %v", err)
			return
		}
		defer sub.Stop()
		size, nb := 3, 40
		if r.Intn(4) == 0 && !strings.Contains(kind, "remote") {
			size, nb = bigBatches[r.Intn(9)], 8
		}
		streams := []string{"sh1", "sh2", "own0", "own1", "own2"}
		var stop int32
		var okBatches int64
		var done sync.WaitGroup
		for w := 0; w < 3; w++ {
			wr := t.Rand(fmt.Sprintf("%s/w%d", name, w))
			done.Add(1)
			go func(w int) {
				defer done.Done()
				for i := 0; i < nb && atomic.LoadInt32(&stop) == 0; i++ {
					stream := []string{"sh1", "sh2", fmt.Sprintf("own%d", w)}[wr.Intn(3)]
					bad := wr.Intn(3) == 0
					id := fmt.Sprintf("b%dw%d", i, w)
					if bad {
						id = "x" + id
					}
					var evs []*rangedb.EventRecord
					for j := 0; j < size; j++ {
						evs = append(evs, &rangedb.EventRecord{Event: &env.EvA{T: "ty-" + stream, ID: stream, UID: fmt.Sprintf("%s/%d/%d", id, j, size)}})
					}
					if bad {
						p := wr.Intn(size)
						if wr.Intn(2) == 0 || p == 0 {
							evs[p].Event = &env.EvFail{T: "ty-" + stream, ID: stream}
						} else {
							evs[p].Event = &env.EvA{T: "ty-" + stream, ID: "other", UID: "x/0/1"}
						}
					}
					_, err := g.Store.Save(ctx, stream, evs...)
					if (err != nil) != bad {
						fail("save-result", "save of batch %s returned %v", id, err)
						atomic.StoreInt32(&stop, 1)
						return
					}
					if !bad {
						n := atomic.AddInt64(&okBatches, 1)
						// flow control: stay within what every buffer holds
						rec.WaitLen(int(n-2)*size, 5*time.Second)
					}
					t.Tick()
				}
			}(w)
		}
		fin := make(chan struct{})
		go func() { done.Wait(); close(fin) }()
		var readers sync.WaitGroup
		for k := 0; k < 2; k++ {
			rr := t.Rand(fmt.Sprintf("%s/r%d", name, k))
			readers.Add(1)
			go func() {
				defer readers.Done()
				for {
					select {
					case <-fin:
						return
					default:
					}
					s := streams[rr.Intn(len(streams))]
					var rs []*rangedb.Record
					var err error
					what := ""
					switch rr.Intn(5) {
					case 0:
						what = "all events"
						rs, err = env.Collect(g.Store.Events(ctx, 0))
					case 1:
						what = "stream " + s
						rs, err = env.Collect(g.Store.EventsByStream(ctx, 0, s))
						if err != nil && err.Error() == rangedb.ErrStreamNotFound.Error() {
							err = nil
						}
					case 2:
						what = "type ty-" + s
						rs, err = env.Collect(g.Store.EventsByAggregateTypes(ctx, 0, "ty-"+s))
					case 3:
						what = "types"
						rs, err = env.Collect(g.Store.EventsByAggregateTypes(ctx, 0, "ty-sh1", "ty-sh2", "ty-own1"))
					case 4:
						n, err := g.Store.TotalEventsInStream(ctx, s)
						if err != nil || n%uint64(size) != 0 {
							fail("partial-batch-counted", "total of stream %s is %d (%v) while only batches of %d are saved", s, n, err, size)
							atomic.StoreInt32(&stop, 1)
							return
						}
						t.Count("concurrent_totals", 1)
						continue
					}
					if err != nil {
						fail("read", "reading %s: %v", what, err)
						atomic.StoreInt32(&stop, 1)
						return
					}
					if e := wholeBatches(uidsOf(rs)); e != "" {
						fail("partial-batch-visible", "reading %s during saves: %s", what, e)
						atomic.StoreInt32(&stop, 1)
						return
					}
					t.Count("concurrent_reads", 1)
					t.Tick()
				}
			}()
		}
		<-fin
		readers.Wait()
		if atomic.LoadInt32(&stop) == 0 {
			n := int(atomic.LoadInt64(&okBatches)) * size
			rec.WaitLen(n, 20*time.Second)
			if e := wholeBatches(rec.UIDs()); e != "" {
				fail("partial-batch-delivered", "a subscriber was given: %s", e)
			} else if rec.Len() != n {
				fail("subscriber-missing", "a subscriber received %d of %d events", rec.Len(), n)
			}
			rs, err := env.Collect(g.Store.Events(ctx, 0))
			if err != nil || len(rs) != n {
				fail("final", "final view holds %d events (%v), expected %d", len(rs), err, n)
			}
			t.Distinct(fmt.Sprint(kind, uidsOf(rs)))
		}
		_ = r
		t.Eval()
	})
}
