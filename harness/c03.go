package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/inklabs/rangedb"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C03"] = c03; checks["C05"] = c05 }

func c03(t *core.T) {
	t.SetRule("(1) seeded sequential histories with deletes and recreations: every view compared field by field with a model (unique event ids, clock timestamps within the save, never reused global numbers); (2) concurrent writers, deleters and readers: real-time order of saves against global numbers, one content per number over the whole run, completeness of every read against saves that returned before it, and agreement of all views at the end. Non-trivial: more than one event; distinct by history")
	kinds := env.AllKinds
	per := t.N(20, 900)
	t.Parallel(per*len(kinds), 8, func(i int) {
		kind := kinds[i%len(kinds)]
		runSeq(t, fmt.Sprintf("seq-%s-%d", kind, i), kind, seqCfg{ops: 40, awkward: i%2 == 0, rich: i%3 == 0, deletes: true, queries: 2, every: 5, reopen: true, deletePct: 15})
	})
	t.Parallel(t.N(10, 400)*len(env.PgKinds), 8, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		runSeq(t, fmt.Sprintf("seq-%s-%d", kind, i), kind, seqCfg{ops: 40, awkward: i%2 == 0, rich: i%3 == 0, deletes: true, queries: 2, every: 5, deletePct: 15})
	})
	ck := []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-ldb-json", "remote-mem-json", "remote-ldb-json"}
	t.Parallel(t.N(6, 150)*len(ck), 3, func(i int) {
		c03Concurrent(t, fmt.Sprintf("conc-%s-%d", ck[i%len(ck)], i), ck[i%len(ck)])
	})
	t.Parallel(t.N(3, 60)*len(env.PgKinds), 3, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		c03Concurrent(t, fmt.Sprintf("conc-%s-%d", kind, i), kind)
	})
	j := &jobs{t: t}
	j.add(t.N(1, 10), "ids", idsCase(t.N(160000, 400000)))
	j.run(2)
}

type savedBatch struct {
	uids      []string
	stream    string
	call, ret int64
	epoch     int // stream incarnation, -1 when the stream is also deleted by others
}

type deleted struct {
	stream    string
	call, ret int64
}

type readObs struct {
	what       string
	typ        string // "" all, or a type, or stream:<name>
	start, end int64
	recs       []*rangedb.Record
}

// c03Concurrent runs writers, deleters and readers and checks the recorded history.
func c03Concurrent(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		g := env.Open(kind)
		defer g.Close()
		ctx := context.Background()
		var tick int64
		now := func() int64 { return atomic.AddInt64(&tick, 1) }
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		var mu sync.Mutex
		var saves []savedBatch
		var dels []deleted
		var reads []readObs
		var bad int32
		streams := []string{"a!1", "a!2", "b!1", "b!2", "del!1", "del!2"}
		typ := func(s string) string { return s[:len(s)-2] }
		var writers sync.WaitGroup
		for w := 0; w < 4; w++ {
			r := t.Rand(fmt.Sprintf("%s/w%d", name, w))
			writers.Add(1)
			go func(w int) {
				defer writers.Done()
				for i := 0; i < 30 && atomic.LoadInt32(&bad) == 0; i++ {
					s := streams[r.Intn(len(streams))]
					if s[:3] == "del" && r.Intn(3) == 0 {
						n, err := g.Store.TotalEventsInStream(ctx, s)
						if err != nil || n == 0 {
							continue
						}
						c := now()
						err = g.Store.OptimisticDeleteStream(ctx, n, s)
						e := now()
						if err == nil {
							mu.Lock()
							dels = append(dels, deleted{s, c, e})
							mu.Unlock()
							t.Count("concurrent_deletes", 1)
						}
						continue
					}
					k := batchSize(r, 3, 50)
					var b []*rangedb.EventRecord
					var uids []string
					for j := 0; j < k; j++ {
						u := fmt.Sprintf("w%d-%d-%d", w, i, j)
						uids = append(uids, u)
						b = append(b, &rangedb.EventRecord{Event: &env.EvA{T: typ(s), ID: s, UID: u}})
					}
					c := now()
					_, err := g.Store.Save(ctx, s, b...)
					e := now()
					if err != nil {
						fail("save", "save to %s: %v", s, err)
						atomic.StoreInt32(&bad, 1)
						return
					}
					mu.Lock()
					saves = append(saves, savedBatch{uids: uids, stream: s, call: c, ret: e})
					mu.Unlock()
					t.Tick()
				}
			}(w)
		}
		fin := make(chan struct{})
		go func() { writers.Wait(); close(fin) }()
		var readers sync.WaitGroup
		read := func(what int, s string) bool {
			o := readObs{start: now()}
			var err error
			switch what {
			case 0:
				o.what = "all events"
				o.recs, err = env.Collect(g.Store.Events(ctx, 0))
			case 1:
				o.what, o.typ = "type "+typ(s), typ(s)
				o.recs, err = env.Collect(g.Store.EventsByAggregateTypes(ctx, 0, typ(s)))
			case 2:
				o.what, o.typ = "stream "+s, "stream:"+s
				o.recs, err = env.Collect(g.Store.EventsByStream(ctx, 0, s))
				if err != nil && err.Error() == rangedb.ErrStreamNotFound.Error() {
					err = nil
				}
			}
			o.end = now()
			if err != nil {
				fail("read", "reading %s: %v", o.what, err)
				atomic.StoreInt32(&bad, 1)
				return false
			}
			mu.Lock()
			reads = append(reads, o)
			mu.Unlock()
			t.Count("concurrent_reads", 1)
			return true
		}
		for k := 0; k < 2; k++ {
			r := t.Rand(fmt.Sprintf("%s/r%d", name, k))
			readers.Add(1)
			go func() {
				defer readers.Done()
				for n := 0; n < 400; n++ {
					select {
					case <-fin:
						return
					default:
					}
					if !read(r.Intn(3), streams[r.Intn(len(streams))]) {
						return
					}
				}
			}()
		}
		<-fin
		readers.Wait()
		if atomic.LoadInt32(&bad) != 0 {
			return
		}
		quiet := len(reads)
		read(0, "")
		for _, s := range streams {
			read(1, s)
			read(2, s)
		}
		t.Eval()
		if e := checkGlobalOrder(saves, dels, reads, typ); e != "" {
			fail("global-order", "%s", e)
			return
		}
		// agreement of the final views
		all := map[string]bool{}
		for _, r := range reads[quiet].recs {
			all[env.RecString(r)] = true
		}
		viewsT, viewsS := map[string]bool{}, map[string]bool{}
		for _, o := range reads[quiet+1:] {
			for _, r := range o.recs {
				s := env.RecString(r)
				if !all[s] {
					fail("views-disagree", "%s holds an event that the all-events view does not hold: %s", o.what, s)
					return
				}
				if len(o.typ) > 7 && o.typ[:7] == "stream:" {
					viewsS[s] = true
				} else {
					viewsT[s] = true
				}
			}
		}
		if len(viewsT) != len(all) || len(viewsS) != len(all) {
			fail("views-disagree", "the all-events view holds %d events, the aggregate type views %d, the stream views %d", len(all), len(viewsT), len(viewsS))
			return
		}
		t.Count("order_pairs_checked", len(saves))
		t.Distinct(fmt.Sprint(kind, uidsOf(reads[quiet].recs), len(dels)))
	})
}

// checkGlobalOrder is the offline checker over a recorded history.
func checkGlobalOrder(saves []savedBatch, dels []deleted, reads []readObs, typ func(string) string) string {
	content := map[uint64]string{}
	eids := map[string]string{}
	gsn := map[string]uint64{}
	byUID := map[string]*savedBatch{}
	for i := range saves {
		for _, u := range saves[i].uids {
			byUID[u] = &saves[i]
		}
	}
	for _, o := range reads {
		var prev uint64
		have := map[string]bool{}
		for _, r := range o.recs {
			if r.GlobalSequenceNumber <= prev {
				return fmt.Sprintf("%s is not strictly ascending: %d after %d", o.what, r.GlobalSequenceNumber, prev)
			}
			prev = r.GlobalSequenceNumber
			s := env.RecString(r)
			if c, ok := content[prev]; ok && c != s {
				return fmt.Sprintf("global number %d has two contents:\n  %s\n  %s", prev, c, s)
			}
			content[prev] = s
			u := env.UID(r.Data)
			if have[u] {
				return fmt.Sprintf("%s holds event %s twice", o.what, u)
			}
			have[u] = true
			if e, ok := eids[r.EventID]; ok && e != u {
				return fmt.Sprintf("event id %s belongs to both %s and %s", r.EventID, e, u)
			}
			eids[r.EventID] = u
			if n, ok := gsn[u]; ok && n != prev {
				return fmt.Sprintf("event %s has global numbers %d and %d", u, n, prev)
			}
			gsn[u] = prev
			b := byUID[u]
			if b == nil {
				return fmt.Sprintf("%s holds event %s that no save stored", o.what, u)
			}
			if b.call > o.end {
				return fmt.Sprintf("%s holds event %s, whose save began after the read ended", o.what, u)
			}
			if r.StreamName != b.stream || r.AggregateType != typ(b.stream) || r.AggregateID != b.stream || r.EventType != "VerifA" {
				return fmt.Sprintf("event %s has wrong identifiers: %s", u, s)
			}
			if o.typ != "" && o.typ != r.AggregateType && o.typ != "stream:"+r.StreamName {
				return fmt.Sprintf("%s holds a foreign event: %s", o.what, s)
			}
			for _, d := range dels {
				if d.stream == b.stream && d.ret < o.start && b.ret < d.call {
					return fmt.Sprintf("%s holds event %s of stream %s that had been deleted", o.what, u, b.stream)
				}
			}
		}
		// everything saved before the read began, of streams nobody deletes
		for _, b := range saves {
			if b.ret >= o.start || b.stream[:3] == "del" {
				continue
			}
			if o.typ != "" && o.typ != typ(b.stream) && o.typ != "stream:"+b.stream {
				continue
			}
			for _, u := range b.uids {
				if !have[u] {
					return fmt.Sprintf("%s misses event %s, whose save returned before the read began", o.what, u)
				}
			}
		}
	}
	// batch order and real-time order
	for i := range saves {
		a := &saves[i]
		for j := 1; j < len(a.uids); j++ {
			x, y := gsn[a.uids[j-1]], gsn[a.uids[j]]
			if x != 0 && y != 0 && x >= y {
				return fmt.Sprintf("events of one batch are out of order: %s=%d, %s=%d", a.uids[j-1], x, a.uids[j], y)
			}
		}
		for j := range saves {
			b := &saves[j]
			if a.ret >= b.call {
				continue
			}
			for _, u := range a.uids {
				for _, v := range b.uids {
					if gsn[u] != 0 && gsn[v] != 0 && gsn[u] >= gsn[v] {
						return fmt.Sprintf("save of %s returned before the save of %s began, but its global number %d is not below %d", u, v, gsn[u], gsn[v])
					}
				}
			}
		}
	}
	return ""
}

func c05(t *core.T) {
	t.SetRule("(1) seeded sequential histories in which a third of the operations are deletes with right, wrong and arbitrary numbers, of existing, deleted and unknown streams, with cancelled contexts, recreation and reopening; every view and live subscribers compared with a model after every few operations; (2) concurrent saves, deletes and reads checked offline (deleted events never visible again, untouched streams complete, numbers never reused); (3) deletes and saves while statements of the database or operations of the file system fail: a failed delete changed nothing. Non-trivial: more than one event stored; distinct by history")
	kinds := env.AllKinds
	per := t.N(40, 1500)
	t.Parallel(per*len(kinds), 8, func(i int) {
		kind := kinds[i%len(kinds)]
		sub := i%2 == 0
		runSeq(t, fmt.Sprintf("seq-%s-%d", kind, i), kind, seqCfg{ops: 44, awkward: i%3 != 0, rich: i%4 == 0, deletes: true, queries: 3, every: 4, reopen: !sub, deletePct: 30, subscribe: sub})
	})
	pk := env.PgKinds
	t.Parallel(t.N(10, 300)*len(pk), 8, func(i int) {
		kind := pk[i%len(pk)]
		sub := i/len(pk)%2 == 0 && kind != "pg" // without notifications there are no subscribers
		runSeq(t, fmt.Sprintf("seq-%s-%d", kind, i), kind, seqCfg{ops: 44, awkward: i%3 != 0, rich: i%4 == 0, deletes: true, queries: 3, every: 4, reopen: !sub, deletePct: 30, subscribe: sub})
	})
	ck := []string{"mem-json", "ldb-json", "ldb-msgpack", "remote-ldb-json", "pg", "pgnotify"}
	t.Parallel(t.N(4, 100)*len(ck), 3, func(i int) {
		c03Concurrent(t, fmt.Sprintf("conc-%s-%d", ck[i%len(ck)], i), ck[i%len(ck)])
	})
	t.Parallel(t.N(60, 2000), 8, func(i int) {
		kind := []string{"pg", "pgnotify"}[i%2]
		c02PgFaults(t, fmt.Sprintf("faults-%s-%d", kind, i), kind, true)
	})
	t.Parallel(t.N(60, 2000), 8, func(i int) {
		c02Storage(t, fmt.Sprintf("storage-%d", i), true)
	})
}
