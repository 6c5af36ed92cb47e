package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"

	"rangedbverif/core"
	"rangedbverif/env"
)

// pgBatch makes events that know their batch.
func pgBatch(r *rand.Rand, ty, id, batch string, n int) (recs []*rangedb.EventRecord, uids []string) {
	for k := 0; k < n; k++ {
		uid := fmt.Sprintf("%s/%d/%d", batch, k, n)
		uids = append(uids, uid)
		recs = append(recs, &rangedb.EventRecord{Event: env.MakeEvent(r, ty, id, uid, false)})
	}
	return
}

// c02PgFaults: statements fail, connections break before and after statements
// (also commits). A failed operation had no effect, or all of it when its
// commit was lost; nothing stays open or locked.
// With deletes, half of the operations delete a stream.
func c02PgFaults(t *core.T, name, kind string, deletes bool) {
	if t.Skip(name) {
		return
	}
	r := t.Rand(name)
	t.Guard(name, func() {
		g := env.Open(kind)
		defer g.Close()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		bg := context.Background()
		streams := []string{"a!0", "a!1", "b!0"}
		want := map[string][]string{}
		var hist []string
		rec := env.NewRecorder()
		sub := g.Store.AllEventsSubscription(bg, 1000, rec)
		if err := sub.Start(); err != nil {
			fail("subscribe", "%v", err)
			return
		}
		read := func(s string) ([]string, error) {
			recs, err := env.Collect(g.Store.EventsByStream(bg, 0, s))
			if errors.Is(err, rangedb.ErrStreamNotFound) {
				return nil, nil
			}
			return uidsOf(recs), err
		}
		eq := func(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }
		kinds := [][]string{{"error"}, {"drop"}, {"lost"}, {"error", "drop", "lost"}}[r.Intn(4)]
		failed := 0
		committed := map[string]bool{}
		for i := 0; i < 30 && !t.Stopped(); i++ {
			s := streams[r.Intn(len(streams))]
			ty, id := s[:1], s[2:]
			cur := want[s]
			after := cur
			var err error
			var desc string
			// a random statement of the operation fails
			at, n := r.Intn(9), 0
			mode := kinds[r.Intn(len(kinds))]
			lostCommit := false
			if r.Intn(4) > 0 {
				g.Pg.SetFault(func(sql string) string {
					n++
					if n-1 == at {
						if mode == "lost" && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(sql)), "COMMIT") {
							lostCommit = true
						}
						return mode
					}
					return ""
				})
			}
			var uids []string
			legit := false
			if !within(t, name, "an operation while statements fail", opLimit, func() {
				switch x := r.Intn(8); {
				case x < 4 || x < 6 && !deletes:
					var recs []*rangedb.EventRecord
					recs, uids = pgBatch(r, ty, id, fmt.Sprint("b", i), 1+r.Intn(4))
					after = append(append([]string{}, cur...), uids...)
					if x < 3 {
						desc = fmt.Sprintf("save %s %v", s, uids)
						_, err = g.Store.Save(bg, s, recs...)
					} else {
						exp := uint64(len(cur))
						if r.Intn(4) == 0 {
							exp++
							legit = true
						}
						desc = fmt.Sprintf("save %s expecting %d %v", s, exp, uids)
						_, err = g.Store.OptimisticSave(bg, exp, s, recs...)
					}
				default:
					after = nil
					exp := uint64(len(cur))
					if r.Intn(4) == 0 {
						exp++
						legit = true
					}
					legit = legit || len(cur) == 0
					desc = fmt.Sprintf("delete %s expecting %d", s, exp)
					err = g.Store.OptimisticDeleteStream(bg, exp, s)
				}
			}) {
				return
			}
			g.Pg.SetFault(nil)
			hist = append(hist, fmt.Sprintf("%s (statement %d of it: %s) -> %v", desc, at, mode, err))
			if err == nil && legit {
				fail("accepted", "an operation that had to be refused succeeded after\n%s", strings.Join(hist, "\n"))
				return
			}
			if err != nil {
				failed++
			}
			// what is stored now
			var got []string
			var rerr error
			if !within(t, name, "a read after an operation with failing statements", opLimit, func() { got, rerr = read(s) }) {
				return
			}
			if rerr != nil {
				fail("read", "a read without faults: %v after\n%s", rerr, strings.Join(hist, "\n"))
				return
			}
			switch {
			case err == nil && !eq(got, after):
				fail("lost", "%s succeeded, but the stream holds %v, expected %v, after\n%s", desc, got, after, strings.Join(hist, "\n"))
				return
			case err != nil && !eq(got, cur) && !(lostCommit && !legit && eq(got, after)):
				fail("partial", "%s failed, but the stream holds %v, before it %v, after\n%s", desc, got, cur, strings.Join(hist, "\n"))
				return
			}
			if err != nil && len(got) > len(cur) {
				committed[fmt.Sprint("b", i)] = true // in doubt, but stored
			}
			want[s] = got
			t.Distinct(fmt.Sprint(kind, mode, at, err == nil, strings.Fields(desc)[0]))
		}
		t.Count("failed_operations", failed)
		// nothing is left open
		open := 0
		if !env.WaitUntil(opLimit, func() bool { _, _, open = g.Pg.Stats(); return open == 0 }) {
			fail("transaction-open", "%d transactions are still open after\n%s", open, strings.Join(hist, "\n"))
			return
		}
		for _, s := range streams {
			var err error
			if !within(t, name, "a save after failed statements", opLimit, func() {
				recs, uids := pgBatch(r, s[:1], s[2:], "z"+s, 2)
				_, err = g.Store.Save(bg, s, recs...)
				want[s] = append(want[s], uids...)
			}) {
				return
			}
			if err != nil {
				fail("save", "a save without faults: %v after\n%s", err, strings.Join(hist, "\n"))
				return
			}
		}
		total := 0
		for _, s := range streams {
			total += len(want[s])
			got, err := read(s)
			if err != nil || !eq(got, want[s]) {
				fail("lost", "stream %s holds %v (%v), want %v after\n%s", s, got, err, want[s], strings.Join(hist, "\n"))
				return
			}
		}
		all, err := env.Collect(g.Store.Events(bg, 0))
		if err != nil || len(all) != total {
			fail("all-events", "%d of %d events in the all-events view, %v, after\n%s", len(all), total, err, strings.Join(hist, "\n"))
			return
		}
		// subscribers saw committed events only, once and in order
		last := uint64(0)
		gone := map[string]int{}
		env.WaitUntil(2*time.Second, func() bool {
			u := rec.UIDs()
			return len(u) > 0 && strings.HasPrefix(u[len(u)-1], "zb!0/1")
		})
		for _, x := range rec.Records() {
			if x.GlobalSequenceNumber <= last {
				fail("delivery-order", "a subscriber received %d after %d after\n%s", x.GlobalSequenceNumber, last, strings.Join(hist, "\n"))
				return
			}
			last = x.GlobalSequenceNumber
			gone[env.UID(x.Data)]++
		}
		for _, h := range hist {
			f := strings.Fields(h)
			if f[0] != "save" || strings.HasSuffix(h, "-> <nil>") {
				continue
			}
			id, _, _ := splitBatch(strings.Trim(h[strings.Index(h, "[")+1:strings.Index(h, "]")], " "))
			for uid := range gone {
				if strings.HasPrefix(uid, id+"/") && !committed[id] {
					fail("delivered-uncommitted", "a subscriber received %s of a batch that was not stored after\n%s", uid, strings.Join(hist, "\n"))
					return
				}
			}
		}
		sub.Stop()
		t.Count("pg_fault_histories", 1)
	})
	t.Eval()
}

// c02PgWriters: several writers while statements fail and connections break.
func c02PgWriters(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	r0 := t.Rand(name)
	t.Guard(name, func() {
		g := env.Open(kind)
		defer g.Close()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		bg := context.Background()
		streams := []string{"a!0", "a!1", "b!0"}[:1+r0.Intn(3)]
		g.Pg.SetFaults(5+r0.Intn(40), time.Duration(r0.Intn(400))*time.Microsecond, [][]string{{"error"}, {"drop"}, {"error", "drop", "lost"}}[r0.Intn(3)]...)
		acked := map[string]bool{}
		refused := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		var bad int32
		for w := 0; w < 4; w++ {
			w, r := w, t.Rand(fmt.Sprint(name, "/", w))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 10 && atomic.LoadInt32(&bad) == 0; i++ {
					s := streams[r.Intn(len(streams))]
					id := fmt.Sprintf("w%d-%d", w, i)
					recs, _ := pgBatch(r, s[:1], s[2:], id, 1+r.Intn(4))
					var err error
					if !within(t, name, "a save while statements fail", opLimit, func() {
						if r.Intn(3) == 0 {
							n, e := g.Store.TotalEventsInStream(bg, s)
							if e != nil {
								err = e
								return
							}
							_, err = g.Store.OptimisticSave(bg, n, s, recs...)
						} else {
							_, err = g.Store.Save(bg, s, recs...)
						}
					}) {
						atomic.StoreInt32(&bad, 1)
						return
					}
					mu.Lock()
					var conflict *rangedberror.UnexpectedSequenceNumber
					if err == nil {
						acked[id] = true
					} else if errors.As(err, &conflict) {
						refused[id] = true
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if bad != 0 {
			return
		}
		g.Pg.SetFaults(0, 0)
		open := 0
		if !env.WaitUntil(opLimit, func() bool { _, _, open = g.Pg.Stats(); return open == 0 }) {
			fail("transaction-open", "%d transactions are still open", open)
			return
		}
		all, err := env.Collect(g.Store.Events(bg, 0))
		if err != nil {
			fail("read", "%v", err)
			return
		}
		if d := wholeBatches(uidsOf(all)); d != "" {
			fail("batch", "%s in %v", d, uidsOf(all))
			return
		}
		seen := map[string]bool{}
		n := map[string]uint64{}
		for _, x := range all {
			id, _, _ := splitBatch(env.UID(x.Data))
			seen[id] = true
			n[x.StreamName]++
			if x.StreamSequenceNumber != n[x.StreamName] {
				fail("numbers", "stream %s has number %d at position %d", x.StreamName, x.StreamSequenceNumber, n[x.StreamName])
				return
			}
		}
		var lost []string
		for id := range acked {
			if !seen[id] {
				lost = append(lost, id)
			}
		}
		sort.Strings(lost)
		if len(lost) > 0 {
			fail("lost", "acknowledged batches %v are not stored", lost)
			return
		}
		for id := range refused {
			if seen[id] {
				fail("refused-stored", "batch %s was refused with a conflict, but is stored", id)
				return
			}
		}
		t.Count("pg_concurrent_acknowledged", len(acked))
		t.Count("pg_concurrent_failed", 40-len(acked))
		t.Distinct(fmt.Sprint(kind, len(streams), uidsOf(all)))
	})
	t.Eval()
}

// c07PgDrop: the connections to the server break while subscribers of a store
// that uses notifications wait; they get every event once and in order.
func c07PgDrop(t *core.T, name, kind string, r *rand.Rand, drops int) {
	g := env.Open(kind)
	defer g.Close()
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	bg := context.Background()
	recs := map[string]*env.Recorder{"": env.NewRecorder(), "a": env.NewRecorder(), "late": env.NewRecorder()}
	subs := []rangedb.RecordSubscription{
		g.Store.AllEventsSubscription(bg, 1000, recs[""]),
		g.Store.AggregateTypesSubscription(bg, 1000, recs["a"], "a"),
	}
	for _, s := range subs {
		if err := s.Start(); err != nil {
			fail("subscribe", "%v", err)
			return
		}
	}
	defer func() {
		for _, s := range subs {
			s.Stop()
		}
	}()
	acked := 0
	i := 0
	save := func() {
		ty := []string{"a", "b"}[r.Intn(2)]
		b, _ := pgBatch(r, ty, fmt.Sprint(r.Intn(3)), fmt.Sprint("b", i), 1+r.Intn(3))
		i++
		if _, err := g.Store.Save(bg, rangedb.GetEventStream(b[0].Event), b...); err == nil {
			acked += len(b)
		}
	}
	for d := 0; d <= drops; d++ {
		for k := 3 + r.Intn(10); k > 0; k-- {
			save()
		}
		if d == drops {
			break
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
			g.Pg.Drop()
			close(stop)
		}()
		for dropped := false; !dropped; {
			select {
			case <-stop:
				dropped = true
			default:
				time.Sleep(200 * time.Microsecond)
			}
		}
		wg.Wait()
		for k := r.Intn(8); k > 0; k-- { // while the listener is away
			save()
		}
		if d == 0 {
			s := g.Store.AllEventsSubscription(bg, 1000, recs["late"])
			var err error
			for k := 0; k < 5; k++ { // broken connections in the pool
				if err = s.StartFrom(0); err == nil {
					break
				}
				break
			}
			if err != nil {
				fail("subscribe", "StartFrom after a lost connection: %v", err)
				return
			}
			subs = append(subs, s)
		}
		time.Sleep(time.Duration(r.Intn(14000)) * time.Millisecond)
	}
	all, err := env.Collect(g.Store.Events(bg, 0))
	if err != nil {
		fail("read", "%v", err)
		return
	}
	if len(all) < acked {
		fail("lost", "%d events acknowledged, %d stored", acked, len(all))
		return
	}
	for who, rec := range recs {
		var want []string
		for _, x := range all {
			if who != "a" || x.AggregateType == "a" {
				want = append(want, env.RecString(x))
			}
		}
		if !rec.WaitLen(len(want), 60*time.Second) {
			fail("missing", "subscriber %q received %d of %d events; connections were lost %d times", who, rec.Len(), len(want), drops)
			return
		}
		time.Sleep(5 * time.Millisecond)
		if d := env.Diff(rec.Strings(), want); d != "" {
			fail("delivery", "subscriber %q after %d lost connections: %s", who, drops, d)
			return
		}
		t.Count("deliveries_checked", len(want))
	}
	t.Count("connections_lost", drops)
	t.Distinct(fmt.Sprint(name, len(all)))
}
