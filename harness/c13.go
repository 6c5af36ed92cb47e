package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/inklabs/rangedb"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C13"] = c13 }

func c13(t *core.T) {
	t.SetRule("random operation sequences (saves and deletes with right and wrong expected numbers, refused batches, cancelled and expired contexts, totals, reads of every scope from every start, awkward names, undecodable records, subscriptions from history and live) are executed on a remote store over gRPC and, operation by operation, on an identical embedded twin with the same clock; the monitor compares every result, error kind, conflict number and record. After each operation the change is looked up through a second client and directly in the server's store. In the lossy cases writers use connections that break after random numbers of bytes and deadlines of microseconds: what was acknowledged is stored exactly once, what was refused is not, what was interrupted at most once, whole and in order. Distinct by operation sequence and final contents")
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack"} {
		kind := k
		j.add(t.N(1200, 20000), "twin/"+k, func(t *core.T, n string, r *rand.Rand) { c13Twin(t, n, kind, r) })
	}
	for _, k := range []string{"mem-json", "ldb-msgpack", "pg"} {
		kind := k
		j.add(t.N(150, 3000), "lossy/"+k, func(t *core.T, n string, r *rand.Rand) { c13Lossy(t, n, kind, r) })
	}
	for _, k := range []string{"remote-mem-json", "remote-ldb-msgpack"} {
		j.add(t.N(1, 12), "large-"+k, largeQueries(largeHistory(t.N(3000, 10000)), k))
		j.add(t.N(1, 12), "wide-"+k, largeQueries(wideHistory(t.N(600, 3000), t.N(70, 300)), k))
	}
	j.run(16)
}

var eidRe = regexp.MustCompile(` eid=[^ ]* ts=[0-9]* `)

func noEID(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = eidRe.ReplaceAllString(s, " ")
	}
	return out
}

// outcome classifies an error as a caller can.
func outcome(err error) string {
	if err == nil {
		return "ok"
	}
	if u, ok := isUnexpected(err); ok {
		return fmt.Sprintf("conflict expected=%d actual=%d", u.Expected, u.ActualSequenceNumber)
	}
	if isCancelled(err, true) {
		return "cancelled"
	}
	if err == rangedb.ErrStreamNotFound {
		return "stream not found"
	}
	return "error"
}

func c13Twin(t *core.T, name, kind string, r *rand.Rand) {
	a := env.Open("remote-" + kind)
	defer a.Close()
	b := env.Open(kind)
	defer b.Close()
	client2, err := a.NewClient()
	if err != nil {
		t.Fail(name, "client", "a second client could not connect: %v", err)
		return
	}
	var log []string
	fail := func(key, f string, x ...interface{}) {
		l := log
		if len(l) > 40 {
			l = l[len(l)-40:]
		}
		t.Fail(name, key, "[%s] %s\noperations:\n  %s", kind, fmt.Sprintf(f, x...), strings.Join(l, "\n  "))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	awkward := r.Intn(3) > 0
	var types, streams []string
	for i := 0; i < 3; i++ {
		types = append(types, env.RandName(r, awkward))
	}
	for i := 0; i < 4; i++ {
		streams = append(streams, env.RandName(r, awkward))
	}
	type watch struct {
		ra, rb *env.Recorder
		what   string
	}
	var watches []*watch
	saved := 0
	n, poisonMode, cancelledNow := 0, r.Intn(4) == 0, false
	compareRead := func(what string, get func(rangedb.Store) rangedb.RecordIterator, withEID bool) bool {
		ra, ea := env.Collect(get(a.Store))
		rb, eb := env.Collect(get(b.Store))
		if oa, ob := outcome(ea), outcome(eb); oa != ob && !(cancelledNow && oa == "cancelled" && len(rb) == 0) {
			fail("read-outcome", "%s: remote %s (%v), embedded %s (%v)", what, oa, ea, ob, eb)
			return false
		}
		if d := env.Diff(noEID(env.Strings(ra)), noEID(env.Strings(rb))); d != "" {
			fail("read-records", "%s: remote (got) against embedded (want) %s", what, d)
			return false
		}
		for i, s := range []rangedb.Store{client2, a.Inner} {
			rc, ec := env.Collect(get(s))
			if cancelledNow {
				break
			}
			if outcome(ec) != outcome(ea) || env.Diff(env.Strings(rc), env.Strings(ra)) != "" {
				fail("other-client", "%s: first client %s, %s %s: %s", what, outcome(ea), []string{"second client", "server's own store"}[i], outcome(ec), env.Diff(env.Strings(rc), env.Strings(ra)))
				return false
			}
		}
		t.Count("reads_compared", 1)
		t.Count("records_compared", 3*len(ra))
		return true
	}
	settle := func() bool {
		if len(watches) > 0 {
			w := watches[0]
			if !env.WaitUntil(20*time.Second, func() bool { return w.ra.Len() >= saved && w.rb.Len() >= saved }) {
				fail("subscription", "%s: %d events were saved, the remote subscriber has %d records, the embedded one %d", w.what, saved, w.ra.Len(), w.rb.Len())
				return false
			}
		}
		for _, w := range watches {
			if !env.WaitUntil(20*time.Second, func() bool { return w.ra.Len() >= w.rb.Len() }) {
				fail("subscription", "%s: the remote subscriber has %d records, the embedded one %d", w.what, w.ra.Len(), w.rb.Len())
				return false
			}
		}
		return true
	}
	// Cases with subscriptions keep few records on their way, and others save more at once.
	watching := !poisonMode && r.Intn(3) > 0
	pending := 0
	if watching {
		w := &watch{ra: env.NewRecorder(), rb: env.NewRecorder(), what: "subscription to all events from the beginning"}
		for x, s := range []rangedb.Store{a.Store, b.Store} {
			sub := s.AllEventsSubscription(ctx, 1000, []*env.Recorder{w.ra, w.rb}[x])
			defer sub.Stop()
			if err := sub.Start(); err != nil {
				fail("subscription", "%s: %v", w.what, err)
				return
			}
		}
		watches = append(watches, w)
	}
	start := func(max uint64) uint64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return max + uint64(r.Intn(3))
		case 2:
			return env.EdgeUint(r)
		}
		return uint64(r.Int63n(int64(max) + 1))
	}
	ops := 12 + r.Intn(20)
	stored := 0
	var sig strings.Builder
	for i := 0; i < ops; i++ {
		t.Tick()
		stream := streams[r.Intn(len(streams))]
		k := r.Intn(20)
		fmt.Fprintf(&sig, "%d,", k)
		cur, _ := b.Store.TotalEventsInStream(ctx, stream)
		octx := ctx
		cancelledNow = r.Intn(15) == 0
		if cancelledNow {
			octx = canceled()
			if r.Intn(3) == 0 {
				octx = expired()
			}
		}
		reasons := 0 // why the operation cannot succeed
		if cancelledNow {
			reasons++
		}
		remoteOnly := false
		label, cnt := "", 0
		var fa, fb func(s rangedb.Store) (uint64, error)
		switch {
		case k < 9:
			ty := types[r.Intn(len(types))]
			size := batchSize(r, 3, 30)
			if watching {
				size = batchSize(r, 3, 1<<30)
				if r.Intn(20) == 0 {
					size = serverRoom
				}
				if pending += size; pending > serverRoom {
					if !settle() {
						return
					}
					pending = size
				}
			}
			seed := r.Int63()
			bad := r.Intn(12)
			mk := func() []*rangedb.EventRecord {
				rr := rand.New(rand.NewSource(seed))
				var out []*rangedb.EventRecord
				for x := 0; x < size; x++ {
					ev := env.MakeEvent(rr, ty, "id-"+stream, fmt.Sprintf("u%d", n+x), true)
					if e, ok := ev.(*env.EvA); ok && rr.Intn(2) == 0 {
						e.Payload = env.RandValue(rr, 2, true)
					}
					out = append(out, &rangedb.EventRecord{Event: ev, Metadata: env.RandMeta(rr)})
				}
				switch bad {
				case 0:
					out[rr.Intn(size)].Event = env.EvFail{T: ty, ID: "id-" + stream}
				case 1:
					if size > 1 {
						out[size-1].Event = &env.EvA{T: ty, ID: "other", UID: "x"}
						switch rr.Intn(4) {
						case 0:
							out[0].Event = &env.EvA{T: ty, UID: "x"}
						case 1:
							out[0].Event = &env.EvA{ID: "id-" + stream, UID: "x"}
						}
					}
				case 2:
					out = nil
				case 3:
					if poisonMode {
						out[rr.Intn(size)].Event = &env.EvPoison{T: ty, ID: "id-" + stream, UID: "poison"}
					}
				}
				return out
			}
			n += size
			cnt = size
			if bad == 1 && size > 1 || bad == 2 {
				reasons++
			}
			if bad == 0 {
				// refused by the client: the twin is not asked, it would spend a number
				remoteOnly = true
			}
			if k < 5 {
				label = fmt.Sprintf("Save(%q, %d events, variant %d)", stream, size, bad)
				fa = func(s rangedb.Store) (uint64, error) { return s.Save(octx, stream, mk()...) }
			} else {
				exp := cur
				if r.Intn(3) == 0 {
					exp = wrongNumber(r, cur)
					reasons++
				}
				label = fmt.Sprintf("OptimisticSave(%d, %q, %d events, variant %d) at length %d", exp, stream, size, bad, cur)
				fa = func(s rangedb.Store) (uint64, error) { return s.OptimisticSave(octx, exp, stream, mk()...) }
			}
			fb = fa
		case k < 12:
			exp := cur
			if r.Intn(3) == 0 {
				exp = wrongNumber(r, cur)
				reasons++
			}
			label = fmt.Sprintf("OptimisticDeleteStream(%d, %q) at length %d", exp, stream, cur)
			fa = func(s rangedb.Store) (uint64, error) { return 0, s.OptimisticDeleteStream(octx, exp, stream) }
			fb = fa
		case k < 14:
			label = fmt.Sprintf("TotalEventsInStream(%q)", stream)
			fa = func(s rangedb.Store) (uint64, error) { return s.TotalEventsInStream(octx, stream) }
			fb = fa
		case k < 16 && len(watches) < 4 && watching:
			from, live := start(uint64(n)), r.Intn(2) == 0
			var ts []string
			if r.Intn(2) == 0 {
				ts = types[:1+r.Intn(len(types))]
			}
			// A remote subscription may still receive what was on its way to the client.
			if !settle() {
				return
			}
			w := &watch{ra: env.NewRecorder(), rb: env.NewRecorder(), what: fmt.Sprintf("subscription types=%q live=%v from %d", ts, live, from)}
			log = append(log, w.what)
			for x, s := range []rangedb.Store{a.Store, b.Store} {
				rec := []*env.Recorder{w.ra, w.rb}[x]
				var sub rangedb.RecordSubscription
				if ts == nil {
					sub = s.AllEventsSubscription(ctx, 1000, rec)
				} else {
					sub = s.AggregateTypesSubscription(ctx, 1000, rec, ts...)
				}
				defer sub.Stop()
				var err error
				if !within(t, name, "starting a subscription", opLimit, func() {
					if live {
						err = sub.Start()
					} else {
						err = sub.StartFrom(from)
					}
				}) {
					return
				}
				if err != nil {
					fail("subscription", "%s: %v", w.what, err)
					return
				}
			}
			watches = append(watches, w)
			continue
		default:
			var what string
			var get func(rangedb.Store) rangedb.RecordIterator
			switch r.Intn(3) {
			case 0:
				from := start(uint64(stored))
				what = fmt.Sprintf("Events(%d)", from)
				get = func(s rangedb.Store) rangedb.RecordIterator { return s.Events(octx, from) }
			case 1:
				from := start(cur)
				what = fmt.Sprintf("EventsByStream(%d, %q)", from, stream)
				get = func(s rangedb.Store) rangedb.RecordIterator { return s.EventsByStream(octx, from, stream) }
			default:
				from := start(uint64(stored))
				ts := append([]string{}, types...)
				ts = append(ts, "never")
				r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
				ts = ts[:r.Intn(len(ts)+1)]
				what = fmt.Sprintf("EventsByAggregateTypes(%d, %q)", from, ts)
				get = func(s rangedb.Store) rangedb.RecordIterator { return s.EventsByAggregateTypes(octx, from, ts...) }
			}
			log = append(log, what)
			if !compareRead(what, get, false) {
				return
			}
			continue
		}
		log = append(log, label)
		na, ea := fa(a.Store)
		var nb uint64
		eb := errors.New("not serializable")
		if !remoteOnly {
			nb, eb = fb(b.Store)
		}
		if (remoteOnly || reasons > 1) && ea != nil && eb != nil && na == nb {
			t.Count("outcome_refused", 1)
		} else if outcome(ea) != outcome(eb) || na != nb {
			fail("outcome", "%s: remote returned %d, %s (%v); embedded %d, %s (%v)", label, na, outcome(ea), ea, nb, outcome(eb), eb)
			return
		}
		if eb == nil {
			stored += 3
			if k < 9 {
				saved += cnt
			}
		}
		t.Count("outcome_"+strings.SplitN(outcome(ea), " ", 2)[0], 1)
		// immediately visible elsewhere
		t2, e2 := client2.TotalEventsInStream(ctx, stream)
		ti, ei := a.Inner.TotalEventsInStream(ctx, stream)
		tb, _ := b.Store.TotalEventsInStream(ctx, stream)
		if t2 != tb || ti != tb || e2 != nil || ei != nil {
			fail("visibility", "after %s the stream has %d events (embedded twin), the second client sees %d (%v), the server's store %d (%v)", label, tb, t2, e2, ti, ei)
			return
		}
		if !settle() {
			return
		}
	}
	cancelledNow = false
	if !compareRead("Events(0)", func(s rangedb.Store) rangedb.RecordIterator { return s.Events(ctx, 0) }, false) {
		return
	}
	for _, s := range streams {
		s := s
		if !compareRead(fmt.Sprintf("EventsByStream(0, %q)", s), func(st rangedb.Store) rangedb.RecordIterator { return st.EventsByStream(ctx, 0, s) }, false) {
			return
		}
	}
	if !settle() {
		return
	}
	time.Sleep(2 * time.Millisecond)
	for _, w := range watches {
		if d := env.Diff(noEID(w.ra.Strings()), noEID(w.rb.Strings())); d != "" {
			// the embedded one may be a moment behind
			if !env.WaitUntil(20*time.Second, func() bool { return env.Diff(noEID(w.ra.Strings()), noEID(w.rb.Strings())) == "" }) {
				fail("subscription", "%s: remote (got) against embedded (want) %s", w.what, env.Diff(noEID(w.ra.Strings()), noEID(w.rb.Strings())))
				return
			}
		}
		t.Count("deliveries_compared", w.ra.Len())
	}
	t.Distinct(kind + sig.String())
	if r.Intn(30) == 0 {
		t.Sample(map[string]interface{}{"kind": kind, "operations": log[:min(len(log), 12)]})
	}
}
