package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/recordsubscriber"
	"google.golang.org/grpc"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C08"] = c08 }

func c08(t *core.T) {
	t.SetRule("stores with subscribers that block in Accept at a random event (buffers 0-4), fail at a random event, or are stopped / cancelled / stopped again at a random event, concurrently, from inside Accept or before starting; next to them healthy subscribers, writers and late subscriptions. Monitors: every save returns, healthy subscribers receive everything, late subscriptions start and receive everything from then on, every bad subscriber received a gap-free ordered prefix, nothing (beyond the one delivery in progress) after Stop returned; raw gRPC subscriptions that stall or whose server stops end with an error. Clients and subscribers that stop reading at different moments of a burst: those that read get everything or the end of their stream, later ones are served. Distinct by kind of misbehaviour, position and number delivered")
	t.Assume("the delivery in progress when Stop is called may still reach the subscriber", "a healthy remote subscriber is one with at most 6 undelivered events")
	kinds := []string{"mem-json", "ldb-json", "mem-msgpack", "enc-mem-json", "remote-mem-json", "remote-ldb-json", "pgnotify"}
	type job struct {
		name string
		f    func()
	}
	var jobs []job
	add := func(kind string, n int, f func(*core.T, string, string)) {
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s-%d", kind, i)
			jobs = append(jobs, job{name, func() { f(t, name, strings.SplitN(kind, "/", 2)[1]) }})
		}
	}
	for _, k := range kinds {
		add("stuck/"+k, t.N(20, 500), c08Stuck)
		add("stop/"+k, t.N(60, 1500), c08Stop)
	}
	add("consume/mem-json", t.N(60, 1500), c08Consume)
	add("consume/ldb-json", t.N(60, 1500), c08Consume)
	add("broadcaster/x", t.N(60, 1500), c08Broadcaster)
	add("rpcstuck/mem-json", t.N(8, 150), c08RPCStuck)
	add("rpcstuck/ldb-json", t.N(6, 100), c08RPCStuck)
	add("rpcstop/mem-json", t.N(20, 400), c08RPCStop)
	add("relay/mem-json", t.N(10, 200), c08Relay)
	add("relay/ldb-msgpack", t.N(6, 120), c08Relay)
	r := t.Rand("order")
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	t.Parallel(len(jobs), 16, func(i int) { jobs[i].f() })
}

type badSub struct {
	what  string
	types []string
	rec   *env.Recorder
	sub   rangedb.RecordSubscription
}

func (b *badSub) want(all []*rangedb.Record) []string {
	var out []string
	for _, x := range all {
		ok := b.types == nil
		for _, ty := range b.types {
			ok = ok || ty == x.AggregateType
		}
		if ok {
			out = append(out, env.RecString(x))
		}
	}
	return out
}

// c08Stuck: subscribers that block forever (until released).
func c08Stuck(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open(kind)
		ctx, cancel := context.WithCancel(context.Background())
		gate := make(chan struct{})
		released := false
		release := func() {
			if !released {
				released = true
				close(gate)
			}
		}
		defer func() {
			release()
			cancel()
			g.Close()
		}()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		remote := strings.Contains(kind, "remote")
		types := []string{"a", "b", "c"}
		subscribe := func(buf int, rec *env.Recorder, ty []string) rangedb.RecordSubscription {
			if ty == nil {
				return g.Store.AllEventsSubscription(ctx, buf, rec)
			}
			return g.Store.AggregateTypesSubscription(ctx, buf, rec, ty...)
		}
		var healthy []*badSub
		for i := 0; i < 2+r.Intn(2); i++ {
			h := &badSub{what: "healthy", rec: env.NewRecorder()}
			if i > 0 && r.Intn(2) == 0 {
				h.types = types[:1+r.Intn(3)]
			}
			h.sub = subscribe(5000, h.rec, h.types)
			if err := h.sub.Start(); err != nil {
				fail("subscribe", "Start: %v", err)
				return
			}
			healthy = append(healthy, h)
		}
		var stuck []*badSub
		for i := 0; i < 1+r.Intn(5); i++ {
			b := &badSub{rec: env.NewRecorder()}
			at := 1 + r.Intn(6)
			b.what = fmt.Sprintf("subscriber stuck at its event %d", at)
			b.rec.OnRec = func(n int, _ *rangedb.Record) {
				if n == at {
					<-gate
				}
			}
			if r.Intn(2) == 0 {
				b.types = types[:1+r.Intn(3)]
			}
			buf := r.Intn(5)
			b.what += fmt.Sprintf(" with buffer %d, types %q", buf, b.types)
			b.sub = subscribe(buf, b.rec, b.types)
			if err := b.sub.Start(); err != nil {
				fail("subscribe", "Start: %v", err)
				return
			}
			stuck = append(stuck, b)
		}
		var saved int64
		lag := int64(80)
		if remote {
			lag = 6
		}
		save := func(w, i int) bool {
			ty := types[(w+i)%3]
			k := 1 + (i % 3)
			ok := true
			if !within(t, name, fmt.Sprintf("a save next to stuck subscribers (%s)", kind), opLimit, func() {
				rr := t.Rand(fmt.Sprintf("%s/%d/%d", name, w, i))
				if _, err := g.Store.Save(ctx, rangedb.GetStream(ty, fmt.Sprint(w)), simpleBatch(rr, ty, fmt.Sprint(w), fmt.Sprintf("w%d-%d", w, i), k)...); err != nil {
					fail("save", "a save next to stuck subscribers failed: %v", err)
					ok = false
				}
			}) {
				return false
			}
			n := atomic.AddInt64(&saved, int64(k))
			healthy[0].rec.WaitLen(int(n-lag), 20*time.Second)
			return ok
		}
		rounds := 8 + r.Intn(15)
		var wg sync.WaitGroup
		var bad int32
		for w := 0; w < 2; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < rounds; i++ {
					if !save(w, i) {
						atomic.StoreInt32(&bad, 1)
						return
					}
				}
			}(w)
		}
		wg.Wait()
		if atomic.LoadInt32(&bad) != 0 {
			return
		}
		// a late subscription starts although others are stuck
		late := &badSub{what: "late", rec: env.NewRecorder()}
		late.sub = subscribe(5000, late.rec, nil)
		before := atomic.LoadInt64(&saved)
		var lateErr error
		lateFrom := r.Intn(2) == 0
		if !within(t, name, "starting a subscription next to stuck subscribers", opLimit, func() {
			if lateFrom {
				lateErr = late.sub.StartFrom(0)
			} else {
				lateErr = late.sub.Start()
			}
		}) {
			return
		}
		if lateErr != nil {
			fail("subscribe", "starting next to stuck subscribers: %v", lateErr)
			return
		}
		if r.Intn(3) == 0 {
			for _, b := range stuck {
				if r.Intn(2) == 0 {
					if !within(t, name, "stopping a stuck subscriber", opLimit, b.sub.Stop) {
						return
					}
				}
			}
		}
		for i := 0; i < 3; i++ {
			if !save(7, i) {
				return
			}
		}
		all, err := env.Collect(g.Inner.Events(ctx, 0))
		if kind[:3] == "enc" {
			all, err = env.Collect(g.Store.Events(ctx, 0))
		}
		if err != nil || int64(len(all)) != saved {
			fail("final", "final view: %d events (%v), expected %d", len(all), err, saved)
			return
		}
		for _, h := range healthy {
			want := h.want(all)
			h.rec.WaitLen(len(want), 20*time.Second)
			if d := env.Diff(h.rec.Strings(), want); d != "" {
				fail("healthy-starved", "a healthy subscriber (types %q) next to %d stuck ones did not receive exactly the stored events %s", h.types, len(stuck), d)
				return
			}
			t.Count("healthy_deliveries", len(want))
		}
		lw := late.want(all)
		if !lateFrom {
			// a remote client may still be handed what was saved just before
			env.WaitUntil(20*time.Second, func() bool {
				s := late.rec.Strings()
				return len(s) >= len(all)-int(before) && (len(s) == 0 || len(lw) == 0 || s[len(s)-1] == lw[len(lw)-1])
			})
			n := late.rec.Len()
			if n >= len(all)-int(before) && n <= len(all) {
				lw = lw[len(lw)-n:]
			}
		} else {
			late.rec.WaitLen(len(all), 20*time.Second)
		}
		if d := env.Diff(late.rec.Strings(), lw); d != "" {
			fail("late-subscriber", "a subscription started next to stuck ones (from history: %v) %s", lateFrom, d)
			return
		}
		release()
		time.Sleep(2 * time.Millisecond)
		// more events after the release: whoever was dropped must not get them with a hole before
		for i := 0; i < 2; i++ {
			if !save(8, i) {
				return
			}
		}
		all, err = env.Collect(g.Store.Events(ctx, 0))
		if err != nil {
			fail("final", "final view: %v", err)
			return
		}
		healthy[0].rec.WaitLen(len(all), 20*time.Second)
		time.Sleep(2 * time.Millisecond)
		for _, b := range stuck {
			got := b.rec.Strings()
			if d := isPrefix(got, b.want(all)); d != "" {
				fail("not-a-prefix", "%s: what it received is not a gap-free ordered prefix of the events it subscribed to: %s", b.what, d)
				return
			}
			t.Distinct(fmt.Sprintf("%s/%s/%d", kind, b.what, len(got)))
			t.Count("stuck_subscribers", 1)
			if len(got) < len(b.want(all)) {
				t.Count("dropped_subscribers", 1)
			}
		}
		t.Eval()
		t.Sample(map[string]interface{}{"case": name, "stuck": stuck[0].what, "received": stuck[0].rec.Len(), "events": len(all)})
	})
}

// c08Stop: stopping and cancelling at a random moment.
func c08Stop(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open(kind)
		ctx, cancelAll := context.WithCancel(context.Background())
		defer func() { cancelAll(); g.Close() }()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		sentinel := env.NewRecorder()
		ss := g.Store.AllEventsSubscription(ctx, 5000, sentinel)
		if err := ss.Start(); err != nil {
			fail("subscribe", "Start: %v", err)
			return
		}
		hist := r.Intn(10)
		total := 0
		save := func(i int) bool {
			rr := t.Rand(fmt.Sprintf("%s/%d", name, i))
			k := 1 + i%2
			ok := true
			return within(t, name, "a save while subscriptions are being stopped", opLimit, func() {
				if _, err := g.Store.Save(ctx, "a!1", simpleBatch(rr, "a", "1", fmt.Sprint(i), k)...); err != nil {
					fail("save", "save: %v", err)
					ok = false
				}
				total += k
			}) && ok
		}
		for i := 0; i < hist; i++ {
			if !save(i) {
				return
			}
		}
		subCtx, cancelSub := context.WithCancel(ctx)
		defer cancelSub()
		rec := env.NewRecorder()
		var sub rangedb.RecordSubscription
		if r.Intn(2) == 0 {
			sub = g.Store.AllEventsSubscription(subCtx, 1+r.Intn(50), rec)
		} else {
			sub = g.Store.AggregateTypesSubscription(subCtx, 1+r.Intn(50), rec, "a", "zz")
		}
		mode := []string{"stop", "cancel", "stop-in-accept", "stop-many", "stop-and-cancel", "before-start", "cancel-before-start"}[r.Intn(7)]
		fromHist := r.Intn(2) == 0
		at := 1 + r.Intn(14)
		if fromHist {
			at = 1 + r.Intn(hist*2+8)
		}
		var atStop int64 = -1
		stopped := make(chan struct{})
		var once sync.Once
		doStop := func() {
			once.Do(func() {
				switch mode {
				case "cancel", "cancel-before-start":
					cancelSub()
				case "stop-many":
					var wg sync.WaitGroup
					for i := 0; i < 4; i++ {
						wg.Add(1)
						go func() { defer wg.Done(); t.Guard(name, sub.Stop) }()
					}
					wg.Wait()
				case "stop-and-cancel":
					var wg sync.WaitGroup
					wg.Add(2)
					go func() { defer wg.Done(); cancelSub() }()
					go func() { defer wg.Done(); t.Guard(name, sub.Stop) }()
					wg.Wait()
				default:
					sub.Stop()
				}
				atomic.StoreInt64(&atStop, int64(rec.Len()))
				close(stopped)
			})
		}
		trigger := make(chan struct{}, 1)
		rec.OnRec = func(n int, _ *rangedb.Record) {
			if n == at {
				if mode == "stop-in-accept" {
					doStop()
					return
				}
				select {
				case trigger <- struct{}{}:
				default:
				}
			}
		}
		go func() {
			select {
			case <-trigger:
				if d := time.Duration(r.Intn(60)) * time.Microsecond; d > 10*time.Microsecond {
					time.Sleep(d)
				}
				doStop()
			case <-ctx.Done():
			}
		}()
		if strings.HasSuffix(mode, "before-start") {
			doStop()
		}
		startTotal := total
		var serr error
		if !within(t, name, "starting a subscription", opLimit, func() {
			if fromHist {
				serr = sub.StartFrom(0)
			} else {
				serr = sub.Start()
			}
		}) {
			return
		}
		if serr != nil && atomic.LoadInt64(&atStop) < 0 && !errors.Is(serr, context.Canceled) {
			fail("subscribe", "start: %v", serr)
			return
		}
		for i := 0; i < 14; i++ {
			if !save(100 + i) {
				return
			}
			sentinel.WaitLen(total-5, 20*time.Second)
		}
		// stop now if the trigger event never came
		if !within(t, name, "stopping a subscription", opLimit, doStop) {
			return
		}
		<-stopped
		for i := 0; i < 3; i++ {
			if !save(200 + i) {
				return
			}
		}
		if !sentinel.WaitLen(total, 20*time.Second) {
			fail("healthy-starved", "a healthy subscriber received %d of %d events after another one was stopped (%s)", sentinel.Len(), total, mode)
			return
		}
		// stopping again, also after the end, is harmless
		if !within(t, name, "stopping a stopped subscription again", opLimit, func() { sub.Stop(); sub.Stop(); cancelSub() }) {
			return
		}
		time.Sleep(time.Millisecond)
		got := rec.Strings()
		n0 := atomic.LoadInt64(&atStop)
		extra := int64(1)
		if strings.HasSuffix(mode, "before-start") {
			extra = 0
		}
		if mode == "stop-in-accept" && n0 >= int64(at) {
			extra = 0
		}
		if int64(len(got)) > n0+extra {
			fail("delivered-after-stop", "mode %s at event %d (from history %v): %d records had been delivered when stopping returned, %d in the end", mode, at, fromHist, n0, len(got))
			return
		}
		all, err := env.Collect(g.Store.Events(ctx, 0))
		if err != nil {
			fail("final", "final view: %v", err)
			return
		}
		want := env.Strings(all)
		if !fromHist && len(got) > 0 {
			// live subscription: starts with an event saved at or (remote) shortly before the start
			for len(want) > 0 && want[0] != got[0] {
				want = want[1:]
			}
			if len(want) < len(all)-startTotal {
				fail("not-a-prefix", "live subscription stopped by %s: its first record is %s, later than the first event saved after it started", mode, got[0])
				return
			}
		}
		if d := isPrefix(got, want); d != "" {
			fail("not-a-prefix", "subscription stopped by %s at event %d (from history %v): not a gap-free ordered prefix: %s", mode, at, fromHist, d)
			return
		}
		t.Eval()
		t.Count("stops_"+mode, 1)
		t.Count("deliveries_before_stop", len(got))
		t.Distinct(fmt.Sprintf("%s/%s/%d/%v/%d/%d", kind, mode, at, fromHist, hist, len(got)))
	})
}

// c08Consume: a consumer function that fails at its k-th record.
func c08Consume(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open(kind)
		ctx, cancel := context.WithCancel(context.Background())
		b := broadcast.New(1000, broadcast.DefaultTimeout)
		feed := g.Store.AllEventsSubscription(ctx, 1000, b)
		if err := feed.Start(); err != nil {
			t.Fail(name, "subscribe", "Start: %v", err)
			return
		}
		defer func() { cancel(); feed.Stop(); g.Close(); b.Close() }()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
		total := 0
		save := func(n int) {
			for i := 0; i < n; i++ {
				if _, err := g.Store.Save(ctx, "a!1", simpleBatch(r, "a", "1", fmt.Sprint(total), 1)...); err != nil {
					fail("save", "%v", err)
				}
				total++
			}
		}
		hist := r.Intn(8)
		save(hist)
		k := 1 + r.Intn(hist+12)
		rec := env.NewRecorder()
		boom := errors.New("verif: consumer failed")
		cfg := recordsubscriber.AllEventsConfig(ctx, g.Store, b, 100, func(x *rangedb.Record) error {
			rec.Accept(x)
			if rec.Len() >= k {
				return boom
			}
			return nil
		})
		if r.Intn(2) == 0 {
			cfg = recordsubscriber.AggregateTypesConfig(ctx, g.Store, b, 100, []string{"a", "q"}, cfg.ConsumeRecord)
		}
		healthy := env.NewRecorder()
		hs := recordsubscriber.New(recordsubscriber.AllEventsConfig(ctx, g.Store, b, 1000, func(x *rangedb.Record) error { healthy.Accept(x); return nil }))
		var serr error
		s := recordsubscriber.New(cfg)
		if !within(t, name, "StartFrom", opLimit, func() { _ = hs.StartFrom(0); serr = s.StartFrom(0) }) {
			return
		}
		if k <= hist {
			if !errors.Is(serr, boom) {
				fail("consumer-error-lost", "the consumer failed at record %d of %d during catch-up, StartFrom returned %v", k, hist, serr)
				return
			}
		} else if serr != nil {
			fail("subscribe", "StartFrom(0): %v", serr)
			return
		}
		save(14)
		if k > hist {
			if !within(t, name, fmt.Sprintf("the end (Done) of a subscriber whose consumer failed at record %d", k), opLimit, func() { <-s.Done() }) {
				return
			}
		}
		save(3)
		if !healthy.WaitLen(total, 20*time.Second) {
			fail("healthy-starved", "a healthy subscriber received %d of %d after another failed at %d", healthy.Len(), total, k)
			return
		}
		if !within(t, name, "stopping a failed subscriber", opLimit, func() { s.Stop(); s.Stop() }) {
			return
		}
		all, _ := env.Collect(g.Store.Events(ctx, 0))
		if d := env.Diff(rec.Strings(), env.Strings(all)[:k]); d != "" {
			fail("not-a-prefix", "consumer failing at record %d (history %d) was given %s", k, hist, d)
			return
		}
		if d := env.Diff(healthy.Strings(), env.Strings(all)); d != "" {
			fail("healthy-starved", "healthy subscriber: %s", d)
			return
		}
		t.Eval()
		t.Count("failing_consumers", 1)
		t.Distinct(fmt.Sprintf("consume/%s/%d/%d", kind, hist, k))
	})
}

// chanSub is a bare broadcaster subscriber.
type chanSub struct {
	ch    chan *rangedb.Record
	stops int64
}

func (c *chanSub) Receiver() broadcast.SendRecordChan { return c.ch }
func (c *chanSub) Stop()                              { atomic.AddInt64(&c.stops, 1) }

// c08Broadcaster: the broadcaster alone with ready and stuck subscribers, and closing.
func c08Broadcaster(t *core.T, name, _ string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[broadcaster] %s", fmt.Sprintf(f, a...)) }
		b := broadcast.New(r.Intn(4), 5*time.Millisecond)
		types := []string{"a", "b", "c"}
		type sb struct {
			*chanSub
			types []string
			cap   int
			gone  bool
		}
		n := 40
		var subs []*sb
		for i := 0; i < 2+r.Intn(6); i++ {
			s := &sb{chanSub: &chanSub{}}
			if r.Intn(2) == 0 {
				s.types = types[:1+r.Intn(3)]
			}
			s.cap = n
			if r.Intn(2) == 0 {
				s.cap = r.Intn(6)
			}
			s.ch = make(chan *rangedb.Record, s.cap)
			if s.types == nil {
				b.SubscribeAllEvents(s)
			} else {
				b.SubscribeAggregateTypes(s, s.types...)
			}
			subs = append(subs, s)
		}
		var recs []*rangedb.Record
		for i := 0; i < n; i++ {
			rec := &rangedb.Record{GlobalSequenceNumber: uint64(i + 1), AggregateType: types[r.Intn(3)]}
			recs = append(recs, rec)
		}
		leaveAt, leaver := -1, (*sb)(nil)
		if r.Intn(2) == 0 {
			leaveAt, leaver = r.Intn(n), subs[r.Intn(len(subs))]
		}
		if !within(t, name, "broadcasting to ready and stuck subscribers", opLimit, func() {
			for i, rec := range recs {
				if i == leaveAt {
					if leaver.types == nil {
						b.UnsubscribeAllEvents(leaver)
					} else {
						b.UnsubscribeAggregateTypes(leaver, leaver.types...)
					}
				}
				b.Accept(rec)
			}
		}) {
			return
		}
		last := &chanSub{ch: make(chan *rangedb.Record, 4)}
		if !within(t, name, "subscribing and broadcasting", opLimit, func() {
			b.SubscribeAllEvents(last)
			b.Accept(&rangedb.Record{GlobalSequenceNumber: uint64(n + 1), AggregateType: "none"})
			for len(last.ch) == 0 {
				time.Sleep(100 * time.Microsecond)
			}
			// the last record may still be underway to others: one more round trip
			b.UnsubscribeAllEvents(last)
		}) {
			return
		}
		for _, s := range subs {
			var want []uint64
			limit := n
			if s == leaver {
				limit = leaveAt
			}
			for i, rec := range recs {
				ok := s.types == nil
				for _, ty := range s.types {
					ok = ok || ty == rec.AggregateType
				}
				if ok && (i < limit || s != leaver) {
					want = append(want, rec.GlobalSequenceNumber)
				}
			}
			if s.types == nil {
				want = append(want, uint64(n+1))
				if s == leaver {
					want = want[:len(want)-1]
				}
			}
			var got []uint64
			for len(s.ch) > 0 {
				got = append(got, (<-s.ch).GlobalSequenceNumber)
			}
			exp := want
			if len(exp) > s.cap {
				exp = exp[:s.cap]
			}
			// records accepted just before the departure may still be buffered in the broadcaster: allow fewer, never others
			if s == leaver {
				all := []uint64{}
				for _, rec := range recs {
					ok := s.types == nil
					for _, ty := range s.types {
						ok = ok || ty == rec.AggregateType
					}
					if ok {
						all = append(all, rec.GlobalSequenceNumber)
					}
				}
				if !isSubsequence(got, all) || (len(got) > 0 && got[len(got)-1] > uint64(leaveAt)) {
					fail("leaver", "a subscriber that left before record %d received %v of %v", leaveAt+1, got, all)
					return
				}
				continue
			}
			// for a stuck multi-type subscriber only the prefix up to the drop matters to it
			if len(want) > s.cap {
				if len(got) < s.cap || fmt.Sprint(got[:s.cap]) != fmt.Sprint(exp) {
					fail("stuck-content", "a subscriber with room for %d records received %v, expected %v", s.cap, got, exp)
					return
				}
				if atomic.LoadInt64(&s.stops) == 0 {
					fail("stuck-not-told", "a subscriber (types %q) with room for %d records only, offered %d, was not stopped", s.types, s.cap, len(want))
					return
				}
			} else {
				if fmt.Sprint(got) != fmt.Sprint(want) {
					fail("ready-starved", "a subscriber (types %q) with room for all received %v, expected %v", s.types, got, want)
					return
				}
				if atomic.LoadInt64(&s.stops) != 0 {
					fail("ready-stopped", "a subscriber with room for all records was stopped")
					return
				}
			}
			t.Count("broadcast_subscribers", 1)
		}
		// closing: everything returns, subscribers are stopped
		var wg sync.WaitGroup
		var late []*chanSub
		for i := 0; i < 4; i++ {
			c := &chanSub{ch: make(chan *rangedb.Record, 100)}
			late = append(late, c)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if i%2 == 0 {
					b.SubscribeAllEvents(c)
				} else {
					b.SubscribeAggregateTypes(c, "a", "b")
				}
				for j := 0; j < 20; j++ {
					b.Accept(recs[j])
				}
				if i == 3 {
					b.UnsubscribeAggregateTypes(c, "a", "b")
				}
			}(i)
		}
		time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		if !within(t, name, "Close and the operations around it", opLimit, func() { b.Close(); wg.Wait() }) {
			return
		}
		if !within(t, name, "use after Close", opLimit, func() {
			b.Accept(recs[0])
			b.SubscribeAllEvents(last)
			b.UnsubscribeAllEvents(last)
			b.SubscribeAggregateTypes(last, "a")
			b.UnsubscribeAggregateTypes(last, "a")
		}) {
			return
		}
		for i, c := range late[:3] {
			if !env.WaitUntil(20*time.Second, func() bool { return atomic.LoadInt64(&c.stops) > 0 }) {
				fail("close-not-told", "subscriber %d was not stopped although the broadcaster closed", i)
				return
			}
		}
		t.Eval()
		t.Distinct(name)
	})
}

// c08RPCStuck: a raw gRPC client that stops reading.
func c08RPCStuck(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open("remote-" + kind)
		ctx, cancel := context.WithCancel(context.Background())
		defer func() { cancel(); g.Close() }()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[grpc] %s", fmt.Sprintf(f, a...)) }
		conn, err := g.Dial()
		if err != nil {
			fail("dial", "%v", err)
			return
		}
		defer conn.Close()
		c := rangedbpb.NewRangeDBClient(conn)
		big := strings.Repeat("x", 20000)
		total := 0
		healthy := env.NewRecorder()
		hs := g.Store.AllEventsSubscription(ctx, 2000, healthy)
		if err := hs.Start(); err != nil {
			fail("subscribe", "Start: %v", err)
			return
		}
		save := func() bool {
			ok := true
			return within(t, name, "a save next to stalled gRPC clients", opLimit, func() {
				ev := &env.EvA{T: "a", ID: "1", UID: fmt.Sprint(total), Payload: big}
				if _, err := g.Inner.Save(ctx, "a!1", &rangedb.EventRecord{Event: ev}); err != nil {
					fail("save", "%v", err)
					ok = false
				}
				total++
				healthy.WaitLen(total-4, 20*time.Second)
			}) && ok
		}
		hist := r.Intn(3)
		if r.Intn(2) == 0 {
			hist = 40 + r.Intn(60) // more than the connection holds: they stall while catching up
		}
		for i := 0; i < hist; i++ {
			if !save() {
				return
			}
		}
		nStuck := 1 + r.Intn(3)
		var streams []rpcSub
		for i := 0; i < nStuck; i++ {
			var s rpcSub
			var err error
			switch r.Intn(3) {
			case 0:
				s, err = c.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{})
			case 1:
				s, err = c.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{AggregateTypes: []string{"a", "b"}})
			default:
				var live rangedbpb.RangeDB_SubscribeToLiveEventsClient
				live, err = c.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
				if err == nil {
					_, err = live.Header()
				}
				s = live
			}
			if err != nil {
				fail("subscribe", "%v", err)
				return
			}
			streams = append(streams, s)
		}
		if hist > 3 {
			time.Sleep(50 * time.Millisecond)
		}
		for i := 0; i < 60; i++ {
			if !save() {
				return
			}
		}
		if !healthy.WaitLen(total, 30*time.Second) {
			fail("healthy-starved", "next to %d stalled gRPC clients a healthy remote subscriber received %d of %d", nStuck, healthy.Len(), total)
			return
		}
		// now they read: a gap-free run, then either everything or an error
		for i, s := range streams {
			var nums []uint64
			var end error
			if !within(t, name, "the end of the stream of a stalled gRPC client", opLimit, func() {
				for {
					m, err := s.Recv()
					if err != nil {
						end = err
						return
					}
					nums = append(nums, m.GlobalSequenceNumber)
					if m.GlobalSequenceNumber == uint64(total) {
						return
					}
				}
			}) {
				return
			}
			for j := 1; j < len(nums); j++ {
				if nums[j] != nums[j-1]+1 {
					fail("not-a-prefix", "stalled client %d received %v", i, nums)
					return
				}
			}
			if end == nil && (len(nums) == 0 || nums[len(nums)-1] != uint64(total)) {
				fail("not-told", "stalled client %d received up to %v and no error", i, nums)
				return
			}
			if end != nil {
				if end.Error() == "EOF" {
					fail("not-told", "stalled client %d was dropped after %d records by a clean end of its stream", i, len(nums))
					return
				}
				t.Count("rpc_clients_dropped_and_told", 1)
			}
			t.Distinct(fmt.Sprintf("rpcstuck/%d/%d/%v", hist, len(nums), end))
		}
		t.Eval()
	})
}

// c08RPCStop: stopping the server or its feed ends every subscription with an error.
func c08RPCStop(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open(kind)
		ctx, cancel := context.WithCancel(context.Background())
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[grpc stop] %s", fmt.Sprintf(f, a...)) }
		rs, err := rangedbserver.New(rangedbserver.WithStore(g.Store))
		if err != nil {
			fail("new", "%v", err)
			return
		}
		srv, dial, shut := serveGRPC(func(s *grpc.Server) { rangedbpb.RegisterRangeDBServer(s, rs) })
		defer func() { cancel(); shut(); g.Close() }()
		conn, err := dial()
		if err != nil {
			fail("dial", "%v", err)
			return
		}
		defer conn.Close()
		c := rangedbpb.NewRangeDBClient(conn)
		var streams []rpcSub
		n := 1 + r.Intn(4)
		total := r.Intn(4)
		for i := 0; i < total; i++ {
			_, _ = g.Store.Save(ctx, "a!1", simpleBatch(r, "a", "1", fmt.Sprint(i), 1)...)
		}
		for i := 0; i < n; i++ {
			var s rpcSub
			var err error
			switch r.Intn(3) {
			case 0:
				s, err = c.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{})
			case 1:
				s, err = c.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{AggregateTypes: []string{"a"}})
			default:
				var live rangedbpb.RangeDB_SubscribeToLiveEventsClient
				live, err = c.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
				if err == nil {
					_, err = live.Header()
				}
				s = live
			}
			if err != nil {
				fail("subscribe", "%v", err)
				return
			}
			streams = append(streams, s)
		}
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		how := r.Intn(2)
		if !within(t, name, "stopping the server", opLimit, func() {
			if how == 0 {
				_ = rs.Stop()
			} else {
				srv.Stop()
				_ = rs.Stop()
			}
		}) {
			return
		}
		for i, s := range streams {
			var end error
			if !within(t, name, "the end of a subscription after the server stopped", opLimit, func() {
				for end == nil {
					_, end = s.Recv()
				}
			}) {
				return
			}
			if end.Error() == "EOF" {
				fail("not-told", "after the server stopped, subscription %d ended without an error", i)
				return
			}
			t.Count("rpc_subscriptions_ended_by_stop", 1)
		}
		// the store goes on working
		if !within(t, name, "a save after the server stopped", opLimit, func() {
			if _, err := g.Store.Save(ctx, "a!1", simpleBatch(r, "a", "1", "z", 1)...); err != nil {
				fail("save", "%v", err)
			}
		}) {
			return
		}
		t.Eval()
		t.Distinct(fmt.Sprintf("rpcstop/%d/%d/%d", how, n, total))
	})
}
