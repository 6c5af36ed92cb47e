package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"

	"rangedbverif/core"
	"rangedbverif/env"
)

// seqCfg selects what a sequential model-based history contains.
type seqCfg struct {
	kinds   []string
	ops     int
	awkward bool
	rich    bool
	deletes bool
	failing bool // failing batches
	queries int  // random queries per verification
	every   int  // verify after so many operations
	reopen  bool

	failPct   int  // share of failing batches
	deletePct int  // share of extra deletes
	subscribe bool // watch with subscribers
}

type seqRun struct {
	t    *core.T
	name string
	r    *rand.Rand
	g    *env.Target
	m    *env.Model
	cfg  seqCfg
	ids  []streamID
	n    int
	log  []string
	sig  strings.Builder

	sub   *env.Recorder // all events
	tsub  *env.Recorder // one aggregate type
	ttype string
	stop  []func()
}

type streamID struct{ stream, ty, id string }

func (q *seqRun) fail(key, format string, args ...interface{}) {
	log := q.log
	if len(log) > 60 {
		log = log[len(log)-60:]
	}
	q.t.Fail(q.name, key, "[%s] %s\nhistory (last %d operations):\n  %s", q.g.Kind, fmt.Sprintf(format, args...), len(log), strings.Join(log, "\n  "))
}

func (q *seqRun) logf(format string, args ...interface{}) {
	q.log = append(q.log, fmt.Sprintf(format, args...))
}

func newSeq(t *core.T, name, kind string, cfg seqCfg) *seqRun {
	r := t.Rand(name)
	q := &seqRun{t: t, name: name, r: r, g: env.Open(kind), m: env.NewModel(), cfg: cfg}
	nt := 1 + r.Intn(4)
	randName := func() string { return env.RandName(r, cfg.awkward) }
	if cfg.awkward && r.Intn(3) == 0 {
		// names that all begin alike
		base := env.RandName(r, r.Intn(2) == 0)
		randName = func() string { return env.RelatedName(r, base) }
	}
	if strings.Contains(kind, "pg") {
		// text of PostgreSQL has no zero bytes
		f := randName
		randName = func() string { return strings.ReplaceAll(f(), "\x00", "0") }
	}
	var types []string
	for i := 0; i < nt; i++ {
		types = append(types, randName())
	}
	ns := 2 + r.Intn(6)
	used := map[string]bool{}
	for i := 0; i < ns; i++ {
		ty := types[r.Intn(nt)]
		id := fmt.Sprintf("id%d", i)
		st := rangedb.GetStream(ty, id)
		if r.Intn(2) == 0 {
			st = randName()
			if !cfg.awkward {
				st = fmt.Sprintf("custom-%d", i)
			}
		}
		if used[st] {
			continue
		}
		used[st] = true
		q.ids = append(q.ids, streamID{st, ty, id})
	}
	// A stream may also hold different aggregates over time: allow sharing a stream name.
	if r.Intn(3) == 0 {
		s := q.ids[r.Intn(len(q.ids))]
		q.ids = append(q.ids, streamID{s.stream, types[r.Intn(nt)], "other-" + s.id})
	}
	return q
}

func (q *seqRun) uid() string { q.n++; return fmt.Sprintf("u%d", q.n) }

func (q *seqRun) batch(s streamID, n int) []*rangedb.EventRecord {
	var out []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		out = append(out, &rangedb.EventRecord{Event: env.MakeEvent(q.r, s.ty, s.id, q.uid(), q.cfg.rich), Metadata: env.RandMeta(q.r)})
	}
	return out
}

func canceled() context.Context {
	ctx, c := context.WithCancel(context.Background())
	c()
	return ctx
}

// expired is a context whose deadline has passed.
func expired() context.Context {
	ctx, c := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	_ = c // released with the deadline
	return ctx
}

// timed is a context whose deadline passes at a moment of the caller's choice.
type timed struct {
	context.Context
	done chan struct{}
	over int32
}

func newTimed() *timed { return &timed{Context: context.Background(), done: make(chan struct{})} }

func (c *timed) Done() <-chan struct{} { return c.done }

func (c *timed) Err() error {
	if atomic.LoadInt32(&c.over) != 0 {
		return context.DeadlineExceeded
	}
	return nil
}

func (c *timed) expire() {
	if atomic.CompareAndSwapInt32(&c.over, 0, 1) {
		close(c.done)
	}
}

// isCancelled tells that an error reports the end of a context.
func isCancelled(err error, late bool) bool {
	if errors.Is(err, context.Canceled) {
		return true
	}
	return late && err != nil && (errors.Is(err, context.DeadlineExceeded) || status.Code(err) == codes.DeadlineExceeded || strings.Contains(err.Error(), "deadline exceeded"))
}

// isUnexpected extracts a conflict error.
func isUnexpected(err error) (*rangedberror.UnexpectedSequenceNumber, bool) {
	var u *rangedberror.UnexpectedSequenceNumber
	if errors.As(err, &u) {
		return u, true
	}
	return nil, false
}

// size is batchSize; a subscribed server has room for few records at a time (see serverRoom).
func (q *seqRun) size(small, rare int) int {
	n := batchSize(q.r, small, rare)
	if q.sub == nil || !strings.Contains(q.g.Kind, "remote") {
		return n
	}
	if n > serverRoom {
		n = serverRoom
	}
	q.sub.WaitLen(len(q.m.History)+n-serverRoom, 20*time.Second)
	return n
}

// step performs one random operation and checks its immediate result.
func (q *seqRun) step() bool {
	ctx := context.Background()
	s := q.ids[q.r.Intn(len(q.ids))]
	cur := q.m.Len[s.stream]
	k := q.r.Intn(100)
	if q.cfg.failPct > 0 && q.r.Intn(100) < q.cfg.failPct {
		return q.failingBatch(s)
	}
	if q.cfg.deletePct > 0 && q.r.Intn(100) < q.cfg.deletePct {
		k = 70 + q.r.Intn(16)
	}
	q.m.Lo, q.m.Hi = q.g.Clock.Last(), 0
	q.sig.WriteByte(byte('A' + k%16))
	switch {
	case k < 40:
		b := q.batch(s, q.size(4, 40))
		q.logf("Save(%q, %d events) len=%d", s.stream, len(b), cur)
		n, err := q.g.Store.Save(ctx, s.stream, b...)
		if err != nil || n != cur+uint64(len(b)) {
			q.fail("save-result", "Save to %q with %d events at length %d returned %d, %v", s.stream, len(b), cur, n, err)
			return false
		}
		q.appended(s.stream, b)
		q.t.Count("saves", 1)
	case k < 60:
		b := q.batch(s, q.size(3, 60))
		q.logf("OptimisticSave(%d, %q, %d events) len=%d", cur, s.stream, len(b), cur)
		n, err := q.g.Store.OptimisticSave(ctx, cur, s.stream, b...)
		if err != nil || n != cur+uint64(len(b)) {
			q.fail("optsave-result", "OptimisticSave(%d) to %q with %d events at length %d returned %d, %v", cur, s.stream, len(b), cur, n, err)
			return false
		}
		q.appended(s.stream, b)
		q.t.Count("optimistic_saves", 1)
	case k < 70:
		exp := wrongNumber(q.r, cur)
		b := q.batch(s, 1+q.r.Intn(3))
		q.logf("OptimisticSave(wrong %d, %q) len=%d", exp, s.stream, cur)
		n, err := q.g.Store.OptimisticSave(ctx, exp, s.stream, b...)
		u, ok := isUnexpected(err)
		if !ok || u.Expected != exp || u.ActualSequenceNumber != cur || n != 0 {
			q.fail("conflict-result", "OptimisticSave(%d) to %q at length %d returned %d, %v; want conflict expected=%d actual=%d", exp, s.stream, cur, n, err, exp, cur)
			return false
		}
		q.t.Count("conflicts", 1)
	case k < 80 && q.cfg.deletes:
		if cur == 0 {
			q.logf("Delete(0, %q) unknown", s.stream)
			err := q.g.Store.OptimisticDeleteStream(ctx, uint64(q.r.Intn(3)), s.stream)
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() {
				q.fail("delete-unknown", "deleting the non-existing stream %q returned %v", s.stream, err)
				return false
			}
			q.t.Count("deletes_not_found", 1)
			return true
		}
		q.logf("Delete(%d, %q)", cur, s.stream)
		if err := q.g.Store.OptimisticDeleteStream(ctx, cur, s.stream); err != nil {
			q.fail("delete-result", "deleting %q at its length %d returned %v", s.stream, cur, err)
			return false
		}
		q.m.Delete(s.stream)
		q.t.Count("deletes", 1)
	case k < 86 && q.cfg.deletes:
		if cur == 0 {
			return true
		}
		exp := wrongNumber(q.r, cur)
		q.logf("Delete(wrong %d, %q) len=%d", exp, s.stream, cur)
		err := q.g.Store.OptimisticDeleteStream(ctx, exp, s.stream)
		u, ok := isUnexpected(err)
		if !ok || u.Expected != exp || u.ActualSequenceNumber != cur {
			q.fail("delete-conflict", "deleting %q at length %d expecting %d returned %v", s.stream, cur, exp, err)
			return false
		}
		q.t.Count("deletes_refused", 1)
	case k < 90:
		q.logf("cancelled operations on %q", s.stream)
		cctx, late := canceled(), q.r.Intn(3) == 0
		if late {
			cctx = expired()
		}
		if n, err := q.g.Store.Save(cctx, s.stream, q.batch(s, 2)...); !isCancelled(err, late) || n != 0 {
			q.fail("cancelled-save", "Save with a cancelled context returned %d, %v", n, err)
			return false
		}
		if err := q.g.Store.OptimisticDeleteStream(cctx, cur, s.stream); !isCancelled(err, late) {
			q.fail("cancelled-delete", "delete with a cancelled context returned %v", err)
			return false
		}
		if n, err := q.g.Store.TotalEventsInStream(cctx, s.stream); !isCancelled(err, late) || n != 0 {
			q.fail("cancelled-total", "total with a cancelled context returned %d, %v", n, err)
			return false
		}
		q.t.Count("cancelled_ops", 3)
	case k < 94:
		if _, err := q.g.Store.Save(ctx, s.stream); err == nil {
			q.fail("empty-save", "Save without events succeeded")
			return false
		}
		q.logf("empty Save(%q)", s.stream)
		q.t.Count("empty_saves", 1)
	case k < 97 && q.cfg.reopen && q.g.CanReopen():
		q.logf("reopen")
		if err := q.g.Reopen(); err != nil {
			q.fail("reopen", "clean stop and reopen failed: %v", err)
			return false
		}
		q.t.Count("reopens", 1)
	default:
		n, err := q.g.Store.TotalEventsInStream(ctx, s.stream)
		if err != nil || n != cur {
			q.fail("total", "total of %q is %d (%v), expected %d", s.stream, n, err, cur)
			return false
		}
		q.t.Count("totals", 1)
	}
	return true
}

// appended tells the model about a successful save.
func (q *seqRun) appended(stream string, b []*rangedb.EventRecord) {
	q.m.Hi = q.g.Clock.Last()
	q.m.Append(stream, b...)
	q.m.Lo, q.m.Hi = 0, 0
}

// watch attaches subscribers to the fresh store.
func (q *seqRun) watch() {
	ctx, cancel := context.WithCancel(context.Background())
	q.stop = append(q.stop, cancel)
	q.sub, q.tsub = env.NewRecorder(), env.NewRecorder()
	q.ttype = q.ids[0].ty
	s1 := q.g.Store.AllEventsSubscription(ctx, 10000, q.sub)
	s2 := q.g.Store.AggregateTypesSubscription(ctx, 10000, q.tsub, q.ttype)
	if err := s1.Start(); err != nil {
		q.fail("subscribe", "Start: %v", err)
	}
	if err := s2.Start(); err != nil {
		q.fail("subscribe", "Start: %v", err)
	}
	q.stop = append(q.stop, s1.Stop, s2.Stop)
}

// settle waits until the subscribers received everything expected, then checks that they hold exactly that.
func (q *seqRun) settle() bool {
	if q.sub == nil {
		return true
	}
	var want, wantT []*env.MRec
	for _, x := range q.m.History {
		want = append(want, x)
		if x.T == q.ttype {
			wantT = append(wantT, x)
		}
	}
	ok := q.sub.WaitLen(len(want), 20*time.Second) && q.tsub.WaitLen(len(wantT), 20*time.Second)
	for i, p := range []struct {
		rec  *env.Recorder
		want []*env.MRec
	}{{q.sub, want}, {q.tsub, wantT}} {
		name := []string{"all events", fmt.Sprintf("aggregate type %q", q.ttype)}[i]
		got := p.rec.Records()
		strs := p.rec.Strings()
		for j := 0; j < len(got) || j < len(p.want); j++ {
			if j >= len(got) {
				q.fail("subscriber-missing", "the subscriber of %s received %d records, expected %d; first missing %s", name, len(got), len(p.want), p.want[j])
				return false
			}
			if j >= len(p.want) {
				q.fail("subscriber-extra", "the subscriber of %s received an event that no successful save stored: %s", name, strs[j])
				return false
			}
			w := *p.want[j]
			if w.G == 0 {
				w.G, w.EID, w.TS = got[j].GlobalSequenceNumber, got[j].EventID, got[j].InsertTimestamp
			}
			if strs[j] != w.String() {
				q.fail("subscriber-content", "the subscriber of %s received at index %d\n   got  %s\n   want %s", name, j, strs[j], w.String())
				return false
			}
		}
	}
	if !ok {
		q.fail("subscriber-missing", "subscribers did not receive everything")
		return false
	}
	q.t.Count("deliveries_compared", len(want)+len(wantT))
	return true
}

func wrongNumber(r *rand.Rand, cur uint64) uint64 {
	for {
		var x uint64
		switch r.Intn(5) {
		case 0:
			x = cur + 1
		case 1:
			x = cur - 1
		case 2:
			x = 0
		case 3:
			x = math.MaxUint64
		default:
			x = uint64(r.Intn(20))
		}
		if x != cur && !(cur == 0 && x > math.MaxInt64 && x != math.MaxUint64) {
			return x
		}
	}
}

func (q *seqRun) extraStreams() []string {
	out := []string{"never-existed", "never!existed"}
	for _, s := range q.ids {
		out = append(out, s.stream)
		// neighbours in key space
		out = append(out, s.stream+"$!", s.stream+"$", s.stream+"!", s.stream+"x")
		if len(s.stream) > 1 && !strings.ContainsAny(s.stream[len(s.stream)-1:], "\x80") && s.stream[len(s.stream)-1] < 0x80 {
			out = append(out, s.stream[:len(s.stream)-1])
		}
	}
	return out
}

// verify compares all views with the model.
func (q *seqRun) verify() bool {
	if e := q.m.Learn(q.g.Store); e != "" {
		q.fail("all-view", "%s", e)
		return false
	}
	if e := q.m.CheckViews(q.g.Store, q.extraStreams(), []string{"never", "thin", "thing!"}); e != "" {
		q.fail("views", "%s", e)
		return false
	}
	if !q.settle() {
		return false
	}
	q.t.Count("full_view_comparisons", 1)
	q.t.Count("records_compared", 3*len(q.m.Recs))
	for i := 0; i < q.cfg.queries; i++ {
		if !q.query() {
			return false
		}
	}
	return true
}

func (q *seqRun) start(max uint64) uint64 {
	switch q.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return max
	case 3:
		return max + 1
	case 4:
		return max + uint64(q.r.Intn(1000))
	case 5:
		return []uint64{math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint32, 255, 256, 257}[q.r.Intn(7)]
	}
	return uint64(q.r.Int63n(int64(max) + 2))
}

// query performs one random query with a start number and compares.
func (q *seqRun) query() bool {
	ctx := context.Background()
	switch q.r.Intn(3) {
	case 0:
		n := q.start(q.m.LastG)
		got, err := env.Collect(q.g.Store.Events(ctx, n))
		if err != nil {
			q.fail("query", "Events(%d): %v", n, err)
			return false
		}
		if d := env.Diff(env.Strings(got), q.m.All(n)); d != "" {
			q.fail("query", "Events(%d) differs %s", n, d)
			return false
		}
	case 1:
		s := q.ids[q.r.Intn(len(q.ids))].stream
		n := q.start(q.m.Len[s])
		got, err := env.Collect(q.g.Store.EventsByStream(ctx, n, s))
		if q.m.Len[s] == 0 {
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() {
				q.fail("query", "EventsByStream(%d, missing %q): %d events, error %v", n, s, len(got), err)
				return false
			}
		} else if err != nil {
			q.fail("query", "EventsByStream(%d, %q): %v", n, s, err)
			return false
		}
		if d := env.Diff(env.Strings(got), q.m.ByStream(s, n)); d != "" {
			q.fail("query", "EventsByStream(%d, %q) differs %s", n, s, d)
			return false
		}
	default:
		types := append([]string{}, q.m.Types()...)
		types = append(types, "never", "nix")
		q.r.Shuffle(len(types), func(i, j int) { types[i], types[j] = types[j], types[i] })
		types = types[:q.r.Intn(len(types)+1)]
		n := q.start(q.m.LastG)
		got, err := env.Collect(q.g.Store.EventsByAggregateTypes(ctx, n, types...))
		if err != nil {
			q.fail("query", "EventsByAggregateTypes(%d, %q): %v", n, types, err)
			return false
		}
		if d := env.Diff(env.Strings(got), q.m.ByTypes(n, types...)); d != "" {
			q.fail("query", "EventsByAggregateTypes(%d, %q) differs %s", n, types, d)
			return false
		}
		q.t.Count("multi_type_queries", 1)
	}
	q.t.Count("queries", 1)
	return true
}

// runSeq executes one history.
func runSeq(t *core.T, name, kind string, cfg seqCfg) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		q := newSeq(t, name, kind, cfg)
		defer q.g.Close()
		defer func() {
			for _, f := range q.stop {
				f()
			}
		}()
		ok := true
		if cfg.subscribe {
			q.watch()
		}
		for i := 0; i < cfg.ops && ok; i++ {
			ok = q.step()
			if ok && (i%cfg.every == cfg.every-1 || i == cfg.ops-1) {
				ok = q.verify()
			}
			t.Tick()
		}
		t.Eval()
		if len(q.m.Recs) > 1 || q.m.LastG > 1 {
			t.Distinct(kind + q.sig.String() + fmt.Sprint(q.m.LastG, len(q.m.Len)))
		}
		if len(q.log) > 3 {
			t.Sample(map[string]interface{}{"case": name, "kind": kind, "operations": q.log[:min(len(q.log), 12)]})
		}
	})
}
