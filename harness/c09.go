package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"
	"github.com/inklabs/rangedb/provider/remotestore"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"golang.org/x/net/html"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C09"] = c09 }

func c09(t *core.T) {
	t.SetRule("reads of every kind of store, merged iterators, catch-up subscriptions, record stream exports and imports, gRPC reads, HTTP exports and web interface pages with a fault at a random position (undecodable record, failing source, storage read error, context cancelled or expired before the read or after the k-th record with a fast or slow consumer, writer failing at byte n, input truncated at every byte, connection cut at byte n, server stopped, server answering with an error). Monitor: the consumer receives a prefix of the right records, an error, the same outcome on repeated use; complete results carry no error. Distinct by scenario, fault position and number of records delivered")
	var jobs []func()
	add := func(n int, label string, f func(*core.T, string, *rand.Rand)) {
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s-%d", label, i)
			jobs = append(jobs, func() {
				if t.Skip(name) {
					return
				}
				t.Guard(name, func() { f(t, name, t.Rand(name)) })
				t.Eval()
			})
		}
	}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "remote-mem-json", "remote-ldb-json", "pg", "enc-pg", "remote-pg"} {
		kind := k
		add(t.N(40, 1000), "poison/"+k, func(t *core.T, n string, r *rand.Rand) { c09Poison(t, n, kind, r) })
		add(t.N(60, 1500), "cancel/"+k, func(t *core.T, n string, r *rand.Rand) { c09Cancel(t, n, kind, r) })
	}
	add(t.N(400, 10000), "merge", c09Merge)
	add(t.N(300, 8000), "export", c09Export)
	add(t.N(300, 8000), "import", c09Import)
	add(t.N(60, 1500), "cutconn", c09CutConn)
	add(t.N(100, 2500), "fakeserver", c09FakeServer)
	add(t.N(80, 2000), "ldbread", c09LdbRead)
	add(t.N(80, 2000), "http", c09HTTP)
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "enc-mem-json", "remote-mem-json", "pg"} {
		kind := k
		add(t.N(24, 600), "pages/"+k, func(t *core.T, n string, r *rand.Rand) { c09Pages(t, n, kind, r) })
	}
	r := t.Rand("order")
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	t.Parallel(len(jobs), 24, func(i int) { jobs[i]() })
}

// again checks that an ended iterator keeps its outcome.
func again(it rangedb.RecordIterator, err error) string {
	for i := 0; i < 3; i++ {
		var more bool
		if i%2 == 0 {
			more = it.Next()
		} else {
			more = it.NextContext(context.Background())
		}
		if more {
			return fmt.Sprintf("the iterator ended with error %v, and then delivered another record %s", err, env.RecString(it.Record()))
		}
		if (it.Err() == nil) != (err == nil) || (err != nil && it.Err().Error() != err.Error()) {
			return fmt.Sprintf("the iterator ended with error %v, further use reports %v", err, it.Err())
		}
	}
	return ""
}

// c09Store fills a store with n events; the poison-th one cannot be decoded (-1: none).
func c09Fill(t *core.T, name string, st rangedb.Store, r *rand.Rand, n, poison int, types []string) bool {
	ctx := context.Background()
	for i := 0; i < n; i++ {
		ty := types[r.Intn(len(types))]
		id := fmt.Sprint(r.Intn(2))
		var ev rangedb.Event = env.MakeEvent(r, ty, id, fmt.Sprint(i), false)
		if i == poison {
			ev = &env.EvPoison{T: ty, ID: id, UID: fmt.Sprint(i)}
		}
		if _, err := st.Save(ctx, rangedb.GetStream(ty, id), &rangedb.EventRecord{Event: ev}); err != nil {
			t.Fail(name, "save", "save: %v", err)
			return false
		}
	}
	return true
}

type readPlan struct {
	what string
	open func(ctx context.Context) rangedb.RecordIterator
	in   func(i int, stream, ty string, s uint64) bool

	merged bool
}

func randomRead(r *rand.Rand, st rangedb.Store, types []string, max int) readPlan {
	switch r.Intn(4) {
	case 0:
		n := uint64(r.Intn(max + 1))
		return readPlan{what: fmt.Sprintf("Events(%d)", n), open: func(ctx context.Context) rangedb.RecordIterator { return st.Events(ctx, n) },
			in: func(i int, _, _ string, _ uint64) bool { return uint64(i+1) >= n }}
	case 1:
		ty := types[r.Intn(len(types))]
		n := uint64(r.Intn(max + 1))
		return readPlan{what: fmt.Sprintf("EventsByAggregateTypes(%d, %q)", n, ty), open: func(ctx context.Context) rangedb.RecordIterator { return st.EventsByAggregateTypes(ctx, n, ty) },
			in: func(i int, _, x string, _ uint64) bool { return x == ty && uint64(i+1) >= n }}
	case 2:
		tys := append([]string{}, types...)
		r.Shuffle(len(tys), func(i, j int) { tys[i], tys[j] = tys[j], tys[i] })
		tys = tys[:1+r.Intn(len(tys))]
		if r.Intn(3) == 0 {
			tys = append(tys, "unused")
		}
		n := uint64(r.Intn(max + 1))
		return readPlan{merged: true, what: fmt.Sprintf("EventsByAggregateTypes(%d, %q)", n, tys), open: func(ctx context.Context) rangedb.RecordIterator {
			return st.EventsByAggregateTypes(ctx, n, tys...)
		}, in: func(i int, _, x string, _ uint64) bool {
			for _, y := range tys {
				if x == y {
					return uint64(i+1) >= n
				}
			}
			return false
		}}
	}
	stream := rangedb.GetStream(types[r.Intn(len(types))], fmt.Sprint(r.Intn(2)))
	n := uint64(r.Intn(4))
	return readPlan{what: fmt.Sprintf("EventsByStream(%d, %q)", n, stream), open: func(ctx context.Context) rangedb.RecordIterator { return st.EventsByStream(ctx, n, stream) },
		in: func(_ int, x, _ string, s uint64) bool { return x == stream && s >= n }}
}

// c09Poison: a record that cannot be decoded.
func c09Poison(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	defer g.Close()
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	types := []string{"a", "b", "c"}
	n := 1 + r.Intn(25)
	poison := r.Intn(n)
	st := g.Store
	if strings.HasPrefix(kind, "remote") && r.Intn(2) == 0 && g.Pg == nil {
		// a server that does not know the event types: the client is the one who cannot decode
		g3, err := env.ServeUnbound(strings.TrimPrefix(kind, "remote-"))
		if err != nil {
			fail("open", "%v", err)
			return
		}
		defer g3.Close()
		st = g3.Store
	}
	log := []struct {
		stream, ty string
		s          uint64
	}{}
	count := map[string]uint64{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// live subscribers must not be disturbed beyond that record; catch-up must report it
	for i := 0; i < n; i++ {
		ty := types[r.Intn(len(types))]
		id := fmt.Sprint(r.Intn(2))
		var ev rangedb.Event = env.MakeEvent(r, ty, id, fmt.Sprint(i), false)
		if i == poison {
			ev = &env.EvPoison{T: ty, ID: id, UID: fmt.Sprint(i)}
		}
		stream := rangedb.GetStream(ty, id)
		if _, err := st.Save(ctx, stream, &rangedb.EventRecord{Event: ev}); err != nil {
			fail("save", "save: %v", err)
			return
		}
		count[stream]++
		log = append(log, struct {
			stream, ty string
			s          uint64
		}{stream, ty, count[stream]})
	}
	for q := 0; q < 6; q++ {
		p := randomRead(r, st, types, n)
		var want []string
		hit, total := false, 0
		for i, x := range log {
			if x.ty == "" || !p.in(i, x.stream, x.ty, x.s) {
				continue
			}
			total++
			if i == poison {
				hit = true
			}
			if !hit {
				want = append(want, fmt.Sprint(i))
			}
		}
		it := p.open(ctx)
		var got []string
		for {
			more := false
			if r.Intn(2) == 0 {
				more = it.Next()
			} else {
				more = it.NextContext(ctx)
			}
			if !more {
				break
			}
			if it.Err() != nil {
				fail("record-with-error", "%s: Next returned true with error %v", p.what, it.Err())
				return
			}
			got = append(got, env.UID(it.Record().Data))
		}
		err := it.Err()
		if hit && err == nil {
			fail("poison-clean-end", "%s: event %d cannot be decoded; the read delivered %v and ended without an error (wanted %v, then an error)", p.what, poison, got, want)
			return
		}
		if !hit && err != nil && total > 0 && !strings.Contains(err.Error(), "deserialize") {
			fail("complete-with-error", "%s: no undecodable record in its scope, delivered %d of %d, error %v", p.what, len(got), total, err)
			return
		}
		if hit && p.merged && strings.Contains(kind, "ldb") && isPrefixOf(got, want) {
			// a merge reports the failure once it delivered what the failed source holds before it
			last := -1
			for i, x := range log[:poison] {
				if p.in(i, x.stream, x.ty, x.s) && x.ty == log[poison].ty {
					last = i
				}
			}
			if last < 0 || (len(got) > 0 && atoi(got[len(got)-1]) >= last) {
				want = got
			}
		}
		if hit && !equalStrings(got, want) {
			fail("poison-prefix", "%s: event %d cannot be decoded; delivered %v, error %v; want %v before the error", p.what, poison, got, err, want)
			return
		}
		if e := again(it, err); e != "" {
			fail("outcome-changes", "%s: %s", p.what, e)
			return
		}
		t.Count("poison_reads", 1)
		if hit {
			t.Distinct(fmt.Sprintf("poison/%s/%s/%d/%d", kind, p.what, poison, len(got)))
		}
	}
	// catch-up
	rec := env.NewRecorder()
	sub := st.AllEventsSubscription(ctx, 100, rec)
	var serr error
	if !within(t, name, "StartFrom over an undecodable record", opLimit, func() { serr = sub.StartFrom(0) }) {
		return
	}
	if serr == nil {
		fail("catchup-clean", "StartFrom(0) over %d events, of which event %d cannot be decoded, returned nil after delivering %v", n, poison, rec.UIDs())
		return
	}
	if len(rec.UIDs()) != poison {
		fail("catchup-prefix", "StartFrom(0): event %d cannot be decoded, delivered %v before the error %v", poison, rec.UIDs(), serr)
		return
	}
	// writers go on
	if !within(t, name, "a save after failed reads", opLimit, func() {
		if _, err := st.Save(ctx, "z!1", simpleBatch(r, "z", "1", "z", 1)...); err != nil {
			fail("save", "save: %v", err)
		}
	}) {
		return
	}
	t.Sample(map[string]interface{}{"case": name, "events": n, "undecodable": poison})
}

func equalStrings(a, b []string) bool {
	return len(a) == len(b) && isPrefixOf(a, b)
}

func isPrefixOf(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c09Cancel: cancelling a read.
func c09Cancel(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	defer g.Close()
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	types := []string{"a", "b", "c"}
	n := r.Intn(30)
	if !c09Fill(t, name, g.Store, r, n, -1, types) {
		return
	}
	bg := context.Background()
	for q := 0; q < 3; q++ {
		p := randomRead(r, g.Store, types, n)
		full, ferr := env.Collect(p.open(bg))
		if ferr != nil && !(len(full) == 0 && strings.Contains(ferr.Error(), rangedb.ErrStreamNotFound.Error())) {
			fail("complete-with-error", "%s: %v", p.what, ferr)
			return
		}
		want := env.Strings(full)
		k := r.Intn(len(want) + 2)
		mode := r.Intn(4) // 0 cancel then read on, 1 cancel and pause, 2 NextContext with its own context, 3 a deadline passes
		var ctx context.Context
		var cancel func()
		if mode == 3 {
			d := newTimed()
			ctx, cancel = d, d.expire
		} else {
			ctx, cancel = context.WithCancel(bg)
		}
		slow := r.Intn(3) == 0
		it := p.open(ctx)
		var got []string
		nctx, ncancel := context.WithCancel(bg)
		cancelled := false
		do := func() {
			if cancelled {
				return
			}
			cancelled = true
			if mode == 2 {
				ncancel()
			} else {
				cancel()
			}
			if mode == 1 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				if slow && q == 0 {
					time.Sleep(1100 * time.Millisecond)
				}
			}
		}
		after := 0
		ended := false
		for i := 0; ; i++ {
			if i == k {
				do()
			}
			var more bool
			if mode == 2 || r.Intn(4) == 0 {
				more = it.NextContext(nctx)
			} else {
				more = it.Next()
			}
			if !more {
				ended = true
				break
			}
			if cancelled {
				after++
			}
			got = append(got, env.RecString(it.Record()))
		}
		_ = ended
		err := it.Err()
		wasCancelled := cancelled
		if d := isPrefix(got, want); d != "" {
			fail("cancel-not-prefix", "%s cancelled after %d of %d records (mode %d): %s", p.what, k, len(want), mode, d)
			return
		}
		if len(got) < len(want) && err == nil {
			fail("cancel-clean-end", "%s cancelled after %d of %d records (mode %d, slow %v): delivered %d records and ended without an error", p.what, k, len(want), mode, slow, len(got))
			return
		}
		if !wasCancelled && err != nil && ferr == nil {
			fail("complete-with-error", "%s was not cancelled, delivered %d of %d, error %v", p.what, len(got), len(want), err)
			return
		}
		if !wasCancelled && ferr != nil && (err == nil || err.Error() != ferr.Error()) {
			fail("missing-stream", "%s: error %v then %v", p.what, ferr, err)
			return
		}
		if err != nil && wasCancelled && ferr == nil && !isCancelled(err, mode == 3) {
			fail("cancel-error", "%s cancelled: error is %v, not a cancellation", p.what, err)
			return
		}
		if e := again(it, err); e != "" {
			fail("outcome-changes", "%s cancelled after %d (mode %d): %s", p.what, k, mode, e)
			return
		}
		// cancelling afterwards changes nothing
		cancel()
		ncancel()
		if e := again(it, err); e != "" {
			fail("outcome-changes", "%s, cancelled after it ended: %s", p.what, e)
			return
		}
		for it.Next() {
		}
		t.Count("cancelled_reads", 1)
		t.Distinct(fmt.Sprintf("cancel/%s/%s/%d/%d/%d", kind, p.what, mode, k, len(got)))
	}
	// already cancelled
	ctx := canceled()
	if r.Intn(3) == 0 {
		ctx = expired()
	}
	for _, it := range []rangedb.RecordIterator{g.Store.Events(ctx, 0), g.Store.EventsByAggregateTypes(ctx, 0, types...), g.Store.EventsByAggregateTypes(ctx, 0, "a")} {
		got, err := env.Collect(it)
		if n > 5 && err == nil && len(got) < n/20 {
			fail("cancel-clean-end", "a read with a cancelled context delivered %d records and no error", len(got))
			return
		}
	}
	if n > 0 {
		it := g.Store.Events(ctx, 0)
		got, err := env.Collect(it)
		if err == nil && len(got) < n {
			fail("cancel-clean-end", "a read with a cancelled context delivered %d of %d records and no error", len(got), n)
			return
		}
	}
}

// fakeIter is a record source that fails after its records.
func fakeIter(recs []*rangedb.Record, err error, buffered bool, r *rand.Rand) rangedb.RecordIterator {
	c := 0
	if buffered {
		c = 1 + r.Intn(3)
	}
	ch := make(chan rangedb.ResultRecord, c)
	go func() {
		defer close(ch)
		for _, x := range recs {
			ch <- rangedb.ResultRecord{Record: x}
		}
		if err != nil {
			ch <- rangedb.ResultRecord{Err: err}
		}
	}()
	return rangedb.NewRecordIterator(ch)
}

// c09Merge: merging sources of which some fail.
func c09Merge(t *core.T, name string, r *rand.Rand) {
	k := 1 + r.Intn(5)
	total := r.Intn(25)
	src := make([][]*rangedb.Record, k)
	errs := make([]error, k)
	var all []uint64
	g := uint64(0)
	for i := 0; i < total; i++ {
		g += uint64(1 + r.Intn(3)*r.Intn(2))
		s := r.Intn(k)
		src[s] = append(src[s], &rangedb.Record{GlobalSequenceNumber: g})
	}
	failing := 0
	limit := ^uint64(0)
	for i := range errs {
		if r.Intn(3) == 0 {
			errs[i] = fmt.Errorf("verif: source %d failed", i)
			cut := r.Intn(len(src[i]) + 1)
			next := ^uint64(0)
			if cut < len(src[i]) {
				next = src[i][cut].GlobalSequenceNumber
			}
			src[i] = src[i][:cut]
			if next < limit {
				limit = next
			}
			failing++
		}
	}
	var its []rangedb.RecordIterator
	for i := range src {
		its = append(its, fakeIter(src[i], errs[i], r.Intn(2) == 0, r))
	}
	pos := make([]int, k)
	for {
		best := -1
		for i := range src {
			if pos[i] < len(src[i]) && (best < 0 || src[i][pos[i]].GlobalSequenceNumber < src[best][pos[best]].GlobalSequenceNumber) {
				best = i
			}
		}
		if best < 0 {
			break
		}
		all = append(all, src[best][pos[best]].GlobalSequenceNumber)
		pos[best]++
	}
	var it rangedb.RecordIterator
	var got []uint64
	if !within(t, name, "merging", opLimit, func() {
		it = rangedb.MergeRecordIteratorsInOrder(its)
		for it.Next() {
			got = append(got, it.Record().GlobalSequenceNumber)
		}
	}) {
		return
	}
	err := it.Err()
	desc := func() string {
		var sb strings.Builder
		for i := range src {
			fmt.Fprintf(&sb, "source %d: %v then %v; ", i, env.GSNs(src[i]), errs[i])
		}
		return sb.String()
	}
	if failing == 0 {
		if err != nil || fmt.Sprint(got) != fmt.Sprint(all) {
			t.Fail(name, "merge", "merging %s gave %v, %v; want %v", desc(), got, err, all)
		}
	} else {
		if err == nil {
			t.Fail(name, "merge-clean-end", "merging %s gave %v and no error", desc(), got)
			return
		}
		if len(got) > len(all) || fmt.Sprint(got) != fmt.Sprint(all[:len(got)]) {
			t.Fail(name, "merge-order", "merging %s gave %v", desc(), got)
			return
		}
		known := false
		for i, e := range errs {
			if e != nil && err.Error() == e.Error() {
				known = true
				// everything the failed source delivered comes out
				if n := len(src[i]); n > 0 && (len(got) == 0 || got[len(got)-1] < src[i][n-1].GlobalSequenceNumber) {
					t.Fail(name, "merge-lost", "merging %s gave only %v before the error %v", desc(), got, err)
				}
			}
		}
		if !known {
			t.Fail(name, "merge-error", "merging %s ended with the unrelated error %v", desc(), err)
		}
		t.Distinct(fmt.Sprintf("merge/%s/%d", desc(), len(got)))
	}
	if e := again(it, err); e != "" {
		t.Fail(name, "outcome-changes", "merging %s: %s", desc(), e)
	}
	t.Count("merges", 1)
}

func ioStream(format string) rangedb.RecordIoStream {
	var s rangedb.RecordIoStream
	switch format {
	case "json":
		s = jsonrecordiostream.New()
	case "ndjson":
		s = ndjsonrecordiostream.New()
	default:
		s = msgpackrecordiostream.New()
	}
	s.Bind(&env.EvA{}, &env.EvB{})
	return s
}

var formats = []string{"json", "ndjson", "msgpack"}

func makeRecords(r *rand.Rand, n int, rich bool) []*rangedb.Record {
	var out []*rangedb.Record
	for i := 0; i < n; i++ {
		ev := env.MakeEvent(r, env.RandName(r, rich), fmt.Sprint(r.Intn(3)), fmt.Sprintf("u%d", i), rich)
		var data interface{} = ev
		switch e := ev.(type) {
		case env.EvA:
			data = &e
		case *env.EvU:
			data = map[string]interface{}{"t": e.T, "id": e.ID, "uid": e.UID, "payload": e.Payload}
		}
		out = append(out, &rangedb.Record{
			StreamName: rangedb.GetEventStream(ev), AggregateType: ev.AggregateType(), AggregateID: ev.AggregateID(),
			GlobalSequenceNumber: uint64(i + 1), StreamSequenceNumber: uint64(r.Intn(100)), InsertTimestamp: uint64(r.Int63()),
			EventID: fmt.Sprintf("e%d", i), EventType: ev.EventType(), Data: data, Metadata: env.RandMeta(r),
		})
	}
	return out
}

// limitWriter fails once n bytes were written.
type limitWriter struct {
	bytes.Buffer
	left  int
	short bool
}

var errWriter = errors.New("verif: writer failed")

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		if w.short {
			n, _ := w.Buffer.Write(p[:w.left])
			w.left = 0
			return n, errWriter
		}
		return 0, errWriter
	}
	w.left -= len(p)
	return w.Buffer.Write(p)
}

// drainErrors reads every error of a Write.
func drainErrors(ch <-chan error) []error {
	var out []error
	for e := range ch {
		if e != nil {
			out = append(out, e)
		}
	}
	return out
}

// c09Export: exports whose source or writer fails.
func c09Export(t *core.T, name string, r *rand.Rand) {
	format := formats[r.Intn(3)]
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", format, fmt.Sprintf(f, a...)) }
	recs := makeRecords(r, r.Intn(8), false)
	s := ioStream(format)
	write := func(w io.Writer, it rangedb.RecordIterator) (errs []error, ok bool) {
		ok = within(t, name, format+" Write", opLimit, func() { errs = drainErrors(s.Write(w, it)) })
		return
	}
	var whole bytes.Buffer
	errs, ok := write(&whole, fakeIter(recs, nil, true, r))
	if !ok {
		return
	}
	if len(errs) > 0 {
		fail("complete-with-error", "a complete export of %d records reported %v", len(recs), errs)
		return
	}
	switch r.Intn(3) {
	case 0: // failing source
		k := r.Intn(len(recs) + 1)
		boom := errors.New("verif: source failed")
		var out bytes.Buffer
		errs, ok := write(&out, fakeIter(recs[:k], boom, r.Intn(2) == 0, r))
		if !ok {
			return
		}
		if len(errs) == 0 || !strings.Contains(errs[0].Error(), boom.Error()) {
			fail("export-source-error-lost", "the source failed after %d records, Write reported %v and wrote %d bytes", k, errs, out.Len())
			return
		}
		if format == "json" && json.Valid(out.Bytes()) {
			fail("export-looks-complete", "the source failed after %d records, but the output is a complete document: %s", k, out.String())
			return
		}
		got, _ := env.Collect(ioStream(format).Read(bytes.NewReader(out.Bytes())))
		if d := env.Diff(env.Strings(got), env.Strings(recs[:k])); d != "" {
			fail("export-prefix", "the source failed after %d records; the output holds %s", k, d)
			return
		}
		t.Distinct(fmt.Sprintf("export/source/%s/%d/%d", format, k, len(recs)))
	case 1: // failing writer
		if whole.Len() == 0 {
			return
		}
		w := &limitWriter{left: r.Intn(whole.Len()), short: r.Intn(2) == 0}
		n := w.left
		errs, ok := write(w, fakeIter(recs, nil, true, r))
		if !ok {
			return
		}
		if len(errs) == 0 {
			fail("export-writer-error-lost", "the writer failed after %d of %d bytes, Write reported no error", n, whole.Len())
			return
		}
		t.Distinct(fmt.Sprintf("export/writer/%s/%d/%d", format, n, len(recs)))
	case 2: // a record that cannot be written
		bad := append([]*rangedb.Record{}, recs...)
		k := r.Intn(len(recs) + 1)
		bad = append(bad[:k:k], append([]*rangedb.Record{{EventType: "VerifFail", Data: &env.EvFail{}}}, bad[k:]...)...)
		var out bytes.Buffer
		errs, ok := write(&out, fakeIter(bad, nil, false, r))
		if !ok {
			return
		}
		if len(errs) == 0 {
			fail("export-record-error-lost", "record %d cannot be written, Write reported no error", k)
			return
		}
		if format == "json" && json.Valid(out.Bytes()) {
			fail("export-looks-complete", "record %d cannot be written, but the output is a complete document", k)
			return
		}
		t.Distinct(fmt.Sprintf("export/record/%s/%d/%d", format, k, len(recs)))
	}
	t.Count("exports", 1)
}

// faultyReader delivers in chunks and fails at byte n.
type faultyReader struct {
	data []byte
	pos  int
	fail int // -1: never
	err  error
	r    *rand.Rand
}

func (f *faultyReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(f.data)
	if f.fail >= 0 && f.fail < end {
		end = f.fail
	}
	if f.pos >= end {
		if f.fail >= 0 {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := 1 + f.r.Intn(64)
	if f.r.Intn(3) == 0 {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > end-f.pos {
		n = end - f.pos
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == end && f.fail < 0 && f.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// c09Import: imports of truncated input, corrupt input or from a failing reader.
func c09Import(t *core.T, name string, r *rand.Rand) {
	format := formats[r.Intn(3)]
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", format, fmt.Sprintf(f, a...)) }
	recs := makeRecords(r, 1+r.Intn(4), r.Intn(2) == 0)
	var buf bytes.Buffer
	var ends []int // byte positions where a record ends
	s := ioStream(format)
	for i := range recs {
		var b bytes.Buffer
		if e := drainErrors(s.Write(&b, fakeIter(recs[:i+1], nil, true, r))); len(e) > 0 {
			fail("complete-with-error", "%v", e)
			return
		}
		n := b.Len()
		if format == "json" {
			n--
		}
		ends = append(ends, n)
		buf = b
	}
	data := buf.Bytes()
	want := env.Strings(recs)
	read := func(rd io.Reader) (got []string, err error, ok bool) {
		ok = within(t, name, format+" Read", opLimit, func() {
			it := ioStream(format).Read(rd)
			var recs []*rangedb.Record
			recs, err = env.Collect(it)
			got = env.Strings(recs)
			if e := again(it, err); e != "" {
				fail("outcome-changes", "%s", e)
			}
		})
		return
	}
	got, err, ok := read(&faultyReader{data: data, fail: -1, r: r})
	if !ok {
		return
	}
	if err != nil || env.Diff(got, want) != "" {
		fail("complete-with-error", "reading back %d records: %v %s\ninput %q", len(recs), err, env.Diff(got, want), data)
		return
	}
	complete := func(n int) int { // number of records if the first n bytes are a complete document, else -1
		switch format {
		case "json":
			if n == len(data) {
				return len(recs)
			}
			if n == 0 {
				return 0
			}
			return -1
		case "ndjson":
			if n == 0 {
				return 0
			}
			for i, e := range ends {
				if n == e || n == e+1 {
					return i + 1
				}
			}
			return -1
		}
		if n == 0 {
			return 0
		}
		for i, e := range ends {
			if n == e {
				return i + 1
			}
		}
		return -1
	}
	whole := func(n int) int { // records that end within the first n bytes
		k := 0
		for _, e := range ends {
			if e <= n {
				k++
			}
		}
		return k
	}
	cuts := []int{0, 1, len(data) - 1, len(data)}
	for i := 0; i < 12; i++ {
		cuts = append(cuts, r.Intn(len(data)+1))
	}
	for _, e := range ends {
		cuts = append(cuts, e, e-1)
		if e+1 <= len(data) {
			cuts = append(cuts, e+1)
		}
	}
	for _, n := range cuts {
		got, err, ok := read(&faultyReader{data: data[:n], fail: -1, r: r})
		if !ok {
			return
		}
		k := complete(n)
		if k < 0 && err == nil {
			fail("truncated-clean-end", "input cut after %d of %d bytes (records end at %v): %d records and no error\ninput %q", n, len(data), ends, len(got), data[:n])
			return
		}
		if k >= 0 && err != nil {
			fail("complete-with-error", "input of %d bytes holding %d complete records gave error %v", n, k, err)
			return
		}
		if d := env.Diff(got, want[:whole(n)]); d != "" {
			fail("truncated-prefix", "input cut after %d of %d bytes (records end at %v): error %v, records %s", n, len(data), ends, err, d)
			return
		}
		t.Distinct(fmt.Sprintf("import/cut/%s/%d/%d", format, len(recs), n))
		// a reader that fails there
		boom := errors.New("verif: reader failed")
		got, err, ok = read(&faultyReader{data: data, fail: n, err: boom, r: r})
		if !ok {
			return
		}
		if err == nil && !(format == "json" && n == len(data)) {
			fail("reader-error-lost", "the reader failed after %d of %d bytes: %d records and no error", n, len(data), len(got))
			return
		}
		if !isPrefixOf(got, want) {
			fail("truncated-prefix", "the reader failed after %d bytes: records %s", n, env.Diff(got, want))
			return
		}
		t.Count("truncated_imports", 2)
	}
}

// c09CutConn: the network connection of a remote read breaks.
func c09CutConn(t *core.T, name string, r *rand.Rand) {
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[remote] %s", fmt.Sprintf(f, a...)) }
	kind := []string{"mem-json", "ldb-json"}[r.Intn(2)]
	g := env.Open(kind)
	defer g.Close()
	n := 30 + r.Intn(200)
	types := []string{"a", "b"}
	if !c09Fill(t, name, g.Store, r, n, -1, types) {
		return
	}
	rs, err := rangedbserver.New(rangedbserver.WithStore(g.Store))
	if err != nil {
		fail("new", "%v", err)
		return
	}
	var cutAfter int64 = -1
	srv, dial, shut := serveGRPC(func(s *grpc.Server) { rangedbpb.RegisterRangeDBServer(s, rs) })
	defer shut()
	defer func() { _ = rs.Stop() }()
	conn, err := dial(func(c net.Conn) net.Conn { return &cutConn{c, &cutAfter} })
	if err != nil {
		fail("dial", "%v", err)
		return
	}
	defer conn.Close()
	st, err := remotestore.New(conn)
	if err != nil {
		fail("new", "%v", err)
		return
	}
	env.BindAll(st)
	p := randomRead(r, st, types, 3)
	full, err := env.Collect(p.open(context.Background()))
	if err != nil {
		if !strings.Contains(err.Error(), "not found") {
			fail("complete-with-error", "%s: %v", p.what, err)
		}
		return
	}
	want := env.Strings(full)
	mode := r.Intn(3)
	k := r.Intn(len(want) + 1)
	switch mode {
	case 0:
		atomic.StoreInt64(&cutAfter, int64(r.Intn(len(want)*120+200)))
	}
	it := p.open(context.Background())
	var got []string
	if !within(t, name, "a remote read over a broken connection", opLimit, func() {
		for i := 0; ; i++ {
			if i == k && mode == 1 {
				srv.Stop()
			}
			if i == k && mode == 2 {
				_ = conn.Close()
			}
			if !it.Next() {
				break
			}
			got = append(got, env.RecString(it.Record()))
		}
	}) {
		return
	}
	if d := isPrefix(got, want); d != "" {
		fail("cut-not-prefix", "%s, connection broken (mode %d): %s", p.what, mode, d)
		return
	}
	if len(got) < len(want) && it.Err() == nil {
		fail("cut-clean-end", "%s, connection broken (mode %d): %d of %d records and no error", p.what, mode, len(got), len(want))
		return
	}
	if e := again(it, it.Err()); e != "" {
		fail("outcome-changes", "%s: %s", p.what, e)
	}
	if mode != 0 {
		// everything reports errors now
		if !within(t, name, "operations over a closed connection", opLimit, func() {
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
			defer cancel()
			if recs, err := env.Collect(st.Events(ctx, 0)); err == nil {
				fail("cut-clean-end", "a read over a closed connection gave %d records and no error", len(recs))
			}
			if _, err := st.Save(ctx, "x!1", simpleBatch(r, "x", "1", "x", 1)...); err == nil {
				fail("cut-save", "a save over a closed connection succeeded")
			}
			if _, err := st.OptimisticSave(ctx, 0, "x!1", simpleBatch(r, "x", "1", "x", 1)...); err == nil {
				fail("cut-save", "an optimistic save over a closed connection succeeded")
			}
			if err := st.OptimisticDeleteStream(ctx, 1, "a!1"); err == nil {
				fail("cut-delete", "a delete over a closed connection succeeded")
			}
			if n, err := st.TotalEventsInStream(ctx, "a!1"); err == nil {
				fail("cut-total", "a total over a closed connection gave %d", n)
			}
			if err := st.AllEventsSubscription(ctx, 10, env.NewRecorder()).StartFrom(0); err == nil {
				fail("cut-subscribe", "catching up over a closed connection succeeded")
			}
		}) {
			return
		}
	}
	t.Count("cut_reads", 1)
	if len(got) < len(want) {
		t.Count("cut_reads_incomplete", 1)
	}
	t.Distinct(fmt.Sprintf("cut/%s/%d/%d/%d", p.what, mode, len(got), len(want)))
}

type cutConn struct {
	net.Conn
	left *int64
}

func (c *cutConn) Read(p []byte) (int, error) {
	l := atomic.LoadInt64(c.left)
	if l == 0 {
		_ = c.Conn.Close()
		return 0, io.ErrUnexpectedEOF
	}
	if l > 0 && int64(len(p)) > l {
		p = p[:l]
	}
	n, err := c.Conn.Read(p)
	if l > 0 {
		atomic.AddInt64(c.left, int64(-n))
	}
	return n, err
}

// fakeServer answers reads with k records, then an error, or with undecodable records.
type fakeServer struct {
	rangedbpb.UnimplementedRangeDBServer
	recs []*rangedbpb.Record
	err  error
}

func (f *fakeServer) send(send func(*rangedbpb.Record) error) error {
	for _, x := range f.recs {
		if err := send(x); err != nil {
			return err
		}
	}
	return f.err
}
func (f *fakeServer) Events(_ *rangedbpb.EventsRequest, s rangedbpb.RangeDB_EventsServer) error {
	return f.send(s.Send)
}
func (f *fakeServer) EventsByAggregateType(_ *rangedbpb.EventsByAggregateTypeRequest, s rangedbpb.RangeDB_EventsByAggregateTypeServer) error {
	return f.send(s.Send)
}
func (f *fakeServer) EventsByStream(_ *rangedbpb.EventsByStreamRequest, s rangedbpb.RangeDB_EventsByStreamServer) error {
	return f.send(s.Send)
}
func (f *fakeServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEventsRequest, s rangedbpb.RangeDB_SubscribeToLiveEventsServer) error {
	_ = s.SendHeader(nil)
	<-s.Context().Done()
	return nil
}
func (f *fakeServer) Save(context.Context, *rangedbpb.SaveRequest) (*rangedbpb.SaveResponse, error) {
	return nil, f.err
}
func (f *fakeServer) OptimisticSave(context.Context, *rangedbpb.OptimisticSaveRequest) (*rangedbpb.SaveResponse, error) {
	return nil, f.err
}
func (f *fakeServer) OptimisticDeleteStream(context.Context, *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
	return nil, f.err
}
func (f *fakeServer) TotalEventsInStream(context.Context, *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
	return nil, f.err
}

// c09FakeServer: the client against a server that misbehaves.
func c09FakeServer(t *core.T, name string, r *rand.Rand) {
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[client] %s", fmt.Sprintf(f, a...)) }
	recs := makeRecords(r, r.Intn(10), false)
	f := &fakeServer{}
	for _, x := range recs {
		pb, err := rangedbpb.ToPbRecord(x)
		if err != nil {
			fail("translate", "%v", err)
			return
		}
		f.recs = append(f.recs, pb)
	}
	want := env.Strings(recs)
	mode := r.Intn(3)
	bad := -1
	switch mode {
	case 0:
		f.err = []error{status.Error(codes.Unavailable, "verif"), status.Error(codes.Internal, "verif"), status.Error(codes.Unknown, "verif: EOF"), status.Error(codes.DeadlineExceeded, "verif"), status.Error(codes.DataLoss, "EOF"), status.Error(codes.Aborted, "verif"), status.Error(codes.Canceled, "context canceled"), errors.New("stream not found")}[r.Intn(8)]
	case 1:
		if len(f.recs) > 0 {
			bad = r.Intn(len(f.recs))
			switch r.Intn(4) {
			case 0:
				f.recs[bad].Data = "{"
			case 1:
				f.recs[bad].Data = ""
			case 2:
				f.recs[bad].Metadata = "nope"
			case 3:
				f.recs[bad].EventType, f.recs[bad].Data = "VerifPoison", "{}"
			}
			want = want[:bad]
		}
	}
	_, dial, shut := serveGRPC(func(s *grpc.Server) { rangedbpb.RegisterRangeDBServer(s, f) })
	defer shut()
	conn, err := dial()
	if err != nil {
		fail("dial", "%v", err)
		return
	}
	defer conn.Close()
	st, err := remotestore.New(conn)
	if err != nil {
		fail("new", "%v", err)
		return
	}
	env.BindAll(st)
	p := randomRead(r, st, []string{"a", "b"}, 3)
	it := p.open(context.Background())
	var got []string
	if !within(t, name, "a read from a failing server", opLimit, func() {
		for it.Next() {
			got = append(got, env.RecString(it.Record()))
		}
	}) {
		return
	}
	wantErr := f.err != nil || bad >= 0
	if (it.Err() != nil) != wantErr {
		fail("server-error", "%s: server sends %d records, bad record %d, then %v: client got %d records, error %v", p.what, len(recs), bad, f.err, len(got), it.Err())
		return
	}
	if d := env.Diff(got, want); d != "" {
		fail("server-prefix", "%s: bad record %d, server error %v: %s", p.what, bad, f.err, d)
		return
	}
	if e := again(it, it.Err()); e != "" {
		fail("outcome-changes", "%s: %s", p.what, e)
	}
	if f.err != nil {
		ctx := context.Background()
		if n, err := st.Save(ctx, "x!1", simpleBatch(r, "x", "1", "x", 1)...); err == nil || n != 0 {
			fail("server-error", "Save answered with %v returned %d, %v", f.err, n, err)
		}
		if n, err := st.OptimisticSave(ctx, 0, "x!1", simpleBatch(r, "x", "1", "x", 1)...); err == nil || n != 0 {
			fail("server-error", "OptimisticSave answered with %v returned %d, %v", f.err, n, err)
		}
		if err := st.OptimisticDeleteStream(ctx, 0, "x!1"); err == nil {
			fail("server-error", "delete answered with %v returned nil", f.err)
		}
		if n, err := st.TotalEventsInStream(ctx, "x!1"); err == nil || n != 0 {
			fail("server-error", "total answered with %v returned %d, %v", f.err, n, err)
		}
		rec := env.NewRecorder()
		sctx, cancel := context.WithCancel(ctx)
		defer cancel()
		if err := st.AllEventsSubscription(sctx, 10, rec).StartFrom(0); err == nil {
			fail("server-error", "catch-up answered with %v returned nil", f.err)
		}
	}
	t.Count("failing_server_reads", 1)
	t.Distinct(fmt.Sprintf("server/%s/%d/%d/%v", p.what, bad, len(got), f.err))
}

// c09LdbRead: storage read errors and damaged values below the LevelDB store.
func c09LdbRead(t *core.T, name string, r *rand.Rand) {
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[ldb] %s", fmt.Sprintf(f, a...)) }
	ls := env.NewLogStorage(false)
	path := env.MemPath(ls.Adapter())
	defer env.DropMem(path)
	st, err := leveldbstore.New(path)
	if err != nil {
		fail("open", "%v", err)
		return
	}
	env.BindAll(st)
	n := 5 + r.Intn(40)
	big := strings.Repeat("x", 100+r.Intn(3000))
	for i := 0; i < n; i++ {
		ty := []string{"a", "b"}[r.Intn(2)]
		if _, err := st.Save(context.Background(), rangedb.GetStream(ty, "1"), &rangedb.EventRecord{Event: &env.EvA{T: ty, ID: "1", UID: fmt.Sprint(i), Payload: big}}); err != nil {
			fail("save", "%v", err)
			return
		}
	}
	full, err := env.Collect(st.Events(context.Background(), 0))
	if err != nil || len(full) != n {
		fail("read", "%d %v", len(full), err)
		return
	}
	if err := st.Stop(); err != nil {
		fail("stop", "%v", err)
		return
	}
	st, err = leveldbstore.New(path)
	if err != nil {
		fail("open", "%v", err)
		return
	}
	defer func() { _ = st.Stop() }()
	env.BindAll(st)
	p := randomRead(r, st, []string{"a", "b"}, n)
	at, width := r.Intn(8), 1+r.Intn(3)
	if r.Intn(3) == 0 {
		width = 1000
	}
	f0 := ls.Faulted()
	ls.SetFailRead(func(k int, fd storage.FileDesc) bool {
		return fd.Type == storage.TypeTable && k >= at && k < at+width
	})
	it := p.open(context.Background())
	var got []string
	if !within(t, name, "a read with storage errors", opLimit, func() {
		for it.Next() {
			got = append(got, env.RecString(it.Record()))
		}
	}) {
		return
	}
	gotErr := it.Err()
	ls.SetFailRead(nil)
	faults := ls.Faulted() - f0
	want, werr := env.Collect(p.open(context.Background()))
	if werr != nil && !strings.Contains(werr.Error(), "not found") {
		fail("read-after-fault", "%s after the storage recovered: %v", p.what, werr)
		return
	}
	w := env.Strings(want)
	if d := isPrefix(got, w); d != "" {
		fail("fault-not-prefix", "%s with %d storage read errors: %s", p.what, faults, d)
		return
	}
	if len(got) < len(w) && gotErr == nil {
		fail("fault-clean-end", "%s with %d storage read errors (from read %d): %d of %d records and no error", p.what, faults, at, len(got), len(w))
		return
	}
	if len(w) > 0 && gotErr != nil && strings.Contains(gotErr.Error(), rangedb.ErrStreamNotFound.Error()) {
		fail("fault-not-found", "%s with %d storage read errors reported an existing stream as not found", p.what, faults)
		return
	}
	if faults == 0 && gotErr != nil && werr == nil {
		fail("complete-with-error", "%s without fault: %v", p.what, gotErr)
		return
	}
	// a total under faults is right or an error
	ls.SetFailRead(func(k int, fd storage.FileDesc) bool { return fd.Type == storage.TypeTable && k >= at%3 })
	st2 := st
	for _, ty := range []string{"a", "b"} {
		var wantN uint64
		for _, x := range full {
			if x.StreamName == ty+"!1" {
				wantN++
			}
		}
		nTot, err := st2.TotalEventsInStream(context.Background(), ty+"!1")
		if err == nil && nTot != wantN {
			fail("fault-total", "TotalEventsInStream with failing storage returned %d without error, %d events are stored", nTot, wantN)
			return
		}
	}
	ls.SetFailRead(nil)
	t.Count("storage_fault_reads", 1)
	if faults > 0 {
		t.Count("storage_read_faults", faults)
		t.Distinct(fmt.Sprintf("ldb/%s/%d/%d/%d", p.what, at, faults, len(got)))
	}
}

// c09HTTP: an HTTP export that cannot be completed never looks complete.
func c09HTTP(t *core.T, name string, r *rand.Rand) {
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[http] %s", fmt.Sprintf(f, a...)) }
	kind := []string{"mem-json", "ldb-json"}[r.Intn(2)]
	g := env.Open(kind)
	defer g.Close()
	api, err := rangedbapi.New(rangedbapi.WithStore(g.Store))
	if err != nil {
		fail("new", "%v", err)
		return
	}
	n := 1 + r.Intn(12)
	poison := r.Intn(n + 1)
	for i := 0; i < n; i++ {
		var ev rangedb.Event = env.MakeEvent(r, "a", "1", fmt.Sprint(i), false)
		if i == poison {
			ev = &env.EvPoison{T: "a", ID: "1", UID: fmt.Sprint(i)}
		}
		if _, err := g.Store.Save(context.Background(), "a!1", &rangedb.EventRecord{Event: ev}); err != nil {
			fail("save", "%v", err)
			return
		}
	}
	srv := httptest.NewUnstartedServer(api)
	srv.Config.ErrorLog = discardLogger
	srv.Start()
	defer srv.Close()
	for _, format := range formats {
		for _, path := range []string{"/all-events.", "/events-by-stream/a!1.", "/events-by-aggregate-type/a.", "/events-by-aggregate-type/a,b."} {
			req, _ := http.NewRequest("GET", srv.URL+path+format, nil)
			if r.Intn(2) == 0 {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			tr := &http.Transport{DisableKeepAlives: true}
			resp, err := (&http.Client{Transport: tr, Timeout: opLimit}).Do(req)
			incomplete := err != nil
			var body []byte
			if err == nil {
				body, err = io.ReadAll(resp.Body)
				_ = resp.Body.Close()
				incomplete = err != nil || resp.StatusCode >= 400
			}
			bad := poison < n
			if bad && !incomplete {
				fail("http-looks-complete", "%s%s: record %d of %d cannot be decoded, response %d with complete body %q", path, format, poison, n, resp.StatusCode, body)
				return
			}
			if !bad && incomplete {
				fail("complete-with-error", "%s%s: %d records, error %v", path, format, n, err)
				return
			}
			if !bad && req.Header.Get("Accept-Encoding") == "" {
				if format == "msgpack" {
					body, err = base64.RawStdEncoding.DecodeString(string(body))
					if err != nil {
						fail("http-body", "%s%s: not base64: %v", path, format, err)
						return
					}
				}
				got, err := env.Collect(ioStream(format).Read(bytes.NewReader(body)))
				if err != nil || len(got) != n {
					fail("http-body", "%s%s: %d of %d records, %v", path, format, len(got), n, err)
					return
				}
			}
			t.Count("http_exports", 1)
			t.Distinct(fmt.Sprintf("http/%s/%s/%d/%d", path, format, n, poison))
		}
	}
}

// c09Pages: a page of the web interface shows all its records or is an error.
func c09Pages(t *core.T, name, kind string, r *rand.Rand) {
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s pages] %s", kind, fmt.Sprintf(f, a...)) }
	g := env.Open(kind)
	defer g.Close()
	ctx := context.Background()
	stats := projection.NewAggregateTypeStats()
	sub := g.Store.AllEventsSubscription(ctx, 100, stats)
	if err := sub.Start(); err != nil {
		fail("subscribe", "%v", err)
		return
	}
	defer sub.Stop()
	n := 1 + r.Intn(14)
	poison := r.Intn(n + n/2 + 1)
	var gsns []uint64
	var g0 uint64
	save := func(stream, ty string, ev rangedb.Event) bool {
		_, err := g.Store.Save(ctx, stream, &rangedb.EventRecord{Event: ev})
		if err != nil {
			fail("save", "%v", err)
			return false
		}
		g0++
		return true
	}
	for i := 0; i < n; i++ {
		for r.Intn(3) == 0 {
			if !save("b!1", "b", env.MakeEvent(r, "b", "1", fmt.Sprint("b", i), false)) {
				return
			}
		}
		var ev rangedb.Event = env.MakeEvent(r, "a", "1", fmt.Sprint(i), false)
		if i == poison {
			ev = &env.EvPoison{T: "a", ID: "1", UID: fmt.Sprint(i)}
		}
		if !save("a!1", "a", ev) {
			return
		}
		gsns = append(gsns, g0)
	}
	site := &uiSite{t: t, name: name, g: g, stats: stats, ui: rangedbui.New(stats, g.Store, rangedbui.WithHost("localhost:1"))}
	stopped := false
	for i := 0; i < 12; i++ {
		stream := r.Intn(2) == 0
		k := 1 + r.Intn(n+2)
		from := r.Intn(n + 2) // index of the first record
		first := uint64(0)
		switch {
		case from >= n:
			first = g0 + 1
			if stream {
				first = uint64(n) + 1
			}
		case stream:
			first = uint64(from) + 1
		default:
			first = gsns[from]
		}
		path := "/a/a"
		if stream {
			path = "/s/a!1"
		}
		path += fmt.Sprintf("?itemsPerPage=%d&current=%d", k, first)
		end := from + k
		if end > n {
			end = n
		}
		broken := poison < n && poison >= from && poison <= from+k
		if i == 11 && r.Intn(2) == 0 {
			// the last request is abandoned
			stopped = true
		}
		req := httptest.NewRequest("GET", "http://localhost"+path, nil)
		if stopped {
			c, cancel := context.WithCancel(ctx)
			cancel()
			req = req.WithContext(c)
		}
		w := httptest.NewRecorder()
		site.ui.ServeHTTP(w, req)
		t.Count("ui_pages", 1)
		if w.Code >= 400 {
			// engines may decode earlier records of the stream as well
			if (poison >= n || poison > from+k) && !stopped {
				fail("complete-with-error", "%s: %d records, undecodable %d: status %d %q", path, n, poison, w.Code, clip(w.Body.String()))
				return
			}
			t.Count("ui_pages_refused", 1)
			t.Distinct(fmt.Sprintf("pages/%v/%d/%d/%d/%d", stream, n, poison, k, from))
			continue
		}
		if broken {
			fail("page-looks-complete", "%s: the page shows status %d although record %d of %d cannot be decoded (%d records from index %d)", path, w.Code, poison, n, k, from)
			return
		}
		if stopped {
			rows := 0
			if doc, err := html.Parse(w.Body); err == nil {
				for _, tr := range elements(doc, "tr") {
					if len(elements(tr, "td")) > 1 {
						rows++
					}
				}
			}
			if rows != end-from && from < n {
				fail("page-looks-complete", "%s: the page of an abandoned request has status %d and %d rows of %d", path, w.Code, rows, end-from)
				return
			}
			continue
		}
		p, ok := site.get("/", path, false)
		if !ok {
			return
		}
		var got, want []string
		for _, row := range p.rows {
			got = append(got, fmt.Sprint(row.gsn))
		}
		for x := from; x < end; x++ {
			want = append(want, fmt.Sprint(gsns[x]))
		}
		if d := env.Diff(got, want); d != "" {
			fail("page-records", "%s: rows %s", path, d)
			return
		}
		if p.hasNext != (from+k < n) {
			fail("page-records", "%s: next link %v with records %d to %d of %d shown", path, p.hasNext, from, end, n)
			return
		}
		t.Distinct(fmt.Sprintf("pages/%v/%d/%d/%d/%d", stream, n, poison, k, from))
	}
}
