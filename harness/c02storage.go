package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"rangedbverif/core"
	"rangedbverif/env"
)

// c02Storage saves batches while single storage operations fail.
func c02Storage(t *core.T, name string, deletes bool) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		ls := env.NewLogStorage(false)
		path := env.MemPath(ls.Adapter())
		defer env.DropMem(path)
		st, err := leveldbstore.New(path)
		if err != nil {
			t.Fail(name, "open", "open: %v", err)
			return
		}
		defer func() { _ = st.Stop() }()
		env.BindAll(st)
		m := env.NewModel()
		ctx := context.Background()
		rec := env.NewRecorder()
		sub := st.AllEventsSubscription(ctx, 1000, rec)
		_ = sub.Start()
		defer sub.Stop()
		var log []string
		fail := func(key, f string, a ...interface{}) {
			t.Fail(name, key, "[ldb with failing storage] %s\nhistory: %v", fmt.Sprintf(f, a...), log)
		}
		uid := 0
		check := func(when string) bool {
			if e := m.Learn(st); e != "" {
				fail("storage-all-view", "%s: %s", when, e)
				return false
			}
			if e := m.CheckViews(st, []string{"s0", "s1", "s2"}, nil); e != "" {
				fail("storage-views", "%s: %s", when, e)
				return false
			}
			if !rec.WaitLen(len(m.History), 10*time.Second) || rec.Len() != len(m.History) {
				fail("storage-subscriber", "%s: subscriber has %d events, expected %d", when, rec.Len(), len(m.History))
				return false
			}
			return true
		}
		failed := 0
		for i := 0; i < 8; i++ {
			s := fmt.Sprintf("s%d", r.Intn(3))
			n := batchSize(r, 4, 12)
			var b []*rangedb.EventRecord
			for j := 0; j < n; j++ {
				uid++
				b = append(b, &rangedb.EventRecord{Event: &env.EvA{T: "t", ID: s, UID: fmt.Sprintf("u%d", uid)}})
			}
			del := m.Len[s] > 0 && (r.Intn(5) == 0 || deletes && r.Intn(2) == 0)
			if r.Intn(2) == 0 {
				at := r.Intn(7)
				// Failures of the manifest are excluded: goleveldb v1.0.0 itself keeps a lock after them.
				n := -1
				ls.SetFail(func(k int, op env.Op) bool {
					if op.Fd.Type != storage.TypeTable {
						return false
					}
					n++
					return n == at
				})
				log = append(log, fmt.Sprintf("fail table operation %d", at))
			}
			if del {
				err = st.OptimisticDeleteStream(ctx, m.Len[s], s)
				log = append(log, fmt.Sprintf("delete(%s)=%v", s, err))
				if err == nil {
					m.Delete(s)
				}
			} else {
				_, err = st.Save(ctx, s, b...)
				log = append(log, fmt.Sprintf("save(%s,%d)=%v", s, n, err))
				if err == nil {
					m.Append(s, b...)
				}
			}
			faulted := ls.Faults
			ls.SetFail(nil)
			if err != nil && faulted == 0 {
				fail("storage-usable", "operation failed although no storage operation fails any more: %v", err)
				return
			}
			ls.Faults = 0
			if err != nil {
				failed++
				t.Count("operations_failed_by_storage", 1)
			}
			t.Count("storage_faults", faulted)
			if !check(fmt.Sprintf("after operation %d (%v)", i, err)) {
				return
			}
		}
		t.Eval()
		if failed > 0 {
			t.Distinct(fmt.Sprint(log))
		}
	})
}

// c02Large saves or deletes so much at once that the engine writes part of it before the end, with a storage
// operation failing on the way: the operation must be seen as a whole or not at all.
func c02Large(t *core.T, name string, del bool) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		ls := env.NewLogStorage(false)
		path := env.MemPath(ls.Adapter())
		defer env.DropMem(path)
		st, err := leveldbstore.New(path)
		if err != nil {
			t.Fail(name, "open", "open: %v", err)
			return
		}
		defer func() { _ = st.Stop() }()
		env.BindAll(st)
		ctx := context.Background()
		fail := func(key, f string, a ...interface{}) {
			t.Fail(name, key, "[ldb with failing storage, large operations] %s", fmt.Sprintf(f, a...))
		}
		uid := 0
		long := strings.Repeat("x", 70)
		ty, s0 := "t"+long, "s0"+long
		batch := func(stream string, n, payload int) []*rangedb.EventRecord {
			var b []*rangedb.EventRecord
			for j := 0; j < n; j++ {
				uid++
				e := &env.EvA{T: ty, ID: stream, UID: fmt.Sprintf("u%d", uid)}
				if payload > 0 {
					p := make([]byte, payload)
					for i := range p {
						p[i] = byte('a' + r.Intn(26))
					}
					e.Payload = string(p)
				}
				b = append(b, &rangedb.EventRecord{Event: e})
			}
			return b
		}
		// contents in global order, per stream
		var order []string
		length := map[string]uint64{}
		add := func(stream string, b []*rangedb.EventRecord) {
			for _, x := range b {
				order = append(order, stream+"/"+env.UID(x.Event))
			}
			length[stream] += uint64(len(b))
		}
		save := func(stream string, b []*rangedb.EventRecord) bool {
			if _, err := st.Save(ctx, stream, b...); err != nil {
				fail("save", "%v", err)
				return false
			}
			add(stream, b)
			return true
		}
		views := func(when string) bool {
			for _, v := range []struct {
				what   string
				stream string
				it     rangedb.RecordIterator
			}{
				{"all events", "", st.Events(ctx, 0)},
				{"the type", "", st.EventsByAggregateTypes(ctx, 0, ty)},
				{"stream s0", s0, st.EventsByStream(ctx, 0, s0)},
				{"stream s1", "s1", st.EventsByStream(ctx, 0, "s1")},
			} {
				rs, err := env.Collect(v.it)
				var want []string
				for _, x := range order {
					if v.stream == "" || strings.HasPrefix(x, v.stream+"/") {
						want = append(want, x)
					}
				}
				if err == rangedb.ErrStreamNotFound && len(want) == 0 {
					err = nil
				}
				var got []string
				for i, x := range rs {
					ev, _ := x.Data.(rangedb.Event)
					got = append(got, x.StreamName+"/"+env.UID(ev))
					if v.stream != "" && x.StreamSequenceNumber != uint64(i+1) {
						fail("large-order", "%s, %s: record %d has number %d", when, v.what, i, x.StreamSequenceNumber)
						return false
					}
				}
				if d := env.Diff(got, want); d != "" || err != nil {
					fail("large-torn", "%s, %s: %v, %s", when, v.what, err, d)
					return false
				}
				t.Count("records_compared", len(got))
			}
			for s, n := range length {
				if got, err := st.TotalEventsInStream(ctx, s); err != nil || got != n {
					fail("large-torn", "%s: stream %s has %d events (%v), want %d", when, s, got, err, n)
					return false
				}
			}
			return true
		}
		if !save("s1", batch("s1", 1+r.Intn(4), 0)) {
			return
		}
		if del {
			for i := 0; i < 5; i++ {
				if !save(s0, batch(s0, 6000+r.Intn(1500), 0)) {
					return
				}
				if r.Intn(2) == 0 && !save("s1", batch("s1", 1+r.Intn(4), 0)) {
					return
				}
			}
		} else if !save(s0, batch(s0, 1+r.Intn(4), 0)) {
			return
		}
		at := r.Intn(5)
		n := -1
		ls.Faults = 0
		ls.SetFail(func(k int, op env.Op) bool {
			if op.Fd.Type != storage.TypeTable {
				return false
			}
			n++
			return n == at
		})
		what := ""
		if del {
			what = fmt.Sprintf("delete of %d events", length[s0])
			err = st.OptimisticDeleteStream(ctx, length[s0], s0)
			if err == nil {
				var keep []string
				for _, x := range order {
					if !strings.HasPrefix(x, s0+"/") {
						keep = append(keep, x)
					}
				}
				order = keep
				length[s0] = 0
			}
		} else {
			b := batch(s0, 6+r.Intn(20), 600<<10)
			what = fmt.Sprintf("save of %d large events", len(b))
			_, err = st.Save(ctx, s0, b...)
			if err == nil {
				add(s0, b)
			}
		}
		faulted := ls.Faulted()
		ls.SetFail(nil)
		t.Count("large_operations", 1)
		t.Count("storage_faults", faulted)
		if err != nil && faulted == 0 {
			fail("storage-usable", "%s: %v without a failing storage operation", what, err)
			return
		}
		if err != nil {
			t.Count("operations_failed_by_storage", 1)
			t.Distinct(fmt.Sprintf("large/%v/%d/%d", del, at, faulted))
		}
		if !views(fmt.Sprintf("after %s with table operation %d failing (%v)", what, at, err)) {
			return
		}
		if !save(s0, batch(s0, 1+r.Intn(3), 0)) || !save("s1", batch("s1", 1+r.Intn(3), 0)) {
			return
		}
		views("after another save")
		t.Eval()
	})
}
