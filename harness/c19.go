package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C19"] = c19 }

func c19(t *core.T) {
	t.SetRule("histories of saves over several engines with the API's statistics projection, restarted at random points (same store, reopened store) with a snapshot store whose files are intact, missing, empty, truncated at any byte, overwritten, unwritable or slow; after every step all accessors, the listing and the saved snapshot are compared with a fold over the stored events; concurrent readers check bounds while writers run; damaged snapshots of every length are loaded into fresh and used projections; projections of the harness's own, of every size and format, save, fail and load beside each other. Distinct by engine, restart and damage kind, and fold")
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "remote-mem-json", "enc-mem-json"} {
		kind := k
		n := 1
		if kind == "ldb-json" {
			n = 2
		}
		j.add(n*t.N(600, 6000), "api/"+k, func(t *core.T, n string, r *rand.Rand) { c19API(t, n, kind, r) })
		j.add(t.N(100, 1500), "readers/"+k, func(t *core.T, n string, r *rand.Rand) { c19Readers(t, n, kind, r) })
	}
	j.add(t.N(60, 1000), "api/pgnotify", func(t *core.T, n string, r *rand.Rand) { c19API(t, n, "pgnotify", r) })
	j.add(t.N(20, 300), "readers/pg", func(t *core.T, n string, r *rand.Rand) { c19Readers(t, n, "pg", r) })
	j.add(t.N(1500, 20000), "damage", c19Damage)
	j.add(t.N(200, 2000), "slow", c19Slow)
	j.add(t.N(300, 5000), "snapshots", c19Snapshots)
	j.run(12)
}

type statFold struct {
	by     map[string]uint64
	total  uint64
	latest uint64
}

func (f *statFold) clone() *statFold {
	c := &statFold{by: map[string]uint64{}, total: f.total, latest: f.latest}
	for k, v := range f.by {
		c.by[k] = v
	}
	return c
}

func foldOf(recs []*rangedb.Record) *statFold {
	f := &statFold{by: map[string]uint64{}}
	for _, r := range recs {
		f.by[r.AggregateType]++
		f.total++
		f.latest = r.GlobalSequenceNumber
	}
	return f
}

func (f *statFold) String() string {
	b, _ := json.Marshal(f.by)
	return fmt.Sprintf("total %d, latest %d, %s", f.total, f.latest, b)
}

func (f *statFold) types() []string {
	out := []string{}
	for k := range f.by {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// statsNow reads every accessor.
func statsNow(p *projection.AggregateTypeStats, extra ...string) *statFold {
	f := &statFold{by: map[string]uint64{}, total: p.TotalEvents(), latest: p.LatestGlobalSequenceNumber()}
	for _, ty := range append(p.SortedAggregateTypes(), extra...) {
		if n := p.TotalEventsByAggregateType(ty); n != 0 || len(extra) == 0 {
			f.by[ty] = n
		}
	}
	return f
}

// compareStats explains how a projection differs from a fold.
func compareStats(p *projection.AggregateTypeStats, want *statFold) string {
	types := p.SortedAggregateTypes()
	if strings.Join(types, "\x00") != strings.Join(want.types(), "\x00") {
		return fmt.Sprintf("types %q, expected %q", types, want.types())
	}
	if got := statsNow(p); got.String() != want.String() {
		return fmt.Sprintf("statistics {%v}, the stored events give {%v}", got, want)
	}
	if n := p.TotalEventsByAggregateType("no such type\x00"); n != 0 {
		return fmt.Sprintf("a type without events counts %d", n)
	}
	return ""
}

// compareSnapshot explains how a snapshot that the projection writes differs.
func compareSnapshot(p *projection.AggregateTypeStats, want *statFold) string {
	var b bytes.Buffer
	if err := p.SaveSnapshot(&b); err != nil {
		return fmt.Sprintf("SaveSnapshot: %v", err)
	}
	q := projection.NewAggregateTypeStats()
	if err := q.LoadFromSnapshot(bytes.NewReader(b.Bytes())); err != nil {
		if want.total == 0 {
			return ""
		}
		return fmt.Sprintf("loading the snapshot %s: %v", clip(b.String()), err)
	}
	if s := compareStats(q, want); s != "" {
		return "a projection loaded from the snapshot " + clip(b.String()) + " has " + s
	}
	return ""
}

func compareListing(h http.Handler, want *statFold) string {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/list-aggregate-types", nil))
	var l struct {
		Data []struct {
			Name        string `json:"name"`
			TotalEvents uint64 `json:"totalEvents"`
		} `json:"data"`
		TotalEvents uint64 `json:"totalEvents"`
	}
	if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil || w.Code != 200 {
		return fmt.Sprintf("the listing has status %d: %s", w.Code, clip(w.Body.String()))
	}
	got := &statFold{by: map[string]uint64{}, total: l.TotalEvents, latest: want.latest}
	var names []string
	for _, d := range l.Data {
		got.by[d.Name] += d.TotalEvents
		names = append(names, d.Name)
	}
	if got.String() != want.String() || !sort.StringsAreSorted(names) || len(names) != len(want.by) {
		return fmt.Sprintf("the listing is %s, expected %v", clip(w.Body.String()), want)
	}
	return ""
}

func statTypes(r *rand.Rand) []string {
	var out []string
	for i := 0; i < 1+r.Intn(5); i++ {
		out = append(out, []string{"thing", "another", "a b", "Ü", "x\"y", "thing2", "z-1"}[r.Intn(7)])
	}
	return out
}

func c19API(t *core.T, name, kind string, r *rand.Rand) {
	dir, rm := env.ScratchDir()
	defer rm()
	g := env.Open(kind)
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		g.Close()
	}()
	types := statTypes(r)
	var hist []string
	fail := func(key, f string, a ...interface{}) {
		t.Fail(name, key, "[%s] %s, after\n%s", kind, fmt.Sprintf(f, a...), strings.Join(hist, "\n"))
	}
	// tells when the broadcasts of the events so far are over
	tail := env.NewRecorder()
	if err := g.Store.AllEventsSubscription(ctx, 1000, tail).Start(); err != nil {
		fail("subscribe", "%v", err)
		return
	}
	seq, saved := 0, 0
	save := func(k int) bool {
		ty := types[r.Intn(len(types))]
		id := fmt.Sprintf("id%d", r.Intn(3))
		b := simpleBatch(r, ty, id, fmt.Sprintf("e%d", seq), k)
		seq++
		if _, err := g.Store.Save(ctx, rangedb.GetEventStream(b[0].Event), b...); err != nil {
			fail("save", "%v", err)
			return false
		}
		hist = append(hist, fmt.Sprintf("saved %d of %s", k, ty))
		saved += k
		tail.WaitLen(saved, 10*time.Second)
		return true
	}
	// gaps, before anybody counts
	for i := 0; i < r.Intn(4); i++ {
		if !save(1 + r.Intn(3)) {
			return
		}
	}
	if r.Intn(2) == 0 && seq > 0 {
		recs, _ := env.Collect(g.Store.Events(ctx, 0))
		x := recs[r.Intn(len(recs))]
		st := rangedb.GetStream(x.AggregateType, x.AggregateID)
		n, _ := g.Store.TotalEventsInStream(ctx, st)
		if err := g.Store.OptimisticDeleteStream(ctx, n, st); err != nil {
			fail("delete", "%v", err)
			return
		}
		hist = append(hist, "deleted "+st)
	}
	disk := projection.NewDiskSnapshotStore(dir)
	path := disk.SnapshotPath(projection.NewAggregateTypeStats())
	if filepath.Dir(path) != filepath.Clean(dir) {
		fail("path", "snapshots of %s go to %s", dir, path)
		return
	}
	for round := 0; round < 2+r.Intn(4) && !t.Stopped(); round++ {
		damage := r.Intn(10)
		valid := damage < 4
		switch damage {
		case 4:
			os.Remove(path)
			hist = append(hist, "snapshot removed")
		case 5:
			os.WriteFile(path, nil, 0600)
			hist = append(hist, "snapshot emptied")
		case 6:
			if b, err := os.ReadFile(path); err == nil && len(b) > 1 {
				n := r.Intn(len(b) - 1)
				os.WriteFile(path, b[:n], 0600)
				hist = append(hist, fmt.Sprintf("snapshot truncated to %d of %d bytes", n, len(b)))
			}
		case 7:
			junk := []string{"null", "{}", "[]", "0", "\"x\"", "{\"totalEvents\":3}", "{\"totalEventsByAggregateType\":{\"thing\":7}}", "\x00\x01", "{\"totalEventsByAggregateType\":null,\"latestGlobalSequenceNumber\":0,\"totalEvents\":0}", "{\"totalEventsByAggregateType\":{\"thing\":-1}}", "{\"totalEventsByAggregateType\":{\"thing\":1},\"totalEvents\":2,\"latestGlobalSequenceNumber\":2}"}
			s := junk[r.Intn(len(junk))]
			os.WriteFile(path, []byte(s), 0600)
			hist = append(hist, "snapshot overwritten with "+s)
		case 8:
			os.Remove(path)
			os.Mkdir(path, 0700)
			hist = append(hist, "snapshot is a directory")
		case 9:
			os.Remove(path)
			os.Symlink("/dev/full", path)
			hist = append(hist, "snapshot cannot be written")
		}
		opts := []rangedbapi.Option{rangedbapi.WithStore(g.Store)}
		withSnap := r.Intn(5) > 0
		if withSnap {
			opts = append(opts, rangedbapi.WithSnapshotStore(disk))
		}
		api, err := rangedbapi.New(opts...)
		if err != nil {
			fail("new", "the API does not start: %v", err)
			return
		}
		hist = append(hist, fmt.Sprintf("API started (snapshots %v)", withSnap))
		p := api.AggregateTypeStatsProjection()
		check := func(when string) bool {
			recs, err := env.Collect(g.Store.Events(ctx, 0))
			if err != nil {
				fail("read", "%v", err)
				return false
			}
			want := foldOf(recs)
			waitStats(p, want.total)
			for _, s := range []string{compareStats(p, want), compareSnapshot(p, want), compareListing(api, want)} {
				if s != "" {
					fail("stats", "%s: %s", when, s)
					return false
				}
			}
			t.Count("comparisons with the fold", 1)
			t.Distinct(fmt.Sprint(kind, damage, withSnap, want))
			return true
		}
		if !check("after the start") {
			return
		}
		if withSnap && damage < 8 { // what was just saved is usable
			q := projection.NewAggregateTypeStats()
			want := statsNow(p)
			if err := disk.Load(q); err != nil && want.total > 0 {
				fail("saved-snapshot", "the snapshot saved at the start cannot be loaded: %v", err)
				return
			}
			if s := compareStats(q, want); s != "" {
				fail("saved-snapshot", "the snapshot saved at the start has %s", s)
				return
			}
		}
		_ = valid
		for i := 0; i < 1+r.Intn(4); i++ {
			if !save(1 + r.Intn(4)) {
				return
			}
			if r.Intn(4) == 0 { // refused saves count nothing
				b := simpleBatch(r, types[0], "id0", "no", 2)
				if _, err := g.Store.OptimisticSave(ctx, 1<<40, rangedb.GetEventStream(b[0].Event), b...); err == nil {
					fail("save", "a save with a wrong number was accepted")
					return
				}
			}
			if !check("while running") {
				return
			}
		}
		if r.Intn(3) == 0 {
			err := disk.Save(p)
			broken := damage >= 8 && (damage == 8 || p.TotalEvents() > 0)
			hist = append(hist, fmt.Sprintf("snapshot saved: %v", err))
			if broken != (err != nil) {
				fail("save-snapshot", "saving a snapshot returned %v, expected an error: %v", err, broken)
				return
			}
		}
		if damage >= 8 {
			os.Remove(path)
		}
		// while no API runs
		for i := 0; i < r.Intn(4); i++ {
			if !save(1 + r.Intn(3)) {
				return
			}
		}
		if strings.HasPrefix(kind, "ldb") && r.Intn(2) == 0 {
			if err := g.Reopen(); err != nil {
				fail("reopen", "%v", err)
				return
			}
			tail, saved = env.NewRecorder(), 0
			if err := g.Store.AllEventsSubscription(ctx, 1000, tail).Start(); err != nil {
				fail("subscribe", "%v", err)
				return
			}
			hist = append(hist, "store reopened")
		}
	}
}

// waitStats waits until a projection counted n events.
func waitStats(p *projection.AggregateTypeStats, n uint64) {
	for end := time.Now().Add(10 * time.Second); p.TotalEvents() < n && time.Now().Before(end); {
		time.Sleep(200 * time.Microsecond)
	}
}

func c19Readers(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		g.Close()
	}()
	api, err := rangedbapi.New(rangedbapi.WithStore(g.Store))
	if err != nil {
		t.Fail(name, "new", "[%s] %v", kind, err)
		return
	}
	p := api.AggregateTypeStatsProjection()
	types := []string{"a", "b", "c", "d"}
	var acked uint64
	var stop int32
	var wg sync.WaitGroup
	bad := func(f string, a ...interface{}) {
		t.Fail(name, "inconsistent", "[%s] a concurrent reader: %s", kind, fmt.Sprintf(f, a...))
		atomic.StoreInt32(&stop, 1)
	}
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t.Guard(name, func() {
				last := &statFold{by: map[string]uint64{}}
				for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
					if k%8 == 7 {
						time.Sleep(50 * time.Microsecond)
					}
					switch i {
					case 0: // accessors between two totals
						t0 := p.TotalEvents()
						sum := uint64(0)
						for _, ty := range types {
							n := p.TotalEventsByAggregateType(ty)
							if n < last.by[ty] {
								bad("the count of %s went from %d to %d", ty, last.by[ty], n)
								return
							}
							last.by[ty] = n
							sum += n
						}
						t1 := p.TotalEvents()
						l := p.LatestGlobalSequenceNumber()
						if sum < t0 || sum > t1 || t0 < last.total || l < t1 || l < last.latest {
							bad("total %d, sum by type %d, total %d, latest %d (before: total %d, latest %d)", t0, sum, t1, l, last.total, last.latest)
							return
						}
						last.total, last.latest = t1, l
					case 1: // snapshots are consistent
						var b bytes.Buffer
						if err := p.SaveSnapshot(&b); err != nil {
							bad("SaveSnapshot: %v", err)
							return
						}
						q := projection.NewAggregateTypeStats()
						if err := q.LoadFromSnapshot(&b); err != nil {
							bad("a snapshot taken while counting cannot be loaded: %v", err)
							return
						}
						f := statsNow(q)
						sum := uint64(0)
						for _, n := range f.by {
							sum += n
						}
						if sum != f.total || f.latest != f.total || f.total < last.total {
							bad("a snapshot taken while counting has %v", f)
							return
						}
						last.total = f.total
					default:
						tys := p.SortedAggregateTypes()
						if !sort.StringsAreSorted(tys) || len(tys) < len(last.by) {
							bad("types %q after %d types", tys, len(last.by))
							return
						}
						for _, ty := range tys {
							last.by[ty] = 1
							if p.TotalEventsByAggregateType(ty) == 0 {
								bad("type %s is listed and counts 0", ty)
								return
							}
						}
						w := httptest.NewRecorder()
						api.ServeHTTP(w, httptest.NewRequest("GET", "/list-aggregate-types", nil))
						if !json.Valid(w.Body.Bytes()) {
							bad("listing %s", w.Body.String())
							return
						}
					}
					t.Count("concurrent observations", 1)
				}
			})
		}(i)
	}
	writers := 2
	var ww sync.WaitGroup
	var inFlight sync.Mutex
	for i := 0; i < writers; i++ {
		wr := t.Rand(fmt.Sprintf("%s/w%d", name, i))
		ww.Add(1)
		go func(i int) {
			defer ww.Done()
			t.Guard(name, func() {
				for k := 0; k < 40 && atomic.LoadInt32(&stop) == 0; k++ {
					n := 1 + wr.Intn(3)
					b := simpleBatch(wr, types[wr.Intn(len(types))], fmt.Sprint(i), fmt.Sprintf("w%d-%d", i, k), n)
					if _, err := g.Store.Save(ctx, rangedb.GetEventStream(b[0].Event), b...); err != nil {
						t.Fail(name, "save", "%v", err)
						atomic.StoreInt32(&stop, 1)
						return
					}
					inFlight.Lock()
					acked += uint64(n)
					a := acked
					inFlight.Unlock()
					if a > 4 {
						waitStats(p, a-4)
					}
				}
			})
		}(i)
	}
	ww.Wait()
	recs, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil {
		t.Fail(name, "read", "%v", err)
		return
	}
	want := foldOf(recs)
	waitStats(p, want.total)
	was := atomic.SwapInt32(&stop, 1)
	wg.Wait()
	if was != 0 || t.Stopped() {
		return
	}
	for _, s := range []string{compareStats(p, want), compareSnapshot(p, want), compareListing(api, want)} {
		if s != "" {
			t.Fail(name, "stats", "[%s] after concurrent writers: %s", kind, s)
			return
		}
	}
	t.Distinct(fmt.Sprint("readers", kind, want))
}

func statRecords(r *rand.Rand) []*rangedb.Record {
	n := r.Intn(30)
	g := uint64(0)
	types := statTypes(r)
	var out []*rangedb.Record
	for i := 0; i < n; i++ {
		g += uint64(1 + r.Intn(2)*r.Intn(3))
		out = append(out, &rangedb.Record{AggregateType: types[r.Intn(len(types))], AggregateID: "x", GlobalSequenceNumber: g, StreamSequenceNumber: uint64(i + 1)})
	}
	return out
}

// brokenWriter fails after some bytes.
type brokenWriter struct {
	n   int
	buf bytes.Buffer
}

func (w *brokenWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		k := w.n
		w.buf.Write(b[:k])
		w.n = 0
		return k, io.ErrShortWrite
	}
	w.n -= len(b)
	return w.buf.Write(b)
}

func c19Damage(t *core.T, name string, r *rand.Rand) {
	recs := statRecords(r)
	p := projection.NewAggregateTypeStats()
	for _, x := range recs {
		p.Accept(x)
	}
	want := foldOf(recs)
	if s := compareStats(p, want); s != "" {
		t.Fail(name, "stats", "%s", s)
		return
	}
	if s := compareSnapshot(p, want); s != "" {
		t.Fail(name, "snapshot", "%s", s)
		return
	}
	var full bytes.Buffer
	if err := p.SaveSnapshot(&full); err != nil {
		t.Fail(name, "snapshot", "%v", err)
		return
	}
	if s := compareStats(p, want); s != "" {
		t.Fail(name, "stats", "saving a snapshot changed the projection: %s", s)
		return
	}
	text := bytes.TrimRight(full.Bytes(), "\n")
	other := statRecords(r)
	try := func(what string, b []byte, exact bool) bool {
		for _, used := range []bool{false, true} {
			q := projection.NewAggregateTypeStats()
			before := foldOf(nil)
			if used {
				for _, x := range other {
					q.Accept(x)
				}
				before = foldOf(other)
			}
			var err error
			if pn := core.Try(func() { err = q.LoadFromSnapshot(bytes.NewReader(b)) }); pn != "" {
				t.Fail(name, "panic", "loading %s (%s) panicked: %s", what, clip(string(b)), pn)
				return false
			}
			now := before
			if err == nil {
				now = want
				if !exact { // readable, though damaged: at least consistent
					f := statsNow(q)
					sum := uint64(0)
					for _, n := range f.by {
						sum += n
					}
					if sum != f.total || f.latest < f.total {
						t.Fail(name, "inconsistent", "loading %s (%s) gives %v", what, clip(string(b)), f)
						return false
					}
					now = f
				}
			}
			if s := compareStats(q, now); s != "" {
				t.Fail(name, "damaged", "loading %s (%s) returned %v and leaves %s", what, clip(string(b)), err, s)
				return false
			}
			// it still counts
			if pn := core.Try(func() {
				q.Accept(&rangedb.Record{AggregateType: "new type", GlobalSequenceNumber: now.latest + 3})
			}); pn != "" {
				t.Fail(name, "panic", "after loading %s (%s), Accept panicked: %s", what, clip(string(b)), pn)
				return false
			}
			n2 := now.clone()
			n2.by["new type"]++
			n2.total++
			n2.latest = now.latest + 3
			if s := compareStats(q, n2); s != "" {
				t.Fail(name, "damaged", "after loading %s (%s), one event more: %s", what, clip(string(b)), s)
				return false
			}
			t.Count("snapshots loaded", 1)
		}
		return true
	}
	if !try("the snapshot", text, true) || !try("the snapshot and more", append(append([]byte{}, text...), "\ngarbage"...), true) {
		return
	}
	for n := 0; n < len(text); n++ {
		if !try(fmt.Sprintf("the first %d of %d bytes", n, len(text)), text[:n], true) {
			return
		}
	}
	for i := 0; i < 20; i++ {
		b := append([]byte{}, text...)
		for k := 0; k < 1+r.Intn(3); k++ {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		if !try("a damaged snapshot", b, false) {
			return
		}
		if !try("random bytes", []byte(env.RandText(r, r.Intn(40))), false) {
			return
		}
	}
	// writers that fail
	for i := 0; i < 4; i++ {
		w := &brokenWriter{n: r.Intn(len(text))}
		if err := p.SaveSnapshot(w); err == nil {
			t.Fail(name, "write-error", "SaveSnapshot reports success though the writer failed after %d of %d bytes", w.buf.Len(), len(text))
			return
		}
		if !try("what a failed writer took", w.buf.Bytes(), true) {
			return
		}
	}
	// failing readers
	for i := 0; i < 3; i++ {
		n := r.Intn(len(text))
		q := projection.NewAggregateTypeStats()
		err := q.LoadFromSnapshot(io.MultiReader(bytes.NewReader(text[:n]), &errReader{}))
		if err == nil || statsNow(q).total != 0 {
			t.Fail(name, "read-error", "loading from a reader that fails after %d bytes returned %v and leaves %v", n, err, statsNow(q))
			return
		}
	}
	t.Distinct("damage" + want.String())
}

type errReader struct{}

func (*errReader) Read([]byte) (int, error) { return 0, errors.New("verif: read failed") }

// stallWriter blocks until it is released.
type stallWriter struct {
	entered chan struct{}
	release chan struct{}
	once    sync.Once
	bytes.Buffer
}

func (w *stallWriter) Write(b []byte) (int, error) {
	w.once.Do(func() { close(w.entered) })
	<-w.release
	return w.Buffer.Write(b)
}

// stallStore is a snapshot store on a slow medium.
type stallStore struct{ w *stallWriter }

func (s *stallStore) Load(projection.SnapshotProjection) error { return errors.New("none") }
func (s *stallStore) Save(p projection.SnapshotProjection) error {
	return p.SaveSnapshot(s.w)
}

func c19Slow(t *core.T, name string, r *rand.Rand) {
	g := env.Open([]string{"mem-json", "ldb-json"}[r.Intn(2)])
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		g.Close()
	}()
	save := func(i int) bool {
		b := simpleBatch(r, "thing", "id", fmt.Sprintf("e%d", i), 1)
		if _, err := g.Store.Save(ctx, rangedb.GetEventStream(b[0].Event), b...); err != nil {
			t.Fail(name, "save", "%v", err)
			return false
		}
		return true
	}
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		if !save(i) {
			return
		}
	}
	w := &stallWriter{entered: make(chan struct{}), release: make(chan struct{})}
	type started struct {
		p   *projection.AggregateTypeStats
		err error
	}
	done := make(chan started, 1)
	go func() {
		api, err := rangedbapi.New(rangedbapi.WithStore(g.Store), rangedbapi.WithSnapshotStore(&stallStore{w}))
		if err != nil {
			done <- started{err: err}
			return
		}
		done <- started{p: api.AggregateTypeStatsProjection()}
	}()
	select {
	case <-w.entered:
	case <-time.After(opLimit):
		close(w.release)
		t.Fail(name, "slow", "the API did not save its snapshot within %v", opLimit)
		return
	}
	more := 14 + r.Intn(10)
	for i := 0; i < more; i++ {
		if !save(n + i) {
			close(w.release)
			return
		}
		if i%4 == 3 { // let the subscription take them
			time.Sleep(2 * time.Millisecond)
		}
	}
	if r.Intn(2) == 0 {
		time.Sleep(150 * time.Millisecond)
	}
	close(w.release)
	s := <-done
	if s.err != nil {
		t.Fail(name, "new", "%v", s.err)
		return
	}
	recs, _ := env.Collect(g.Store.Events(ctx, 0))
	want := foldOf(recs)
	waitStats(s.p, want.total)
	if d := compareStats(s.p, want); d != "" {
		t.Fail(name, "stalled", "while a slow snapshot store took the snapshot, %d events were saved: %s", more, d)
		return
	}
	t.Count("slow snapshot stores", 1)
	t.Distinct(fmt.Sprint("slow", n, more))
}
