package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"github.com/inklabs/rangedb/pkg/rangedbws"

	"rangedbverif/core"
	"rangedbverif/env"
)

// Histories, batches, records and silences much longer than those of the other cases: what only shows beyond some
// threshold (a page, a buffer, a limit, a timeout) shows here.

var largeTypes = []string{"a", "b", "c!d"}

// history is a long one of few aggregate types, or one of very many types and streams.
type history struct {
	n     int
	types []string
	ids   int
}

func largeHistory(n int) history { return history{n, largeTypes, 2} }

func wideHistory(n, types int) history {
	h := history{n: n, ids: 4}
	for i := 0; len(h.types) < types; i++ {
		h.types = append(h.types, []string{"t%d", "T%d", "%d", "t é%d", "t%d!x"}[i%5])
		h.types[i] = fmt.Sprintf(h.types[i], i/5)
	}
	return h
}

func (h history) String() string {
	return fmt.Sprintf("history of %d events of %d aggregate types", h.n, len(h.types))
}

func (h history) pick(r *rand.Rand) []string {
	ts := append([]string{}, h.types...)
	r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	n := 1 + r.Intn(min(3, len(ts)))
	if len(ts) > 3 && r.Intn(4) > 0 {
		n = 1 + r.Intn(len(ts))
	}
	ts = ts[:n]
	if r.Intn(2) == 0 {
		ts = append(ts, ts[r.Intn(len(ts))])
	}
	return ts
}

// largeFill stores a history in batches of up to 900 and checks all views once.
func largeFill(t *core.T, g *env.Target, r *rand.Rand, h history, fail func(string, string, ...interface{})) *env.Model {
	m := env.NewModel()
	ctx := context.Background()
	for uid := 0; uid < h.n; {
		ty := h.types[r.Intn(len(h.types))]
		id := fmt.Sprint(r.Intn(h.ids))
		stream := rangedb.GetStream(ty, id)
		k := 1 + r.Intn(20)
		if r.Intn(6) == 0 {
			k = 1 + r.Intn(900)
		}
		if len(h.types) > 3 {
			k = 1 + r.Intn(4)
		}
		var b []*rangedb.EventRecord
		for ; k > 0 && uid < h.n; k-- {
			b = append(b, &rangedb.EventRecord{Event: env.MakeEvent(r, ty, id, fmt.Sprintf("u%d", uid), false)})
			uid++
		}
		if got, err := g.Store.Save(ctx, stream, b...); err != nil || got != m.Len[stream]+uint64(len(b)) {
			fail("large-save", "a save of %d events to a stream of %d returned %d, %v", len(b), m.Len[stream], got, err)
			return nil
		}
		m.Append(stream, b...)
		t.Tick()
	}
	if e := m.Learn(g.Store); e != "" {
		fail("large-views", "%s", e)
		return nil
	}
	if e := m.CheckViews(g.Store, nil, nil); e != "" {
		fail("large-views", "%s", e)
		return nil
	}
	t.Count("large_histories", 1)
	return m
}

// largeQueries reads a long history from everywhere.
func largeQueries(h history, kind string) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		g := env.Open(kind)
		defer g.Close()
		fail := func(key, f string, a ...interface{}) {
			t.Fail(name, key, "[%s, %s] %s", kind, h, fmt.Sprintf(f, a...))
		}
		m := largeFill(t, g, r, h, fail)
		if m == nil {
			return
		}
		ctx := context.Background()
		for i := 0; i < 24; i++ {
			t.Tick()
			from := uint64(r.Intn(h.n + 3))
			if r.Intn(3) == 0 {
				from = uint64(r.Intn(3))
			}
			var it rangedb.RecordIterator
			var want []string
			what := ""
			switch i % 3 {
			case 0:
				what, it, want = "all events", g.Store.Events(ctx, from), m.All(from)
			case 1:
				ts := h.pick(r)
				what, it, want = fmt.Sprintf("types %q", ts), g.Store.EventsByAggregateTypes(ctx, from, ts...), m.ByTypes(from, ts...)
			default:
				ss := m.Streams()
				s := ss[r.Intn(len(ss))]
				if from > m.Len[s] {
					from = m.Len[s] - uint64(r.Intn(2))
				}
				what, it, want = fmt.Sprintf("stream %q", s), g.Store.EventsByStream(ctx, from, s), m.ByStream(s, from)
			}
			rs, err := env.Collect(it)
			if d := env.Diff(env.Strings(rs), want); d != "" || err != nil {
				fail("large-query", "%s from %d: %v, %s", what, from, err, d)
				return
			}
			t.Count("large_queries", 1)
			t.Count("records_compared", len(rs))
			t.Distinct(fmt.Sprint("large", kind, what, from))
		}
	}
}

// largeSubs lets subscribers catch up with a long history while events are saved.
func largeSubs(h history, kind string) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		g := env.Open(kind)
		defer g.Close()
		fail := func(key, f string, a ...interface{}) {
			t.Fail(name, key, "[%s, %s] %s", kind, h, fmt.Sprintf(f, a...))
		}
		m := largeFill(t, g, r, h, fail)
		if m == nil {
			return
		}
		var plans []*subPlan
		for i := 0; i < 6; i++ {
			p := &subPlan{id: fmt.Sprintf("sub%d", i), rec: env.NewRecorder(), joined: uint64(h.n)}
			if i%2 == 1 {
				p.types = h.pick(r)
			}
			if i > 1 {
				p.from = uint64(r.Intn(h.n + 10))
			}
			plans = append(plans, p)
		}
		checkSubs(t, name, g, r, h, plans, fail, func(p *subPlan) (func(), error) {
			ctx := context.Background()
			s := g.Store.AllEventsSubscription(ctx, 5000, p.rec)
			if p.types != nil {
				s = g.Store.AggregateTypesSubscription(ctx, 5000, p.rec, p.types...)
			}
			return s.Stop, s.StartFrom(p.from)
		})
	}
}

// largeWS is largeSubs for WebSocket clients.
func largeWS(h history, kind string) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		g := env.Open(kind)
		defer g.Close()
		fail := func(key, f string, a ...interface{}) {
			t.Fail(name, key, "[%s, %s] %s", kind, h, fmt.Sprintf(f, a...))
		}
		m := largeFill(t, g, r, h, fail)
		if m == nil {
			return
		}
		api, err := rangedbws.New(rangedbws.WithStore(g.Store), rangedbws.WithLogger(discardLogger))
		if err != nil {
			fail("api", "%v", err)
			return
		}
		srv := newWSServer(api, 0)
		defer srv.close()
		defer api.Stop()
		var plans []*subPlan
		for i := 0; i < 5; i++ {
			p := &subPlan{id: fmt.Sprintf("client%d", i), rec: env.NewRecorder(), joined: uint64(h.n)}
			if i%2 == 1 {
				p.types = h.pick(r)
			}
			if i > 1 {
				p.from = uint64(r.Intn(h.n + 10))
			}
			plans = append(plans, p)
		}
		checkSubs(t, name, g, r, h, plans, fail, wsJoin(srv))
	}
}

func wsJoin(srv *wsServer) func(p *subPlan) (func(), error) {
	return func(p *subPlan) (func(), error) {
		conn, _, err := srv.dial.Dial(srv.base+wsPath(p.types, p.from, false), nil)
		if err != nil {
			return nil, err
		}
		c := &wsClient{subPlan: subPlan{id: p.id, rec: p.rec}, conn: conn}
		go c.read(decodeWS)
		return func() { _ = conn.Close() }, nil
	}
}

// checkSubs joins every subscriber while events are saved slowly, and compares what they got with the final view.
func checkSubs(t *core.T, name string, g *env.Target, r *rand.Rand, h history, plans []*subPlan, fail func(string, string, ...interface{}), join func(*subPlan) (func(), error)) {
	ctx := context.Background()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var stops []func()
	defer func() {
		for _, f := range stops {
			f()
		}
	}()
	for _, p := range plans {
		p := p
		delay := time.Duration(r.Intn(200)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			var stop func()
			var err error
			if !within(t, name, "joining", 2*opLimit, func() { stop, err = join(p) }) {
				return
			}
			if stop != nil {
				mu.Lock()
				stops = append(stops, stop)
				mu.Unlock()
			}
			if err != nil {
				fail("subscribe", "%s: %v", p, err)
			}
		}()
	}
	for i := 0; i < 25; i++ {
		ty := h.types[r.Intn(len(h.types))]
		if _, err := g.Store.Save(ctx, rangedb.GetStream(ty, "0"), &rangedb.EventRecord{Event: env.MakeEvent(r, ty, "0", fmt.Sprintf("live%d", i), false)}); err != nil {
			fail("save", "%v", err)
			return
		}
		t.Tick()
		time.Sleep(20 * time.Millisecond)
	}
	wg.Wait()
	final, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil {
		fail("final", "%v", err)
		return
	}
	for _, p := range plans {
		var want []string
		for _, x := range final {
			if x.GlobalSequenceNumber >= p.from && p.match(x.AggregateType) {
				want = append(want, env.RecString(x))
			}
		}
		p.rec.WaitLen(len(want), 30*time.Second)
		time.Sleep(5 * time.Millisecond)
		t.Tick()
		if d := env.Diff(p.rec.Strings(), want); d != "" {
			fail("large-delivery", "%s: %s", p, d)
			return
		}
		t.Count("large_deliveries_compared", len(want))
		t.Distinct(fmt.Sprint("large-subs", g.Kind, p.types, p.from))
	}
}

// idleSubs keeps subscribers without any event for a long time.
func idleSubs(t *core.T, name, kind string, r *rand.Rand, silence time.Duration) {
	g := env.Open(kind)
	defer g.Close()
	fail := func(key, f string, a ...interface{}) {
		t.Fail(name, key, "[%s, subscriber without events for %v] %s", kind, silence, fmt.Sprintf(f, a...))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var clients []*subPlan
	for i := 0; i < 3; i++ {
		p := &subPlan{id: fmt.Sprintf("sub%d", i), rec: env.NewRecorder()}
		var s rangedb.RecordSubscription
		if i == 1 {
			p.types = []string{"a", "b"}
			s = g.Store.AggregateTypesSubscription(ctx, 50, p.rec, p.types...)
		} else {
			s = g.Store.AllEventsSubscription(ctx, 50, p.rec)
		}
		start := func() error { return s.StartFrom(0) }
		if i == 2 {
			p.live = true
			start = s.Start
		}
		if err := start(); err != nil {
			fail("subscribe", "%v", err)
			return
		}
		defer s.Stop()
		clients = append(clients, p)
	}
	idleCheck(t, g, r, clients, silence, fail)
}

func idleCheck(t *core.T, g *env.Target, r *rand.Rand, clients []*subPlan, silence time.Duration, fail func(string, string, ...interface{})) {
	ctx := context.Background()
	saved := 0
	phase := func(what string) bool {
		for i := 0; i < 4; i++ {
			if _, err := g.Store.Save(ctx, "a!1", &rangedb.EventRecord{Event: env.MakeEvent(r, "a", "1", fmt.Sprint(saved), false)}); err != nil {
				fail("save", "%s: %v", what, err)
				return false
			}
			saved++
			time.Sleep(3 * time.Millisecond)
		}
		final, err := env.Collect(g.Store.Events(ctx, 0))
		if err != nil || len(final) != saved {
			fail("final", "%s: %d of %d: %v", what, len(final), saved, err)
			return false
		}
		for _, p := range clients {
			p.rec.WaitLen(saved, 20*time.Second)
			if d := env.Diff(p.rec.Strings(), env.Strings(final)); d != "" {
				fail("idle-delivery", "%s, %s: %s", p, what, d)
				return false
			}
			t.Count("idle_deliveries_compared", saved)
		}
		return true
	}
	if !phase("before") {
		return
	}
	for end := time.Now().Add(silence); time.Now().Before(end); {
		time.Sleep(500 * time.Millisecond)
		t.Tick()
	}
	if phase("after") {
		t.Distinct(fmt.Sprint("idle", g.Kind, silence))
	}
}

// idleWS keeps WebSocket clients and live pages without any event for a long time.
func idleWS(t *core.T, name, kind string, r *rand.Rand, silence time.Duration) {
	g := env.Open(kind)
	defer g.Close()
	fail := func(key, f string, a ...interface{}) {
		t.Fail(name, key, "[%s, client without events for %v] %s", kind, silence, fmt.Sprintf(f, a...))
	}
	api, err := rangedbws.New(rangedbws.WithStore(g.Store), rangedbws.WithLogger(discardLogger))
	if err != nil {
		fail("api", "%v", err)
		return
	}
	srv := newWSServer(api, 0)
	defer srv.close()
	defer api.Stop()
	stats := projection.NewAggregateTypeStats()
	sub := g.Store.AllEventsSubscription(context.Background(), 500, stats)
	if err := sub.StartFrom(0); err != nil {
		fail("subscribe", "%v", err)
		return
	}
	defer sub.Stop()
	ui := newWSServer(rangedbui.New(stats, g.Store), 0)
	defer ui.close()
	var clients []*subPlan
	for i := 0; i < 3; i++ {
		p := &subPlan{id: fmt.Sprintf("client%d", i), rec: env.NewRecorder()}
		if i == 1 {
			p.types = []string{"a", "b"}
		}
		if i == 2 {
			p.id, p.live = "live page", true
			conn, _, err := ui.dial.Dial(ui.base+"/live/a/"+url.PathEscape("a"), nil)
			if err != nil {
				fail("connect", "%v", err)
				return
			}
			defer conn.Close()
			c := &wsClient{subPlan: subPlan{id: p.id, rec: p.rec}, conn: conn}
			go c.read(func(m []byte) (*rangedb.Record, error) {
				var e struct{ Record wsRecord }
				if err := useNumber(m, &e); err != nil {
					return nil, err
				}
				return e.Record.record()
			})
		} else {
			stop, err := wsJoin(srv)(p)
			if err != nil {
				fail("connect", "%v", err)
				return
			}
			defer stop()
		}
		clients = append(clients, p)
	}
	// the handler of a live page subscribes after the handshake
	time.Sleep(300 * time.Millisecond)
	idleCheck(t, g, r, clients, silence, fail)
}

// largeExport writes and reads many records, and some large ones.
func largeExport(n, huge int) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		var recs []*rangedb.Record
		for i := 0; i < n; i++ {
			ty := largeTypes[r.Intn(3)]
			recs = append(recs, &rangedb.Record{StreamName: ty + "!1", AggregateType: ty, AggregateID: "1", GlobalSequenceNumber: uint64(i + 1),
				StreamSequenceNumber: uint64(i + 1), InsertTimestamp: uint64(i), EventID: fmt.Sprint(i), EventType: "VerifA",
				Data: &env.EvA{T: ty, ID: "1", UID: fmt.Sprint(i)}, Metadata: map[string]interface{}{"n": fmt.Sprint(i)}})
		}
		for _, size := range []int{40 << 10, 1<<20 + 7, huge} {
			x := *recs[r.Intn(n)]
			x.Data = &env.EvA{T: x.AggregateType, ID: "1", UID: "huge", Payload: largeText(r, size)}
			recs = append(recs, &x)
		}
		r.Shuffle(len(recs), func(a, b int) { recs[a], recs[b] = recs[b], recs[a] })
		want := env.Strings(recs)
		for _, format := range formats {
			t.Tick()
			fail := func(key, f string, a ...interface{}) {
				t.Fail(name, key, "[%s, %d records, the largest of %d bytes] %s", format, len(recs), huge, fmt.Sprintf(f, a...))
			}
			var buf bytes.Buffer
			var errs []error
			if !within(t, name, format+" Write", 2*opLimit, func() { errs = drainErrors(plainStream(format).Write(&buf, fakeIter(recs, nil, true, r))) }) {
				return
			}
			if len(errs) > 0 {
				fail("write-error", "%v", errs)
				return
			}
			if err := wellFormed(format, buf.Bytes(), len(recs)); err != nil {
				fail("malformed", "%s", clip(err.Error()))
				return
			}
			s := plainStream(format)
			s.Bind(&env.EvA{})
			var got []*rangedb.Record
			var err error
			if !within(t, name, format+" Read", 2*opLimit, func() { got, err = env.Collect(s.Read(bytes.NewReader(buf.Bytes()))) }) {
				return
			}
			if err != nil || len(got) != len(want) {
				fail("read-error", "%d of %d records of %d bytes, %v", len(got), len(want), buf.Len(), err)
				return
			}
			for i, x := range env.Strings(got) {
				if x != want[i] {
					fail("not-equal", "record %d: wrote %s\n   read %s", i, clip(want[i]), clip(x))
					return
				}
			}
			t.Count("large_exports", 1)
			t.Distinct(fmt.Sprint("large", format, len(recs), huge))
		}
	}
}

func largeText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + r.Intn(90))
	}
	return string(b)
}

// largeHTTP saves a large body and a large batch, and exports them.
func largeHTTP(n, huge int) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		kind := []string{"mem-json", "ldb-json", "ldb-msgpack", "mem-msgpack"}[r.Intn(4)]
		c := newHTTPCase(t, name, kind, r)
		if c == nil {
			return
		}
		defer c.close()
		type ev struct {
			AggregateType string      `json:"aggregateType"`
			AggregateID   string      `json:"aggregateID"`
			EventType     string      `json:"eventType"`
			Data          interface{} `json:"data"`
		}
		var texts []string
		for k := 0; k < 3; k++ {
			var body []ev
			total := n
			if k == 1 {
				total = 2
			}
			for i := 0; i < total; i++ {
				x := fmt.Sprint(k, "-", i)
				if k == 1 {
					x = largeText(r, huge/2)
				}
				texts = append(texts, x)
				body = append(body, ev{"a", "1", "e", map[string]interface{}{"x": x}})
			}
			b, _ := json.Marshal(body)
			h := map[string]string{"Content-Type": "application/json"}
			if k == 2 {
				h["ExpectedStreamSequenceNumber"] = fmt.Sprint(n + 2)
			}
			st, _, resp, ok := c.do("POST", "/save-events/a!1", b, h)
			if !ok {
				return
			}
			var s statusBody
			if st != 201 || json.Unmarshal(resp, &s) != nil || s.StreamSequenceNumber != uint64(len(texts)) {
				c.fail("large-save", "a request of %d events in %d bytes got %d %s", total, len(b), st, clip(string(resp)))
				return
			}
			t.Tick()
		}
		for _, format := range formats {
			for _, path := range []string{"/all-events.", "/events-by-stream/a!1.", "/events-by-aggregate-type/a.", "/events-by-aggregate-type/a,b."} {
				st, _, body, ok := c.do("GET", path+format, nil, map[string]string{"Accept-Encoding": []string{"identity", "gzip"}[r.Intn(2)]})
				if !ok {
					return
				}
				if format == "msgpack" {
					var err error
					if body, err = base64.RawStdEncoding.DecodeString(string(body)); err != nil {
						c.fail("large-export", "GET %s%s: %v", path, format, err)
						return
					}
				}
				got, err := env.Collect(plainStream(format).Read(bytes.NewReader(body)))
				if st != 200 || err != nil || len(got) != len(texts) {
					c.fail("large-export", "GET %s%s: status %d, %d of %d records, %v", path, format, st, len(got), len(texts), err)
					return
				}
				for i, x := range got {
					d, _ := x.Data.(map[string]interface{})
					if d["x"] != texts[i] || x.GlobalSequenceNumber != uint64(i+1) || x.StreamSequenceNumber != uint64(i+1) {
						c.fail("large-export", "GET %s%s: record %d is %s", path, format, i, clip(env.RecString(x)))
						return
					}
				}
				t.Count("large_exports", 1)
				t.Tick()
			}
		}
		t.Distinct(fmt.Sprint("large", kind, n, huge))
	}
}

// vastExport passes more bytes than any buffer holds from a writer to a reader.
func vastExport(total int) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		var bodies []string
		for i := 0; i < 5; i++ {
			bodies = append(bodies, largeText(r, 1+r.Intn(600<<10)))
		}
		bodies = append(bodies, largeText(r, 20<<20))
		n := 0
		for sum := 0; sum < total; n++ {
			sum += len(bodies[pick(n, len(bodies))])
		}
		for _, format := range formats {
			format := format
			fail := func(key, f string, a ...interface{}) {
				t.Fail(name, key, "[%s, %d records, %d MB] %s", format, n, total>>20, fmt.Sprintf(f, a...))
			}
			rec := func(i int) *rangedb.Record {
				return &rangedb.Record{StreamName: "a!1", AggregateType: "a", AggregateID: "1", GlobalSequenceNumber: uint64(i + 1), StreamSequenceNumber: uint64(i + 1),
					InsertTimestamp: uint64(i), EventID: fmt.Sprint(i), EventType: "VerifA", Data: &env.EvA{T: "a", ID: "1", UID: fmt.Sprint(i), Payload: bodies[pick(i, len(bodies))]}}
			}
			ch := make(chan rangedb.ResultRecord)
			stop := make(chan struct{})
			go func() {
				defer close(ch)
				for i := 0; i < n; i++ {
					select {
					case ch <- rangedb.ResultRecord{Record: rec(i)}:
						t.Tick()
					case <-stop:
						return
					}
				}
			}()
			pr, pw := io.Pipe()
			wrote := make(chan []error, 1)
			go func() {
				errs := drainErrors(plainStream(format).Write(pw, rangedb.NewRecordIterator(ch)))
				_ = pw.Close()
				wrote <- errs
			}()
			s := plainStream(format)
			s.Bind(&env.EvA{})
			it := s.Read(pr)
			i := 0
			ok := within(t, name, format+" Read", 4*opLimit, func() {
				for it.Next() {
					t.Tick()
					if got, want := env.RecString(it.Record()), env.RecString(rec(i)); got != want {
						fail("not-equal", "record %d: wrote %s\n   read %s", i, clip(want), clip(got))
						i = -1
						return
					}
					i++
				}
			})
			close(stop)
			_ = pr.Close()
			if !ok || i < 0 {
				return
			}
			if it.Err() != nil || i != n {
				fail("read-error", "%d of %d records, %v", i, n, it.Err())
				return
			}
			if errs := <-wrote; len(errs) > 0 {
				fail("write-error", "%v", errs)
				return
			}
			t.Count("vast_exports_mb", total>>20)
		}
		t.Distinct(fmt.Sprint("vast", n))
	}
}

func pick(i, n int) int {
	if i == 40 || i == 41 {
		return n - 1
	}
	return i % (n - 1)
}
