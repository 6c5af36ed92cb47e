package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"github.com/inklabs/rangedb/pkg/rangedbws"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C15"] = c15 }

func c15(t *core.T) {
	t.SetRule("WebSocket clients (real connections over TCP and over small in-memory pipes) join the event API at random moments, from random numbers, for all events or sets of types, while writers save, some saves fail, other clients disconnect abruptly or stop reading, and malformed requests arrive; offline checker: each reading client received exactly the matching part of the final view. Long histories and long silences included, and bursts during which several clients stop reading at different moments: those that read get everything or the end of their connection, later ones are served. Clients that stall for a while get a gap-free part and, if not everything, the end of their connection. Clients of the live pages are checked for each event of their type from some point on, each once, in order, with its running total. Non-trivial: the client joined while events existed or were being written; distinct by join point and delivered sequence")
	j := &jobs{t: t}
	ij := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "remote-mem-json"} {
		kind := k
		ij.add(1, "idle-"+kind, func(t *core.T, name string, r *rand.Rand) {
			idleWS(t, name, kind, r, time.Duration(t.N(33, 130))*time.Second)
		})
	}
	var idle sync.WaitGroup
	idle.Add(1)
	go func() {
		defer idle.Done()
		ij.run(len(ij.list))
	}()
	defer idle.Wait()
	for _, kind := range []string{"mem-json", "ldb-msgpack"} {
		j.add(t.N(1, 20), "large-"+kind, largeWS(largeHistory(t.N(4000, 12000)), kind))
		j.add(t.N(1, 20), "wide-"+kind, largeWS(wideHistory(t.N(600, 3000), t.N(70, 120)), kind))
	}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "enc-mem-json", "remote-mem-json", "pgnotify"} {
		kind := k
		j.add(t.N(30, 700), "api-"+kind, func(t *core.T, name string, r *rand.Rand) { c15API(t, name, kind, r) })
		j.add(t.N(12, 300), "live-"+kind, func(t *core.T, name string, r *rand.Rand) { c15Live(t, name, kind, r) })
	}
	j.add(t.N(120, 3000), "malformed", c15Malformed)
	j.add(t.N(12, 250), "types", c15Types)
	for _, k := range []string{"mem-json", "ldb-msgpack"} {
		kind := k
		j.add(t.N(8, 150), "stall-"+kind, func(t *core.T, name string, r *rand.Rand) { c15Stall(t, name, kind, r) })
		j.add(t.N(6, 120), "relay-"+kind, func(t *core.T, name string, r *rand.Rand) { c15Relay(t, name, kind, r) })
	}
	j.run(6)
}

// wsRecord is a record as a client of the API reads it.
type wsRecord struct {
	StreamName           string          `json:"streamName"`
	AggregateType        string          `json:"aggregateType"`
	AggregateID          string          `json:"aggregateID"`
	GlobalSequenceNumber uint64          `json:"globalSequenceNumber"`
	StreamSequenceNumber uint64          `json:"streamSequenceNumber"`
	InsertTimestamp      uint64          `json:"insertTimestamp"`
	EventID              string          `json:"eventID"`
	EventType            string          `json:"eventType"`
	Data                 json.RawMessage `json:"data"`
	Metadata             interface{}     `json:"metadata"`
}

func useNumber(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

func (w wsRecord) record() (*rangedb.Record, error) {
	rec := &rangedb.Record{StreamName: w.StreamName, AggregateType: w.AggregateType, AggregateID: w.AggregateID,
		GlobalSequenceNumber: w.GlobalSequenceNumber, StreamSequenceNumber: w.StreamSequenceNumber,
		InsertTimestamp: w.InsertTimestamp, EventID: w.EventID, EventType: w.EventType, Metadata: w.Metadata}
	var err error
	switch w.EventType {
	case "VerifA":
		e := &env.EvA{}
		err = useNumber(w.Data, e)
		rec.Data = e
	case "VerifB":
		e := &env.EvB{}
		err = useNumber(w.Data, e)
		rec.Data = e
	default:
		var e interface{}
		err = useNumber(w.Data, &e)
		rec.Data = e
	}
	return rec, err
}

// wsServer is an HTTP server on TCP or on in-memory pipes.
type wsServer struct {
	srv  *httptest.Server
	dial websocket.Dialer
	base string
}

func newWSServer(h http.Handler, pipe int) *wsServer {
	s := &wsServer{srv: httptest.NewUnstartedServer(h)}
	s.srv.Config.ErrorLog = discardLogger
	s.dial = websocket.Dialer{HandshakeTimeout: opLimit}
	if pipe > 0 {
		lis := bufconn.Listen(pipe)
		_ = s.srv.Listener.Close()
		s.srv.Listener = lis
		s.dial.NetDial = func(string, string) (net.Conn, error) { return lis.Dial() }
	}
	s.srv.Start()
	s.base = "ws://" + s.srv.Listener.Addr().String()
	if pipe > 0 {
		s.base = "ws://pipe"
	}
	return s
}

func (s *wsServer) close() {
	s.srv.CloseClientConnections()
	done := make(chan struct{})
	go func() { s.srv.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
}

func wsPath(types []string, from uint64, explicit bool) string {
	p := "/events"
	if types != nil {
		var esc []string
		for _, x := range types {
			esc = append(esc, url.PathEscape(x))
		}
		p += "/" + strings.Join(esc, ",")
	}
	if from > 0 || explicit {
		p += fmt.Sprintf("?global-sequence-number=%d", from)
	}
	return p
}

// wsClient reads every message into its recorder.
type wsClient struct {
	subPlan
	conn *websocket.Conn
	end  atomic.Value
}

func (c *wsClient) read(decode func([]byte) (*rangedb.Record, error)) {
	for {
		kind, m, err := c.conn.ReadMessage()
		if err != nil {
			c.end.Store("connection ended: " + err.Error())
			return
		}
		if kind != websocket.TextMessage {
			c.end.Store(fmt.Sprintf("message of kind %d", kind))
			return
		}
		rec, err := decode(m)
		if err != nil {
			c.end.Store(fmt.Sprintf("undecodable message %q: %v", clip(string(m)), err))
			return
		}
		c.rec.Accept(rec)
	}
}

func decodeWS(m []byte) (*rangedb.Record, error) {
	var w wsRecord
	if err := useNumber(m, &w); err != nil {
		return nil, err
	}
	return w.record()
}

// c15Writer saves batches and keeps at most lag events outstanding at the clients.
type c15Writer struct {
	t       *core.T
	name    string
	g       *env.Target
	types   []string
	fail    func(string, string, ...interface{})
	mu      sync.Mutex
	clients []*wsClient
	saved   int64
	bad     int32
	lag     int
}

func (w *c15Writer) join(c *wsClient) {
	w.mu.Lock()
	w.clients = append(w.clients, c)
	w.mu.Unlock()
}

func (w *c15Writer) pace(sentinel *env.Recorder) {
	n := int(atomic.LoadInt64(&w.saved)) - w.lag
	if n <= 0 {
		return
	}
	if !sentinel.WaitLen(n, 20*time.Second) {
		w.fail("client-missing", "a reading client of all events received %d of %d events", sentinel.Len(), w.saved)
		atomic.StoreInt32(&w.bad, 1)
		return
	}
	recs := sentinel.Records()[:n]
	w.mu.Lock()
	cs := append([]*wsClient{}, w.clients...)
	w.mu.Unlock()
	for _, c := range cs {
		k := 0
		for _, x := range recs {
			if x.GlobalSequenceNumber >= c.from && c.match(x.AggregateType) {
				k++
			}
		}
		if !env.WaitUntil(20*time.Second, func() bool { return c.rec.Len() >= k || c.end.Load() != nil }) {
			w.fail("client-missing", "%s: a reading client received %d of at least %d events", &c.subPlan, c.rec.Len(), k)
			atomic.StoreInt32(&w.bad, 1)
			return
		}
	}
}

func (w *c15Writer) save(ctx context.Context, id string, i int, r *rand.Rand) {
	ty := w.types[r.Intn(len(w.types))]
	stream := rangedb.GetStream(ty, fmt.Sprint(r.Intn(3)))
	k := 1 + r.Intn(3)
	var b []*rangedb.EventRecord
	for j := 0; j < k; j++ {
		u := fmt.Sprintf("%s-%d-%d", id, i, j)
		b = append(b, &rangedb.EventRecord{Event: env.MakeEvent(r, ty, stream, u, r.Intn(3) == 0), Metadata: env.RandMeta(r)})
	}
	if r.Intn(8) == 0 {
		b[r.Intn(k)].Event = &env.EvFail{T: ty, ID: stream}
		if _, err := w.g.Store.Save(ctx, stream, b...); err == nil {
			w.fail("bad-batch-accepted", "a batch with an unserializable event was accepted")
			atomic.StoreInt32(&w.bad, 1)
		}
		return
	}
	var err error
	if !within(w.t, w.name, "a save while WebSocket clients stall", opLimit, func() { _, err = w.g.Store.Save(ctx, stream, b...) }) {
		atomic.StoreInt32(&w.bad, 1)
		return
	}
	if err != nil {
		w.fail("save", "save: %v", err)
		atomic.StoreInt32(&w.bad, 1)
		return
	}
	atomic.AddInt64(&w.saved, int64(k))
	w.t.Tick()
}

func c15API(t *core.T, name, kind string, r0 *rand.Rand) {
	g := env.Open(kind)
	ctx, cancel := context.WithCancel(context.Background())
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	w := &c15Writer{t: t, name: name, g: g, types: []string{"a", "b", "c!d", "ab", "Ünit", "x y"}[:2+r0.Intn(5)], fail: fail, lag: 3 + r0.Intn(6)}
	g.Clock.SetJitter(env.RandomJitter(r0.Int63(), time.Duration(1+r0.Intn(100))*time.Microsecond))
	sentinel := &wsClient{subPlan: subPlan{id: "first client", rec: env.NewRecorder()}}
	// history before the API exists
	for i := 0; i < r0.Intn(10); i++ {
		w.save(ctx, "h", i, r0)
	}
	api, err := rangedbws.New(rangedbws.WithStore(g.Store), rangedbws.WithLogger(discardLogger))
	if err != nil {
		fail("api", "New: %v", err)
		return
	}
	pipe := []int{0, 256, 4096, 1 << 16}[r0.Intn(4)]
	srv := newWSServer(api, pipe)
	var conns []*websocket.Conn
	defer func() {
		cancel()
		api.Stop()
		for _, c := range conns {
			_ = c.Close()
		}
		srv.close()
		g.Close()
	}()
	dial := func(p *subPlan, explicit bool) (*websocket.Conn, bool) {
		var c *websocket.Conn
		var err error
		var resp *http.Response
		if !within(t, name, "connecting", opLimit, func() { c, resp, err = srv.dial.Dial(srv.base+wsPath(p.types, p.from, explicit), nil) }) {
			return nil, false
		}
		if err != nil {
			code := 0
			if resp != nil {
				code = resp.StatusCode
			}
			fail("connect", "%s: %v (%d)", p, err, code)
			atomic.StoreInt32(&w.bad, 1)
			return nil, false
		}
		w.mu.Lock()
		conns = append(conns, c)
		w.mu.Unlock()
		return c, true
	}
	var ok bool
	if sentinel.conn, ok = dial(&sentinel.subPlan, false); !ok {
		return
	}
	go sentinel.read(decodeWS)
	for i := 0; i < r0.Intn(10); i++ {
		w.save(ctx, "g", i, r0)
		w.pace(sentinel.rec)
	}
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		r := t.Rand(fmt.Sprintf("%s/w%d", name, k))
		n := 10 + r.Intn(20)
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < n && atomic.LoadInt32(&w.bad) == 0; i++ {
				w.save(ctx, fmt.Sprintf("w%d", k), i, r)
				w.pace(sentinel.rec)
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
				}
			}
		}(k)
	}
	for k := 0; k < 1+r0.Intn(4); k++ {
		r := t.Rand(fmt.Sprintf("%s/s%d", name, k))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			time.Sleep(time.Duration(r.Intn(6000)) * time.Microsecond)
			c := &wsClient{subPlan: subPlan{id: fmt.Sprintf("client%d", k), rec: env.NewRecorder()}}
			if r.Intn(2) == 0 {
				for i := 0; i < 1+r.Intn(3); i++ {
					c.types = append(c.types, w.types[r.Intn(len(w.types))])
				}
			}
			cur := uint64(atomic.LoadInt64(&w.saved))
			c.joined = cur
			switch r.Intn(6) {
			case 0:
				c.from = 1
			case 1:
				c.from = cur + uint64(r.Intn(15))
			case 2, 3:
				c.from = uint64(r.Int63n(int64(cur) + 1))
			case 4:
				c.from = cur
			}
			if r.Intn(3) == 0 {
				jit := env.RandomJitter(r.Int63(), 150*time.Microsecond)
				c.rec.OnRec = func(int, *rangedb.Record) { jit() }
			}
			var ok bool
			if c.conn, ok = dial(&c.subPlan, r.Intn(2) == 0); !ok {
				return
			}
			go c.read(decodeWS)
			w.join(c)
			for i := 0; i < r.Intn(4); i++ {
				_ = c.conn.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(time.Second))
			}
		}(k)
	}
	hostile := 0
	for k := 0; k < r0.Intn(4); k++ {
		r := t.Rand(fmt.Sprintf("%s/h%d", name, k))
		hostile++
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
			p := &subPlan{id: "hostile"}
			if r.Intn(2) == 0 {
				p.types = []string{w.types[r.Intn(len(w.types))]}
			}
			c, ok := dial(p, false)
			if !ok {
				return
			}
			switch r.Intn(5) {
			case 0: // never reads
				t.Count("stalled_clients", 1)
			case 1: // reads some, then stalls
				for i := 0; i < 1+r.Intn(3); i++ {
					_ = c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
					_, _, _ = c.ReadMessage()
				}
				t.Count("stalled_clients", 1)
			case 2: // leaves abruptly
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				_ = c.UnderlyingConn().Close()
				t.Count("cut_clients", 1)
			case 3: // leaves in order
				_ = c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, "bye"), time.Now().Add(time.Second))
				t.Count("closed_clients", 1)
			case 4: // sends garbage
				_, _ = c.UnderlyingConn().Write([]byte{0xff, 0xff, 0x13, 0x37})
				t.Count("garbage_clients", 1)
			}
		}()
	}
	wg.Wait()
	if atomic.LoadInt32(&w.bad) != 0 {
		return
	}
	final, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil || int64(len(final)) != w.saved {
		fail("final", "final view holds %d events (%v), expected %d", len(final), err, w.saved)
		return
	}
	for _, c := range append(w.clients, sentinel) {
		var want []*rangedb.Record
		for _, x := range final {
			if x.GlobalSequenceNumber >= c.from && c.match(x.AggregateType) {
				want = append(want, x)
			}
		}
		env.WaitUntil(15*time.Second, func() bool { return c.rec.Len() >= len(want) || c.end.Load() != nil })
		time.Sleep(300 * time.Microsecond)
		got, wantS := c.rec.Strings(), env.Strings(want)
		end, _ := c.end.Load().(string)
		if d := env.Diff(got, wantS); d != "" {
			fail("delivery", "%s: the messages differ from the stored events %s\n%s\ndelivered: %v\nstored: %v", &c.subPlan, d, end, short(got), short(wantS))
			return
		}
		if end != "" {
			fail("connection-ended", "%s: the connection of a client that keeps reading ended: %s", &c.subPlan, end)
			return
		}
		t.Count("messages_checked", len(got))
		t.Count("clients", 1)
		if c.joined > 0 || len(got) > 0 {
			t.Distinct(fmt.Sprintf("%s/%v/%d/%d/%d/%d/%d", kind, c.types, c.from, len(got), c.joined, hostile, pipe))
		}
	}
	if t.Counter("clients") < 30 {
		t.Sample(map[string]interface{}{"case": name, "clients": len(w.clients) + 1, "hostile": hostile, "events": len(final), "pipe": pipe})
	}
}

// c15Stall: clients that stop reading for a while. Each got a part of what it
// asked for without a gap, and either all of it or the end of its connection;
// also when the API is stopped.
func c15Stall(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	ctx, cancel := context.WithCancel(context.Background())
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	api, err := rangedbws.New(rangedbws.WithStore(g.Store), rangedbws.WithLogger(discardLogger))
	if err != nil {
		fail("api", "New: %v", err)
		return
	}
	srv := newWSServer(api, []int{256, 4096}[r.Intn(2)])
	var once sync.Once
	stopAPI := func() { once.Do(api.Stop) }
	types := []string{"a", "b", "c"}
	n := 0
	save := func(ty string, size int) bool {
		n++
		ev := &env.EvU{T: ty, ID: "z", UID: fmt.Sprintf("u%d", n), Payload: strings.Repeat("p", size)}
		if !within(t, name, "saving while clients stall", opLimit, func() { _, err = g.Store.Save(ctx, ty+"!z", &rangedb.EventRecord{Event: ev}) }) {
			return false
		}
		if err != nil {
			fail("save", "%v", err)
			return false
		}
		return true
	}
	var clients []*wsClient
	defer func() {
		cancel()
		stopAPI()
		for _, c := range clients {
			_ = c.conn.Close()
		}
		srv.close()
		g.Close()
	}()
	for i := 0; i < r.Intn(5); i++ {
		if !save(types[r.Intn(3)], 10) {
			return
		}
	}
	scopes := [][]string{nil, {"a"}, {"a", "b"}, {"c", "a"}}
	r.Shuffle(len(scopes), func(i, j int) { scopes[i], scopes[j] = scopes[j], scopes[i] })
	for k, sc := range append([][]string{nil}, scopes...) {
		c := &wsClient{subPlan: subPlan{id: fmt.Sprintf("client%d", k), types: sc, rec: env.NewRecorder()}}
		if k > 0 && r.Intn(2) == 0 {
			c.from = uint64(r.Intn(n + 2))
		}
		c.joined = uint64(n)
		if !within(t, name, "connecting", opLimit, func() { c.conn, _, err = srv.dial.Dial(srv.base+wsPath(c.types, c.from, false), nil) }) {
			return
		}
		if err != nil {
			fail("connect", "%s: %v", &c.subPlan, err)
			return
		}
		clients = append(clients, c)
	}
	resume := make(chan struct{})
	for k, c := range clients {
		c := c
		after := r.Intn(4)
		go func() {
			if k > 0 {
				for i := 0; i < after; i++ {
					_, m, err := c.conn.ReadMessage()
					if err != nil {
						c.end.Store("connection ended: " + err.Error())
						return
					}
					rec, err := decodeWS(m)
					if err != nil {
						c.end.Store("undecodable message: " + err.Error())
						return
					}
					c.rec.Accept(rec)
				}
				<-resume
			}
			c.read(decodeWS)
		}()
	}
	time.Sleep(time.Duration(20+r.Intn(30)) * time.Millisecond)
	size := []int{10, 3000}[r.Intn(2)]
	lots := 5 + r.Intn(60)
	for i := 0; i < lots; i++ {
		if !save(types[r.Intn(3)], size) {
			return
		}
		if i%8 == 7 {
			clients[0].rec.WaitLen(n-4, 15*time.Second)
		}
	}
	time.Sleep(time.Duration(r.Intn(250)) * time.Millisecond)
	close(resume)
	for i := 0; i < 3; i++ {
		for _, ty := range types {
			if !save(ty, 10) {
				return
			}
		}
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
	final, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil || len(final) != n {
		fail("final", "final view holds %d events (%v), expected %d", len(final), err, n)
		return
	}
	dropped := 0
	for k, c := range clients {
		var want []string
		for _, x := range final {
			if x.GlobalSequenceNumber >= c.from && c.match(x.AggregateType) {
				want = append(want, env.RecString(x))
			}
		}
		env.WaitUntil(15*time.Second, func() bool { return c.rec.Len() >= len(want) || c.end.Load() != nil })
		time.Sleep(300 * time.Microsecond)
		got := c.rec.Strings()
		end, _ := c.end.Load().(string)
		if len(got) > len(want) {
			fail("delivery", "%s got %d messages for %d events: %v", &c.subPlan, len(got), len(want), short(got))
			return
		}
		if d := env.Diff(got, want[:len(got)]); d != "" {
			fail("delivery", "%s, which stopped reading for a while: its messages are not a gap-free part of the events %s\n%s", &c.subPlan, d, end)
			return
		}
		if len(got) < len(want) && end == "" {
			fail("silently-dropped", "%s, which stopped reading for a while, got %d of %d events, the last ones long ago, and its connection is still open", &c.subPlan, len(got), len(want))
			return
		}
		if len(got) < len(want) {
			dropped++
			if k == 0 {
				fail("disturbed", "%s reads all the time, but its connection ended after %d of %d events: %s", &c.subPlan, len(got), len(want), end)
				return
			}
		}
	}
	t.Count("dropped_and_told", dropped)
	t.Count("stalled_clients", len(clients)-1)
	stopAPI()
	for _, c := range clients {
		if !env.WaitUntil(10*time.Second, func() bool { return c.end.Load() != nil }) {
			fail("silently-dropped", "the API was stopped 10 s ago and the connection of %s is still open", &c.subPlan)
			return
		}
	}
	t.Distinct(fmt.Sprint("stall", kind, n, size, dropped))
}

// c15Live checks the live page of one type.
func c15Live(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	ctx, cancel := context.WithCancel(context.Background())
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	w := &c15Writer{t: t, name: name, g: g, types: []string{"a", "b", "c!d", "x-1"}[:2+r.Intn(3)], fail: fail, lag: 4}
	g.Clock.SetJitter(env.RandomJitter(r.Int63(), time.Duration(1+r.Intn(100))*time.Microsecond))
	stats := projection.NewAggregateTypeStats()
	seen := env.NewRecorder()
	sub := g.Store.AllEventsSubscription(ctx, 500, rangedb.RecordSubscriberFunc(func(rec *rangedb.Record) {
		stats.Accept(rec)
		seen.Accept(rec)
	}))
	if err := sub.StartFrom(0); err != nil {
		fail("subscribe", "%v", err)
		return
	}
	ui := rangedbui.New(stats, g.Store)
	srv := newWSServer(ui, []int{0, 4096}[r.Intn(2)])
	var conns []*websocket.Conn
	defer func() {
		cancel()
		sub.Stop()
		for _, c := range conns {
			_ = c.Close()
		}
		srv.close()
		g.Close()
	}()
	for i := 0; i < r.Intn(8); i++ {
		w.save(ctx, "h", i, r)
	}
	seen.WaitLen(int(w.saved), 10*time.Second)
	type live struct {
		wsClient
		mu       sync.Mutex
		totals   []uint64
		before   int // events stored when connecting began
		after    int // events stored when connected
		statsLen int
	}
	var clients []*live
	busy := r.Intn(2) == 0
	var wg sync.WaitGroup
	connect := func(k int, r *rand.Rand) {
		c := &live{wsClient: wsClient{subPlan: subPlan{id: fmt.Sprintf("live%d", k), rec: env.NewRecorder()}}}
		c.types = []string{w.types[r.Intn(len(w.types))]}
		c.before = int(atomic.LoadInt64(&w.saved))
		c.joined = uint64(c.before)
		var err error
		if !within(t, name, "connecting", opLimit, func() {
			c.conn, _, err = srv.dial.Dial(srv.base+"/live/a/"+url.PathEscape(c.types[0]), nil)
		}) {
			return
		}
		if err != nil {
			fail("connect", "%v", err)
			atomic.StoreInt32(&w.bad, 1)
			return
		}
		c.after = int(atomic.LoadInt64(&w.saved))
		w.mu.Lock()
		clients = append(clients, c)
		conns = append(conns, c.conn)
		w.mu.Unlock()
		go c.read(func(m []byte) (*rangedb.Record, error) {
			var e struct {
				Record      wsRecord
				TotalEvents uint64
			}
			if err := useNumber(m, &e); err != nil {
				return nil, err
			}
			c.mu.Lock()
			c.totals = append(c.totals, e.TotalEvents)
			c.mu.Unlock()
			return e.Record.record()
		})
	}
	// pacing by the sequence the statistics received
	pace := func() {
		seen.WaitLen(int(atomic.LoadInt64(&w.saved))-w.lag, 15*time.Second)
		time.Sleep(200 * time.Microsecond)
	}
	n := 1 + r.Intn(3)
	if busy {
		for k := 0; k < n; k++ {
			rr := t.Rand(fmt.Sprintf("%s/c%d", name, k))
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(rr.Intn(4000)) * time.Microsecond)
				connect(k, rr)
			}()
		}
	} else {
		for k := 0; k < n; k++ {
			connect(k, r)
		}
		// the handler subscribes after the handshake
		time.Sleep(time.Duration(20+r.Intn(30)) * time.Millisecond)
	}
	// visitors that stop reading, or whose connection breaks at some point
	rude := map[int]*websocket.Conn{}
	if r.Intn(2) == 0 {
		for k := 0; k < 1+r.Intn(3); k++ {
			at := []string{"/live/aggregate-types", "/live/a/" + url.PathEscape(w.types[r.Intn(len(w.types))])}[r.Intn(2)]
			c, _, err := srv.dial.Dial(srv.base+at, nil)
			if err != nil {
				fail("connect", "%v", err)
				return
			}
			w.mu.Lock()
			conns = append(conns, c)
			w.mu.Unlock()
			if r.Intn(4) != 0 {
				rude[r.Intn(12)] = c
			}
		}
	}
	for i := 0; i < 10+r.Intn(15) && atomic.LoadInt32(&w.bad) == 0; i++ {
		if c := rude[i]; c != nil {
			if tc, ok := c.UnderlyingConn().(*net.TCPConn); ok && r.Intn(2) == 0 {
				_ = tc.SetLinger(0)
			}
			_ = c.UnderlyingConn().Close()
			t.Count("live_visitors_cut", 1)
		}
		w.save(ctx, "w", i, r)
		pace()
	}
	wg.Wait()
	time.Sleep(10 * time.Millisecond)
	// events every connected client must see
	for i := 0; i < 3 && atomic.LoadInt32(&w.bad) == 0; i++ {
		for _, ty := range w.types {
			if _, err := g.Store.Save(ctx, ty+"!z", &rangedb.EventRecord{Event: env.MakeEvent(r, ty, "z", fmt.Sprintf("z%d%s", i, ty), false)}); err != nil {
				fail("save", "%v", err)
				return
			}
			atomic.AddInt64(&w.saved, 1)
		}
		pace()
	}
	if atomic.LoadInt32(&w.bad) != 0 {
		return
	}
	final, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil || int64(len(final)) != w.saved {
		fail("final", "final view holds %d events (%v), expected %d", len(final), err, w.saved)
		return
	}
	for _, c := range clients {
		var all []*rangedb.Record
		for _, x := range final {
			if c.match(x.AggregateType) {
				all = append(all, x)
			}
		}
		allS := env.Strings(all)
		last := allS[len(allS)-1]
		env.WaitUntil(15*time.Second, func() bool {
			s := c.rec.Strings()
			return c.end.Load() != nil || len(s) > 0 && s[len(s)-1] == last
		})
		time.Sleep(300 * time.Microsecond)
		got := c.rec.Strings()
		end, _ := c.end.Load().(string)
		if end != "" {
			fail("connection-ended", "%s: the connection of a reading client ended: %s", &c.subPlan, end)
			return
		}
		if len(got) > len(allS) || len(got) == 0 {
			fail("live-delivery", "%s: %d messages for %d events of its type", &c.subPlan, len(got), len(allS))
			return
		}
		want := allS[len(allS)-len(got):]
		if d := env.Diff(got, want); d != "" {
			fail("live-delivery", "%s: the messages differ from the events %s\ndelivered: %v\nstored: %v", &c.subPlan, d, short(got), short(allS))
			return
		}
		// every event saved after the connection was up must be there
		first := all[len(all)-len(got)].GlobalSequenceNumber
		for _, x := range all {
			if x.GlobalSequenceNumber > uint64(c.after) && x.GlobalSequenceNumber < first {
				if x.GlobalSequenceNumber <= uint64(c.after)+12 {
					continue // the handler may still be subscribing
				}
				fail("live-missing", "%s: event %d was saved after connecting (%d events then), the first one delivered is %d", &c.subPlan, x.GlobalSequenceNumber, c.after, first)
				return
			}
		}
		c.mu.Lock()
		totals := append([]uint64{}, c.totals...)
		c.mu.Unlock()
		repeated := false
		for i := range got {
			right := uint64(len(all) - len(got) + i + 1)
			if i == 0 && totals[0] == right+1 && first <= uint64(c.after)+12 {
				repeated = true // known: the latest event is sent again and counted again
			}
			if repeated {
				right++
			}
			if totals[i] != right {
				fail("live-total", "%s: event %d of its type was sent with total %d (messages %v)", &c.subPlan, len(all)-len(got)+i+1, totals[i], totals)
				return
			}
		}
		if repeated || first <= uint64(c.before) {
			t.Fail(name, "ui-live-latest-repeated", "[%s] %s: the event %d stored before connecting was sent again, totals %v for events %d..%d of the type", kind, &c.subPlan, first, totals, len(all)-len(got)+1, len(all))
			if first < uint64(c.before) && !busy {
				// only the latest stored event may be repeated
				fail("live-old", "%s: event %d was sent although %d events were stored before connecting", &c.subPlan, first, c.before)
			}
		}
		t.Count("live_messages_checked", len(got))
		t.Distinct(fmt.Sprintf("live/%s/%v/%d/%d/%v", kind, c.types, c.joined, len(got), busy))
	}
}

// c15Types checks the live overview of types: its last message is the truth.
func c15Types(t *core.T, name string, r *rand.Rand) {
	g := env.Open("mem-json")
	ctx, cancel := context.WithCancel(context.Background())
	stats := projection.NewAggregateTypeStats()
	seen := env.NewRecorder()
	sub := g.Store.AllEventsSubscription(ctx, 500, rangedb.RecordSubscriberFunc(func(rec *rangedb.Record) {
		stats.Accept(rec)
		seen.Accept(rec)
	}))
	if err := sub.StartFrom(0); err != nil {
		t.Fail(name, "subscribe", "%v", err)
		return
	}
	srv := newWSServer(rangedbui.New(stats, g.Store), 0)
	c, _, err := srv.dial.Dial(srv.base+"/live/aggregate-types", nil)
	if err != nil {
		t.Fail(name, "connect", "%v", err)
		return
	}
	defer func() {
		cancel()
		sub.Stop()
		_ = c.Close()
		srv.close()
		// the handler polls: let it notice
		_, _ = g.Store.Save(context.Background(), "end!end", &rangedb.EventRecord{Event: env.MakeEvent(r, "end", "end", "end", false)})
		g.Close()
	}()
	type info struct {
		Name        string
		TotalEvents uint64
	}
	type msg struct {
		AggregateTypes []info
		TotalEvents    uint64
	}
	var mu sync.Mutex
	var msgs []msg
	end := ""
	go func() {
		for {
			_, m, err := c.ReadMessage()
			var x msg
			if err == nil {
				err = json.Unmarshal(m, &x)
			}
			mu.Lock()
			if err != nil {
				end = err.Error()
				mu.Unlock()
				return
			}
			msgs = append(msgs, x)
			mu.Unlock()
		}
	}()
	want := map[string]uint64{}
	total := uint64(0)
	for i := 0; i < 3+r.Intn(12); i++ {
		ty := fmt.Sprint("t", r.Intn(4))
		k := 1 + r.Intn(3)
		if _, err := g.Store.Save(ctx, ty+"!x", simpleBatch(r, ty, "x", fmt.Sprint(i), k)...); err != nil {
			t.Fail(name, "save", "%v", err)
			return
		}
		want[ty] += uint64(k)
		total += uint64(k)
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
		seen.WaitLen(int(total)-8, 10*time.Second)
	}
	var exp []info
	for ty, k := range want {
		exp = append(exp, info{ty, k})
	}
	sort.Slice(exp, func(i, j int) bool { return exp[i].Name < exp[j].Name })
	expS := fmt.Sprint(msg{exp, total})
	ok := env.WaitUntil(15*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return end != "" || len(msgs) > 0 && fmt.Sprint(msgs[len(msgs)-1]) == expS
	})
	mu.Lock()
	defer mu.Unlock()
	if !ok || end != "" {
		t.Fail(name, "live-types", "the overview never showed %s; messages %v end %q", expS, msgs, end)
		return
	}
	prev := uint64(0)
	for _, m := range msgs {
		if m.TotalEvents < prev || m.TotalEvents > total {
			t.Fail(name, "live-types", "totals went from %d to %d (%d stored)", prev, m.TotalEvents, total)
			return
		}
		prev = m.TotalEvents
		for _, x := range m.AggregateTypes {
			if x.TotalEvents > want[x.Name] {
				t.Fail(name, "live-types", "%v: only %d events stored", x, want[x.Name])
				return
			}
		}
	}
	t.Count("overview_messages", len(msgs))
	t.Distinct("types/" + expS)
}

// c15Malformed sends requests that must be refused, next to a healthy client.
func c15Malformed(t *core.T, name string, r *rand.Rand) {
	g := env.Open("mem-json")
	defer g.Close()
	ctx := context.Background()
	api, err := rangedbws.New(rangedbws.WithStore(g.Store))
	if err != nil {
		t.Fail(name, "api", "%v", err)
		return
	}
	defer api.Stop()
	srv := newWSServer(api, 0)
	defer srv.close()
	c, _, err := srv.dial.Dial(srv.base+"/events", nil)
	if err != nil {
		t.Fail(name, "connect", "%v", err)
		return
	}
	defer c.Close()
	h := &wsClient{subPlan: subPlan{id: "healthy", rec: env.NewRecorder()}, conn: c}
	go h.read(decodeWS)
	// the live pages of the web UI refuse alike
	ui := newWSServer(rangedbui.New(projection.NewAggregateTypeStats(), g.Store), 0)
	defer ui.close()
	api1 := srv
	saved := 0
	for i := 0; i < 6; i++ {
		path := []string{"/events", "/events/a", "/events/a,b"}[r.Intn(3)]
		var what string
		var status int
		kind := r.Intn(4)
		srv := api1
		if kind != 0 && r.Intn(3) == 0 {
			srv = ui
			path = []string{"/live/a/a", "/live/a/none", "/live/aggregate-types"}[r.Intn(3)]
		}
		httpBase := "http" + strings.TrimPrefix(srv.base, "ws")
		switch kind {
		case 0: // bad number
			v := []string{"x", "-1", "1.5", "18446744073709551616", "0x10", "1e3", "%201", "1%00", "null", "1,2", "+1", "٣", "99999999999999999999999"}[r.Intn(13)]
			what = path + "?global-sequence-number=" + v
			conn, resp, err := srv.dial.Dial(srv.base+what, nil)
			if err == nil {
				_ = conn.Close()
				t.Fail(name, "malformed-accepted", "%s was accepted", what)
				return
			}
			if resp == nil {
				t.Fail(name, "malformed-answer", "%s: %v", what, err)
				return
			}
			status = resp.StatusCode
			if status != 400 {
				t.Fail(name, "malformed-answer", "%s answered %d, not 400", what, status)
				return
			}
		case 1: // no upgrade
			what = "plain GET " + path
			resp, err := http.Get(httpBase + path)
			if err != nil {
				t.Fail(name, "malformed-answer", "%s: %v", what, err)
				return
			}
			_, _ = io.Copy(io.Discard, resp.Body)
			_ = resp.Body.Close()
			status = resp.StatusCode
		case 2: // broken handshake
			req, _ := http.NewRequest([]string{"GET", "POST", "PUT"}[r.Intn(3)], httpBase+path, nil)
			hdr := map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="}
			breach := r.Intn(5)
			if srv == ui { // whose live pages may be shown elsewhere
				breach = r.Intn(4)
			}
			switch breach {
			case 0:
				delete(hdr, "Connection")
			case 1:
				delete(hdr, "Upgrade")
			case 2:
				hdr["Sec-WebSocket-Version"] = "8"
			case 3:
				delete(hdr, "Sec-WebSocket-Key")
			case 4:
				hdr["Origin"] = "http://elsewhere.example"
			}
			for k, v := range hdr {
				req.Header.Set(k, v)
			}
			what = fmt.Sprintf("%s %s %v", req.Method, path, hdr)
			resp, err := http.DefaultClient.Do(req)
			if err != nil {
				t.Fail(name, "malformed-answer", "%s: %v", what, err)
				return
			}
			_ = resp.Body.Close()
			status = resp.StatusCode
		case 3: // no such place
			what = []string{"/event", "/events/a/b", "/", "/all"}[r.Intn(4)]
			if srv == ui {
				what = []string{"/live", "/live/a", "/live/a/b/c/d", "/live/all"}[r.Intn(4)]
			}
			conn, resp, err := srv.dial.Dial(srv.base+what, nil)
			if err == nil {
				_ = conn.Close()
				t.Fail(name, "malformed-accepted", "%s was accepted", what)
				return
			}
			if resp != nil {
				status = resp.StatusCode
			}
		}
		if status < 400 || status > 499 {
			t.Fail(name, "malformed-answer", "%s answered %d", what, status)
			return
		}
		if _, err := g.Store.Save(ctx, "a!b", simpleBatch(r, "a", "b", fmt.Sprint(i), 1)...); err != nil {
			t.Fail(name, "save", "%v", err)
			return
		}
		saved++
		if !h.rec.WaitLen(saved, 15*time.Second) {
			t.Fail(name, "delivery", "after %s: a client received %d of %d events (%v)", what, h.rec.Len(), saved, h.end.Load())
			return
		}
		t.Distinct("malformed/" + what)
		t.Count("refused", 1)
		if srv == ui {
			t.Count("refused_live_pages", 1)
		}
	}
	all, _ := env.Collect(g.Store.Events(ctx, 0))
	if d := env.Diff(h.rec.Strings(), env.Strings(all)); d != "" {
		t.Fail(name, "delivery", "%s", d)
	}
}
