package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"github.com/inklabs/rangedb/provider/remotestore"
	"google.golang.org/grpc"
	"rangedbverif/core"
	"rangedbverif/env"
)

// relayWriter saves faster than clients that stopped reading can be given up, one after the other.
type relayWriter struct {
	t     *core.T
	name  string
	store rangedb.Store
	r     *rand.Rand
	n     int
}

func (w *relayWriter) save(k int) bool {
	ty := []string{"a", "b"}[w.r.Intn(2)]
	var b []*rangedb.EventRecord
	for j := 0; j < k; j++ {
		w.n++
		b = append(b, &rangedb.EventRecord{Event: &env.EvU{T: ty, ID: "z", UID: fmt.Sprintf("u%d", w.n), Payload: strings.Repeat("p", 200+w.r.Intn(200))}})
	}
	var err error
	if !within(w.t, w.name, "a save next to clients that stopped reading", opLimit, func() { _, err = w.store.Save(context.Background(), ty+"!z", b...) }) {
		return false
	}
	if err != nil {
		w.t.Fail(w.name, "save", "save: %v", err)
		return false
	}
	return true
}

// burst saves n events without waiting for anybody.
func (w *relayWriter) burst(n int) bool {
	for n > 0 {
		k := 1 + w.r.Intn(40)
		if k > n {
			k = n
		}
		if !w.save(k) {
			return false
		}
		n -= k
	}
	return true
}

// relayGap compares what was received with the run of numbers that starts at the first one.
func relayGap(nums []uint64) string {
	for i := 1; i < len(nums); i++ {
		if nums[i] != nums[i-1]+1 {
			return fmt.Sprintf("%d was followed by %d", nums[i-1], nums[i])
		}
	}
	return ""
}

type numList struct {
	mu   sync.Mutex
	nums []uint64
	end  error
}

func (l *numList) add(n uint64) {
	l.mu.Lock()
	l.nums = append(l.nums, n)
	l.mu.Unlock()
}

func (l *numList) stop(err error) {
	l.mu.Lock()
	l.end = err
	l.mu.Unlock()
}

func (l *numList) get() ([]uint64, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]uint64{}, l.nums...), l.end
}

func (l *numList) until(n uint64, d time.Duration) bool {
	return env.WaitUntil(d, func() bool {
		nums, end := l.get()
		return end != nil || len(nums) > 0 && nums[len(nums)-1] >= n
	})
}

// judge: a reading client has everything, in order, or was told that it has not.
func (l *numList) judge(what string, first, last uint64, fail func(key, f string, a ...interface{})) bool {
	reached := l.until(last, 30*time.Second)
	nums, end := l.get()
	if gap := relayGap(nums); gap != "" {
		fail("gap", "%s: %s", what, gap)
		return false
	}
	if len(nums) > 0 && nums[0] != first {
		fail("gap", "%s began with %d instead of %d", what, nums[0], first)
		return false
	}
	if !reached {
		fail("starved", "%s received %d events, the last of them not %d, and its stream did not end", what, len(nums), last)
		return false
	}
	if end != nil && end.Error() == "EOF" {
		fail("not-told", "%s lost events and its stream ended as if it were complete", what)
		return false
	}
	return true
}

func recvAll(s rpcSub) *numList {
	l := &numList{}
	go func() {
		for {
			m, err := s.Recv()
			if err != nil {
				l.stop(err)
				return
			}
			l.add(m.GlobalSequenceNumber)
		}
	}()
	return l
}

// c08Relay: clients that stop reading at different moments of a burst silence neither the
// server (whose own subscription feeds everybody) nor a remote store that feeds its own subscribers.
func c08Relay(t *core.T, name, kind string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		g := env.Open(kind)
		ctx, cancel := context.WithCancel(context.Background())
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[relay %s] %s", kind, fmt.Sprintf(f, a...)) }
		rs, err := rangedbserver.New(rangedbserver.WithStore(g.Store))
		if err != nil {
			fail("new", "%v", err)
			return
		}
		_, dial0, shut := serveGRPC(func(s *grpc.Server) { rangedbpb.RegisterRangeDBServer(s, rs) },
			grpc.InitialWindowSize(65535), grpc.InitialConnWindowSize(65535))
		block := make(chan struct{})
		var conns []*grpc.ClientConn
		defer func() {
			cancel()
			close(block)
			for _, c := range conns {
				_ = c.Close()
			}
			_ = rs.Stop()
			shut()
			g.Close()
		}()
		dial := func() rangedbpb.RangeDBClient {
			c, err := dial0()
			if err != nil {
				fail("dial", "%v", err)
				return nil
			}
			conns = append(conns, c)
			return rangedbpb.NewRangeDBClient(c)
		}
		if dial() == nil {
			return
		}
		remote, err := remotestore.New(conns[0])
		if err != nil {
			fail("remote", "%v", err)
			return
		}
		remote.Bind(&env.EvU{})
		w := &relayWriter{t: t, name: name, store: g.Store, r: r}
		total := 1200 + r.Intn(1500)
		// subscribers of the remote store in this process, with room for everything
		var inProcess []*env.Recorder
		for i := 0; i < 1+r.Intn(3); i++ {
			rec := env.NewRecorder()
			if err := remote.AllEventsSubscription(ctx, total+200, rec).Start(); err != nil {
				fail("subscribe", "Start: %v", err)
				return
			}
			inProcess = append(inProcess, rec)
		}
		direct := env.NewRecorder()
		if err := g.Store.AllEventsSubscription(ctx, total+200, direct).Start(); err != nil {
			fail("subscribe", "Start: %v", err)
			return
		}
		// clients that read, each on its own connection
		var reading []*numList
		for i := 0; i < 1+r.Intn(2); i++ {
			c := dial()
			if c == nil {
				return
			}
			s, err := c.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{})
			if err != nil {
				fail("subscribe", "%v", err)
				return
			}
			reading = append(reading, recvAll(s))
		}
		// clients and subscribers that stop, at different moments
		raw, local := r.Intn(6), r.Intn(6)
		if raw+local < 2 {
			raw = 2
		}
		plan := r.Perm(raw + local)
		for _, k := range plan {
			if k < raw {
				c := dial()
				if c == nil {
					return
				}
				s, err := c.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: uint64(w.n) + 1})
				if err != nil {
					fail("subscribe", "%v", err)
					return
				}
				_ = s
				time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
			} else {
				stuck := rangedb.RecordSubscriberFunc(func(*rangedb.Record) { <-block })
				if err := remote.AllEventsSubscription(ctx, 1+r.Intn(60), stuck).Start(); err != nil {
					fail("subscribe", "Start: %v", err)
					return
				}
			}
			if r.Intn(3) > 0 && !w.save(1+r.Intn(3)) {
				return
			}
		}
		if !w.burst(total) {
			return
		}
		last := uint64(w.n)
		if !direct.WaitLen(w.n, 30*time.Second) {
			fail("starved", "a subscriber of the store received %d of %d events", direct.Len(), w.n)
			return
		}
		for i, rec := range inProcess {
			if !rec.WaitLen(w.n, 30*time.Second) {
				fail("starved", "subscriber %d of the remote store, which reads, received %d of %d events next to %d stopped clients and %d stopped subscribers", i, rec.Len(), w.n, raw, local)
				return
			}
			var nums []uint64
			for _, x := range rec.Records() {
				nums = append(nums, x.GlobalSequenceNumber)
			}
			if gap := relayGap(nums); gap != "" || nums[0] != 1 {
				fail("gap", "subscriber %d of the remote store began with %d: %s", i, nums[0], gap)
				return
			}
		}
		told := 0
		for i, l := range reading {
			if !l.judge(fmt.Sprintf("client %d, which reads, next to %d stopped clients,", i, raw), 1, last, fail) {
				return
			}
			if _, end := l.get(); end != nil {
				told++
			}
		}
		// whoever comes now is served
		late := env.NewRecorder()
		if err := remote.AllEventsSubscription(ctx, 100, late).Start(); err != nil {
			fail("late", "Start: %v", err)
			return
		}
		c := dial()
		if c == nil {
			return
		}
		live, err := c.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
		if err == nil {
			_, err = live.Header()
		}
		if err != nil {
			fail("late", "%v", err)
			return
		}
		l := recvAll(live)
		if !w.save(1) {
			return
		}
		if !l.until(uint64(w.n), 30*time.Second) {
			fail("deaf", "a client that came after the burst (%d clients had stopped) did not receive the next event", raw)
			return
		}
		if !late.WaitLen(1, 30*time.Second) {
			fail("deaf", "a subscriber of the remote store that came after the burst did not receive the next event")
			return
		}
		t.Count("relay_events", w.n)
		t.Count("relay_clients_stopped", raw+local)
		t.Count("relay_reading_clients_dropped_and_told", told)
		t.Distinct(fmt.Sprintf("relay/%d/%d/%d/%d", raw, local, total/300, told))
		t.Eval()
	})
}

// c15Relay: the same for WebSocket clients.
func c15Relay(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[relay %s] %s", kind, fmt.Sprintf(f, a...)) }
	api, err := rangedbws.New(rangedbws.WithStore(g.Store), rangedbws.WithLogger(discardLogger))
	if err != nil {
		fail("api", "New: %v", err)
		return
	}
	srv := newWSServer(api, []int{256, 4096}[r.Intn(2)])
	var clients []*wsClient
	defer func() {
		api.Stop()
		for _, c := range clients {
			_ = c.conn.Close()
		}
		srv.close()
		g.Close()
	}()
	w := &relayWriter{t: t, name: name, store: g.Store, r: r}
	join := func(from int) *wsClient {
		c := &wsClient{subPlan: subPlan{id: fmt.Sprintf("client%d", len(clients)), rec: env.NewRecorder()}}
		c.from = uint64(from)
		if !within(t, name, "connecting", opLimit, func() { c.conn, _, err = srv.dial.Dial(srv.base+wsPath(nil, c.from, false), nil) }) {
			return nil
		}
		if err != nil {
			fail("connect", "%v", err)
			return nil
		}
		clients = append(clients, c)
		return c
	}
	var reading []*wsClient
	for i := 0; i < 1+r.Intn(3); i++ {
		c := join(1)
		if c == nil {
			return
		}
		go c.read(decodeWS)
		reading = append(reading, c)
	}
	stuck := 2 + r.Intn(6)
	for i := 0; i < stuck; i++ {
		if join(w.n+1) == nil {
			return
		}
		time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		if !w.save(1 + r.Intn(3)) {
			return
		}
	}
	if !w.burst(400 + r.Intn(600)) {
		return
	}
	told := 0
	for _, c := range reading {
		ok := env.WaitUntil(40*time.Second, func() bool { return c.rec.Len() >= w.n || c.end.Load() != nil })
		var nums []uint64
		for _, x := range c.rec.Records() {
			nums = append(nums, x.GlobalSequenceNumber)
		}
		if gap := relayGap(nums); gap != "" || len(nums) > 0 && nums[0] != 1 {
			fail("gap", "%s, which reads, received %v", c.id, nums)
			return
		}
		if !ok {
			fail("starved", "%s, which reads, received %d of %d events next to %d stopped clients, and its connection stays open", c.id, len(nums), w.n, stuck)
			return
		}
		if c.end.Load() != nil {
			told++
		}
	}
	late := join(0)
	if late == nil {
		return
	}
	go late.read(decodeWS)
	if !env.WaitUntil(40*time.Second, func() bool { return late.rec.Len() >= w.n || late.end.Load() != nil }) {
		fail("late", "a client that came after the burst received %d of the %d stored events", late.rec.Len(), w.n)
		return
	}
	time.Sleep(20 * time.Millisecond) // the hand-over to live events
	if !w.save(1) {
		return
	}
	if !env.WaitUntil(40*time.Second, func() bool { return late.rec.Len() >= w.n || late.end.Load() != nil }) {
		fail("deaf", "a client that came after the burst (%d clients had stopped) did not receive the next event", stuck)
		return
	}
	t.Count("relay_events", w.n)
	t.Count("relay_clients_stopped", stuck)
	t.Count("relay_reading_clients_dropped_and_told", told)
	t.Distinct(fmt.Sprintf("relay/%d/%d/%d", stuck, w.n/100, told))
	t.Tick()
}
