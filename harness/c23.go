package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/examples/chat"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/rangedbtest/bdd"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C23"] = c23 }

func c23(t *core.T) {
	t.SetRule("random commands for many instances of several aggregates are dispatched on stores of every kind, between direct saves, deletions, failing saves and restarts; recording aggregates must be loaded with exactly the stored events of the command's stream and then handle it once, the returned events must be those stored, in order, in their streams, and unknown commands must change nothing; concurrent dispatches, also from a subscriber, must return their own events only. The chat example is compared after every command and its reactions with a model of its rules, with users, rooms, warnings, bans and restarts. The given/when/then helper must accept exactly the right expectations. Non-trivial: a command that raised events; distinct by the history")
	t.Assume("concurrent commands for one instance may both be handled before either is saved: dispatching promises no optimistic concurrency")
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "remote-mem-json", "remote-ldb-msgpack"} {
		kind := k
		j.add(t.N(400, 12000), "dispatch-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Dispatch(t, name, kind, r) })
		j.add(t.N(80, 2500), "chat-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Chat(t, name, kind, r) })
		j.add(t.N(40, 1200), "concurrent-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Concurrent(t, name, kind, r) })
	}
	for _, k := range []string{"pg", "pgnotify"} {
		kind := k
		j.add(t.N(40, 1200), "dispatch-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Dispatch(t, name, kind, r) })
		j.add(t.N(10, 300), "chat-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Chat(t, name, kind, r) })
		j.add(t.N(8, 200), "concurrent-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Concurrent(t, name, kind, r) })
	}
	j.add(t.N(12, 300), "bdd", c23BDD)
	j.add(t.N(2, 20), "stale", c23Stale)
	j.add(t.N(2, 20), "failed-read", c23FailedRead)
	sj := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "remote-mem-json"} {
		kind := k
		sj.add(1, "slow-"+kind, func(t *core.T, name string, r *rand.Rand) { c23Slow(t, name, kind, r) })
	}
	done := make(chan struct{})
	go func() { defer close(done); sj.run(3) }()
	j.run(8)
	<-done
}

// order is a command of the monitor's aggregates.
type order struct {
	T, ID, Kind string
	raise       *[]rangedb.Event // behind a pointer, to keep commands comparable
	token       string
}

func (c order) AggregateID() string   { return c.ID }
func (c order) AggregateType() string { return c.T }
func (c order) CommandType() string   { return c.Kind }

// ledger is an aggregate that writes down what happens to it.
type ledger struct {
	label string
	kinds []string
	calls []string // "load" and "handle", in order
	seen  []string // records of the last load
	err   error    // how the last load ended
	last  cqrs.Command
}

func (l *ledger) CommandTypes() []string { return l.kinds }

func loadString(s uint64, st, ev, data string) string {
	return fmt.Sprintf("%q %d %s %s", st, s, ev, data)
}

func (l *ledger) Load(it rangedb.RecordIterator) {
	l.calls = append(l.calls, "load")
	l.seen = nil
	for it.Next() {
		r := it.Record()
		l.seen = append(l.seen, loadString(r.StreamSequenceNumber, r.StreamName, r.EventType, env.Canon(r.Data)))
	}
	l.err = it.Err()
}

func (l *ledger) Handle(c cqrs.Command) []rangedb.Event {
	l.calls = append(l.calls, "handle")
	l.last = c
	var o order
	switch x := c.(type) {
	case order:
		o = x
	case *order:
		o = *x
	}
	return append([]rangedb.Event(nil), *o.raise...)
}

// eventString tells two events apart.
func eventString(e rangedb.Event) string {
	return fmt.Sprintf("%s %q %q %s", e.EventType(), e.AggregateType(), e.AggregateID(), env.Canon(e))
}

func eventStrings(es []rangedb.Event) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, eventString(e))
	}
	return out
}

// failSome refuses the saves of chosen events.
type failSome struct {
	rangedb.Store
	bad map[string]bool
}

var errRefused = errors.New("verif: save refused")

func (s *failSome) Save(ctx context.Context, stream string, r ...*rangedb.EventRecord) (uint64, error) {
	for _, x := range r {
		if s.bad[env.UID(x.Event)] {
			return 0, errRefused
		}
	}
	return s.Store.Save(ctx, stream, r...)
}

func (s *failSome) OptimisticSave(ctx context.Context, n uint64, stream string, r ...*rangedb.EventRecord) (uint64, error) {
	for _, x := range r {
		if s.bad[env.UID(x.Event)] {
			return 0, errRefused
		}
	}
	return s.Store.OptimisticSave(ctx, n, stream, r...)
}

func c23Dispatch(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	defer g.Close()
	g.NoNUL(r)
	m := env.NewModel()
	ctx := context.Background()
	store := &failSome{Store: g.Store, bad: map[string]bool{}}
	var ledgers []*ledger
	var app cqrs.CommandDispatcher
	var logged *bytes.Buffer
	kinds := map[string]*ledger{}
	restart := func() {
		ledgers = nil
		kinds = map[string]*ledger{}
		var list []cqrs.Aggregate
		for i := 0; i < 1+r.Intn(3); i++ {
			l := &ledger{label: fmt.Sprint("aggregate ", i)}
			for k := r.Intn(4); k >= 0; k-- {
				c := fmt.Sprintf("Do%d-%d", i, k)
				l.kinds = append(l.kinds, c)
				kinds[c] = l
			}
			ledgers = append(ledgers, l)
			list = append(list, l)
		}
		logged = &bytes.Buffer{}
		opts := []cqrs.Option{cqrs.WithLogger(log.New(logged, "", 0))}
		if r.Intn(2) == 0 {
			opts = append(opts, cqrs.WithAggregates(list...))
		} else {
			for _, a := range list {
				opts = append(opts, cqrs.WithAggregates(a))
			}
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		app = cqrs.New(store, opts...)
	}
	restart()
	types := []string{env.RandName(r, r.Intn(3) == 0), env.RandName(r, false)}
	ids := []string{env.RandName(r, r.Intn(3) == 0), env.RandName(r, r.Intn(3) == 0), "1", "11"}
	uid := 0
	event := func(ty, id string) rangedb.Event {
		uid++
		return env.MakeEvent(r, ty, id, fmt.Sprintf("u%d", uid), true)
	}
	pick := func() (string, string) { return types[r.Intn(len(types))], ids[r.Intn(len(ids))] }
	fail := func(key, format string, args ...interface{}) { t.Fail(name, key, format, args...) }
	var story []string
	raised := 0
	for step := 0; step < 12+r.Intn(15); step++ {
		switch x := r.Intn(12); {
		case x == 0:
			restart()
			if g.CanReopen() && r.Intn(2) == 0 {
				if err := g.Reopen(); err != nil {
					fail("reopen", "reopening: %v", err)
					return
				}
				store.Store = g.Store
			}
			story = append(story, "restart")
			continue
		case x == 1:
			ty, id := pick()
			e := event(ty, id)
			rec := &rangedb.EventRecord{Event: e, Metadata: env.RandMeta(r)}
			stream := rangedb.GetEventStream(e)
			if _, err := g.Store.Save(ctx, stream, rec); err != nil {
				fail("save", "saving: %v", err)
				return
			}
			m.Append(stream, rec)
			if d := m.Learn(g.Store); d != "" {
				fail("stored", "after a save: %s", d)
				return
			}
			story = append(story, "save "+stream)
			continue
		case x == 2:
			ty, id := pick()
			stream := rangedb.GetStream(ty, id)
			if m.Len[stream] == 0 {
				continue
			}
			if err := g.Store.OptimisticDeleteStream(ctx, m.Len[stream], stream); err != nil {
				fail("delete", "deleting %q: %v", stream, err)
				return
			}
			m.Delete(stream)
			story = append(story, "delete "+stream)
			continue
		}
		ty, id := pick()
		var raise []rangedb.Event
		c := order{T: ty, ID: id, Kind: "Unknown", raise: &raise}
		if r.Intn(8) > 0 {
			l := ledgers[r.Intn(len(ledgers))]
			c.Kind = l.kinds[r.Intn(len(l.kinds))]
		}
		store.bad = map[string]bool{}
		var want []rangedb.Event
		for k := r.Intn(5); k > 0; k-- {
			e := event(ty, id)
			if r.Intn(8) == 0 {
				e = event(pick())
			}
			raise = append(raise, e)
			if r.Intn(12) == 0 {
				store.bad[env.UID(e)] = true
				continue
			}
			want = append(want, e)
		}
		var cmd cqrs.Command = c
		if r.Intn(2) == 0 {
			cmd = &c
		}
		for _, l := range ledgers {
			l.calls, l.seen, l.last, l.err = nil, nil, nil, nil
		}
		logged.Reset()
		target := kinds[c.Kind]
		var got []rangedb.Event
		if !within(t, name, "Dispatch", opLimit, func() { got = app.Dispatch(cmd) }) {
			return
		}
		stream := rangedb.GetStream(ty, id)
		story = append(story, fmt.Sprintf("dispatch %s to %q: %d events, %d stored", c.Kind, stream, len(raise), len(want)))
		tell := func() string { return "\n" + strings.Join(story, "\n") }
		t.Count("commands dispatched", 1)
		if target == nil {
			for _, l := range ledgers {
				if len(l.calls) > 0 {
					fail("unknown", "the unknown command %s reached %s: %v%s", c.Kind, l.label, l.calls, tell())
				}
			}
			if len(got) > 0 {
				fail("unknown", "the unknown command %s returned %v%s", c.Kind, got, tell())
			}
			if !strings.Contains(logged.String(), c.Kind) {
				fail("unknown-silent", "the unknown command %s was not logged: %q", c.Kind, logged.String())
			}
			want = nil
		} else {
			for _, l := range ledgers {
				if l != target && len(l.calls) > 0 {
					fail("handler", "command %s of %s also reached %s%s", c.Kind, target.label, l.label, tell())
				}
			}
			if !reflect.DeepEqual(target.calls, []string{"load", "handle"}) {
				fail("calls", "%s was called %v instead of load, handle%s", target.label, target.calls, tell())
			}
			if target.last != cmd {
				fail("command", "%s handled %v instead of %v%s", target.label, target.last, cmd, tell())
			}
			wantSeen := []string{}
			for _, x := range m.Recs {
				if x.Stream == stream {
					wantSeen = append(wantSeen, loadString(x.S, stream, x.Ev, x.Data))
				}
			}
			if d := env.Diff(target.seen, wantSeen); d != "" {
				fail("loaded", "for a command to %q the aggregate was loaded with other events than those stored: %s%s", stream, d, tell())
			}
			t.Count("events loaded", len(target.seen))
			if d := env.Diff(eventStrings(got), eventStrings(want)); d != "" {
				fail("returned", "Dispatch returned other events than those that were raised and stored: %s%s", d, tell())
			}
			if len(want) < len(raise) && !strings.Contains(logged.String(), errRefused.Error()) {
				fail("save-silent", "a failed save was not logged: %q", logged.String())
			}
		}
		for _, e := range want {
			m.Append(rangedb.GetEventStream(e), &rangedb.EventRecord{Event: e})
		}
		raised += len(want)
		if d := m.Learn(g.Store); d != "" {
			fail("stored", "after dispatching: %s%s", d, tell())
			return
		}
		if t.Failed() {
			return
		}
	}
	if d := m.CheckViews(g.Store, []string{"none"}, nil); d != "" {
		fail("stored", "%s\n%s", d, strings.Join(story, "\n"))
	}
	t.Count("events raised and stored", raised)
	if raised > 0 {
		t.Distinct(strings.Join(story, "\n"))
		t.Sample(map[string]interface{}{"store": kind, "history": story})
	}
}

// plainAggregate keeps its pending events like generated aggregates do.
type plainAggregate struct {
	pendingEvents []rangedb.Event
	loaded        []string
	bad           func(format string, args ...interface{})
}

func (a *plainAggregate) CommandTypes() []string { return []string{"Do"} }

func (a *plainAggregate) Load(it rangedb.RecordIterator) {
	a.loaded = nil
	last := uint64(0)
	for it.Next() {
		rec := it.Record()
		last++
		if rec.StreamSequenceNumber != last {
			a.bad("loading %q: event %d came as number %d", rec.StreamName, rec.StreamSequenceNumber, last)
		}
		a.loaded = append(a.loaded, rec.StreamName)
		if last%3 == 0 {
			runtime.Gosched()
		}
	}
}

func (a *plainAggregate) Handle(c cqrs.Command) []rangedb.Event {
	o := c.(order)
	stream := rangedb.GetEventStream(o)
	for _, s := range a.loaded {
		if s != stream {
			a.bad("the command for %q was handled with the events of %q", stream, s)
			break
		}
	}
	for _, e := range *o.raise {
		a.pendingEvents = append(a.pendingEvents, e)
		runtime.Gosched()
	}
	defer func() { a.pendingEvents = nil }()
	return a.pendingEvents
}

// c23Concurrent dispatches from several goroutines, and from a subscriber.
func c23Concurrent(t *core.T, name, kind string, r0 *rand.Rand) {
	g := env.Open(kind)
	defer g.Close()
	agg := &plainAggregate{bad: func(format string, args ...interface{}) { t.Fail(name, "mixed", format, args...) }}
	app := cqrs.New(g.Store, cqrs.WithAggregates(agg))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	stored := map[string][]string{} // stream: uids
	var echoes int64
	dispatch := func(ty, id, token string, n int) {
		var events []rangedb.Event
		for i := 0; i < n; i++ {
			events = append(events, &env.EvA{T: ty, ID: id, UID: fmt.Sprintf("%s/%d", token, i), Payload: "p"})
		}
		var got []rangedb.Event
		if !within(t, name, "Dispatch", opLimit, func() { got = app.Dispatch(order{T: ty, ID: id, Kind: "Do", raise: &events, token: token}) }) {
			return
		}
		if d := env.Diff(eventStrings(got), eventStrings(events)); d != "" {
			t.Fail(name, "mixed", "a command that raised %d events returned others, with commands at the same time: %s", n, d)
		}
		mu.Lock()
		for _, e := range events {
			s := rangedb.GetEventStream(e)
			stored[s] = append(stored[s], env.UID(e))
		}
		mu.Unlock()
		t.Count("commands dispatched at the same time", 1)
	}
	// The subscriber answers every root command's first event with a command of its own.
	sub := g.Store.AllEventsSubscription(ctx, 5000, rangedb.RecordSubscriberFunc(func(rec *rangedb.Record) {
		u := env.UID(rec.Data)
		if strings.HasPrefix(u, "root") && strings.HasSuffix(u, "/0") {
			dispatch("echo", rec.AggregateID, "echo-"+u, 2)
			atomic.AddInt64(&echoes, 1)
		}
	}))
	if err := sub.Start(); err != nil {
		t.Fail(name, "subscribe", "%v", err)
		return
	}
	defer sub.Stop()
	workers, per := 2+r0.Intn(4), 6+r0.Intn(10)
	var wg sync.WaitGroup
	var roots int64
	for w := 0; w < workers; w++ {
		r := rand.New(rand.NewSource(r0.Int63()))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t.Guard(name, func() {
				for i := 0; i < per; i++ {
					n := r.Intn(4)
					if n > 0 {
						atomic.AddInt64(&roots, 1)
					}
					dispatch("thing", fmt.Sprint(r.Intn(3)), fmt.Sprintf("root%d-%d", w, i), n)
				}
			})
		}(w)
	}
	wg.Wait()
	if !env.WaitUntil(opLimit, func() bool { return atomic.LoadInt64(&echoes) >= atomic.LoadInt64(&roots) }) {
		t.Fail(name, "echo", "the subscriber dispatched %d commands; %d root commands were stored\n%s", atomic.LoadInt64(&echoes), roots, relevantStacks())
		return
	}
	if t.Failed() {
		return
	}
	for s, want := range stored {
		recs, err := env.Collect(g.Store.EventsByStream(ctx, 0, s))
		if err != nil {
			t.Fail(name, "stored", "reading %q: %v", s, err)
			return
		}
		got := []string{}
		lastOf := map[string]int{}
		for _, rec := range recs {
			u := env.UID(rec.Data)
			got = append(got, u)
			i := strings.LastIndex(u, "/")
			var k int
			fmt.Sscan(u[i+1:], &k)
			if k != lastOf[u[:i]] {
				t.Fail(name, "order", "the events of command %s are stored out of order in %q: %v", u[:i], s, got)
			}
			lastOf[u[:i]] = k + 1
		}
		a, b := append([]string{}, got...), append([]string{}, want...)
		sort.Strings(a)
		sort.Strings(b)
		if d := env.Diff(a, b); d != "" {
			t.Fail(name, "stored", "stream %q does not hold the events of its commands: %s", s, d)
		}
		t.Distinct(strings.Join(got, ","))
	}
}

// slowAggregate needs a long time for everything.
type slowAggregate struct {
	pause  time.Duration
	loaded int
	tick   func()
}

func (a *slowAggregate) CommandTypes() []string { return []string{"Do"} }

func (a *slowAggregate) sleep() {
	for end := time.Now().Add(a.pause); time.Now().Before(end); {
		time.Sleep(200 * time.Millisecond)
		a.tick()
	}
}

func (a *slowAggregate) Load(it rangedb.RecordIterator) {
	a.loaded = 0
	for it.Next() {
		if a.loaded++; a.loaded == 2 {
			a.sleep()
		}
	}
}

func (a *slowAggregate) Handle(c cqrs.Command) []rangedb.Event {
	a.sleep()
	return *c.(order).raise
}

// c23Slow: commands are handled and their events stored however long that takes.
func c23Slow(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	defer g.Close()
	a := &slowAggregate{pause: 12 * time.Second, tick: func() { t.Tick() }}
	if t.Thorough() {
		a.pause = 65 * time.Second
	}
	app := cqrs.New(g.Store, cqrs.WithAggregates(a))
	var stored []string
	for i := 0; i < 2; i++ {
		var events []rangedb.Event
		for len(events) < 2+r.Intn(4) {
			events = append(events, &env.EvA{T: "thing", ID: "1", UID: fmt.Sprintf("%d/%d", i, len(events)), Payload: "p"})
		}
		var got []rangedb.Event
		if !within(t, name, "Dispatch", opLimit+3*a.pause, func() { got = app.Dispatch(order{T: "thing", ID: "1", Kind: "Do", raise: &events}) }) {
			return
		}
		if a.loaded != len(stored) {
			t.Fail(name, "slow-load", "[%s] an aggregate that pauses for %v was loaded with %d of %d events", kind, a.pause, a.loaded, len(stored))
		}
		if d := env.Diff(eventStrings(got), eventStrings(events)); d != "" {
			t.Fail(name, "slow-returned", "[%s] a command that took %v raised %d events and returned others: %s", kind, a.pause, len(events), d)
		}
		for _, e := range events {
			stored = append(stored, env.UID(e))
		}
		recs, err := env.Collect(g.Store.EventsByStream(context.Background(), 0, "thing!1"))
		var have []string
		for _, rec := range recs {
			have = append(have, env.UID(rec.Data))
		}
		if d := env.Diff(have, stored); d != "" || err != nil {
			t.Fail(name, "slow-stored", "[%s] the events of a command that took %v are not stored: %v %s", kind, a.pause, err, d)
		}
	}
	t.Count("commands that took long", 2)
	t.Distinct("slow " + strings.Join(stored, ","))
}

// ---- chat ----

// hookedStore lets the monitor see when subscribers have dealt with a record.
type hookedStore struct {
	rangedb.Store
	subs []*hookedSub
}

type hookedSub struct {
	rangedb.RecordSubscription
	done  int64
	fromZ bool
	hold  func(*rangedb.Record)
}

func (s *hookedSub) Start() error { return s.RecordSubscription.Start() }
func (s *hookedSub) StartFrom(n uint64) error {
	s.fromZ = true
	return s.RecordSubscription.StartFrom(n)
}

func (s *hookedStore) AllEventsSubscription(ctx context.Context, n int, sub rangedb.RecordSubscriber) rangedb.RecordSubscription {
	h := &hookedSub{}
	h.RecordSubscription = s.Store.AllEventsSubscription(ctx, n, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
		if h.hold != nil {
			h.hold(r)
		}
		sub.Accept(r)
		atomic.AddInt64(&h.done, 1)
	}))
	s.subs = append(s.subs, h)
	return h
}

// chatRules is the state a chat command is judged by.
type chatRules struct {
	roomOpen bool
	userOn   bool
	banned   map[string]bool
}

func (c *chatRules) apply(e rangedb.Event) {
	switch x := e.(type) {
	case chat.RoomWasOnBoarded:
		c.roomOpen = true
	case chat.UserWasBannedFromRoom:
		c.banned[x.UserID] = true
	case chat.UserWasOnBoarded:
		c.userOn = true
	}
}

func (c *chatRules) handle(cmd cqrs.Command) []rangedb.Event {
	switch x := cmd.(type) {
	case chat.OnBoardUser:
		if !c.userOn {
			return []rangedb.Event{chat.UserWasOnBoarded(x)}
		}
	case chat.WarnUser:
		return []rangedb.Event{chat.UserWasWarned(x)}
	case chat.OnBoardRoom:
		return []rangedb.Event{chat.RoomWasOnBoarded(x)}
	case chat.JoinRoom:
		if c.roomOpen && !c.banned[x.UserID] {
			return []rangedb.Event{chat.RoomWasJoined(x)}
		}
	case chat.SendMessageToRoom:
		if c.roomOpen {
			return []rangedb.Event{chat.MessageWasSentToRoom(x)}
		}
	case chat.SendPrivateMessageToRoom:
		if c.roomOpen {
			return []rangedb.Event{chat.PrivateMessageWasSentToRoom(x)}
		}
	case chat.RemoveUserFromRoom:
		return []rangedb.Event{chat.UserWasRemovedFromRoom(x)}
	case chat.BanUserFromRoom:
		return []rangedb.Event{chat.UserWasBannedFromRoom(x)}
	}
	return nil
}

// chatModel predicts what a command stores, with the state of each instance on
// its own or (as a recorded finding has it) with state left over from others.
type chatModel struct {
	history []rangedb.Event
	rooms   chatRules // state of the one room aggregate of the running application
	users   chatRules
}

func (m *chatModel) restart() {
	m.rooms, m.users = chatRules{banned: map[string]bool{}}, chatRules{banned: map[string]bool{}}
}

func (m *chatModel) copy() *chatModel {
	c := *m
	c.history = append([]rangedb.Event{}, m.history...)
	c.rooms.banned = map[string]bool{}
	for k := range m.rooms.banned {
		c.rooms.banned[k] = true
	}
	return &c
}

func (m *chatModel) dispatch(cmd cqrs.Command, shared bool) []rangedb.Event {
	rules := &chatRules{banned: map[string]bool{}}
	if shared {
		rules = &m.users
		if cmd.AggregateType() == "room" {
			rules = &m.rooms
		}
	}
	for _, e := range m.history {
		if rangedb.GetEventStream(e) == rangedb.GetEventStream(cmd) {
			rules.apply(e)
		}
	}
	events := rules.handle(cmd)
	m.history = append(m.history, events...)
	return events
}

func hasRestricted(message string) bool {
	for _, w := range []string{"golly", "dagnabit", "gadzooks"} {
		if strings.Contains(strings.ToLower(message), w) {
			return true
		}
	}
	return false
}

// step is a command with everything the process manager does about it.
func (m *chatModel) step(cmd cqrs.Command, shared bool, warnings func(user string) int) []rangedb.Event {
	first := m.dispatch(cmd, shared)
	for _, e := range first {
		x, ok := e.(chat.MessageWasSentToRoom)
		if !ok || !hasRestricted(x.Message) {
			continue
		}
		if warnings(x.UserID) >= 2 {
			m.dispatch(chat.RemoveUserFromRoom{UserID: x.UserID, RoomID: x.RoomID, Reason: "language"}, shared)
			m.dispatch(chat.BanUserFromRoom{UserID: x.UserID, RoomID: x.RoomID, Reason: "language", Timeout: 3600}, shared)
			continue
		}
		m.dispatch(chat.SendPrivateMessageToRoom{RoomID: x.RoomID, TargetUserID: x.UserID, Message: "you have been warned"}, shared)
		m.dispatch(chat.WarnUser{UserID: x.UserID, Reason: "language"}, shared)
	}
	return first
}

func (m *chatModel) warnings(user string) int {
	n := 0
	for _, e := range m.history {
		if w, ok := e.(chat.UserWasWarned); ok && w.UserID == user {
			n++
		}
	}
	return n
}

func chatStrings(es []rangedb.Event) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, fmt.Sprintf("%s %+v", e.EventType(), reflect.Indirect(reflect.ValueOf(e)).Interface()))
	}
	return out
}

// chatRun is the chat application on a store.
type chatRun struct {
	t     *core.T
	name  string
	g     *env.Target
	store *hookedStore
	app   cqrs.CommandDispatcher
	base  int64 // events stored before the application started
}

func (c *chatRun) start() bool {
	c.store = &hookedStore{Store: c.g.Store}
	recs, err := env.Collect(c.g.Store.Events(context.Background(), 0))
	if err != nil {
		c.t.Fail(c.name, "read", "%v", err)
		return false
	}
	c.base = int64(len(recs))
	c.app, err = chat.New(c.store)
	if err != nil {
		c.t.Fail(c.name, "start", "the chat application does not start: %v", err)
		return false
	}
	return true
}

func (c *chatRun) stop() {
	for _, s := range c.store.subs {
		s.Stop()
	}
}

// settle waits until every subscriber has dealt with every stored event.
func (c *chatRun) settle() ([]*rangedb.Record, bool) {
	var recs []*rangedb.Record
	ok := env.WaitUntil(opLimit, func() bool {
		var done []int64
		for _, s := range c.store.subs {
			n := atomic.LoadInt64(&s.done)
			if !s.fromZ {
				n += c.base
			}
			done = append(done, n)
		}
		var err error
		recs, err = env.Collect(c.g.Store.Events(context.Background(), 0))
		if err != nil {
			c.t.Fail(c.name, "read", "%v", err)
			return true
		}
		for _, n := range done {
			if n != int64(len(recs)) {
				return false
			}
		}
		return true
	})
	if !ok {
		var done []int64
		for _, s := range c.store.subs {
			done = append(done, atomic.LoadInt64(&s.done))
		}
		c.t.Fail(c.name, "reaction", "%d events are stored (%d before the start), but the subscribers of the chat application dealt with %v\n%s", len(recs), c.base, done, relevantStacks())
	}
	return recs, ok && !c.t.Failed()
}

func chatEvents(recs []*rangedb.Record) []rangedb.Event {
	var out []rangedb.Event
	for _, r := range recs {
		e, ok := r.Data.(rangedb.Event)
		if !ok {
			out = append(out, rangedb.NewRawEvent(r.AggregateType, r.AggregateID, r.EventType, r.Data))
			continue
		}
		out = append(out, reflect.Indirect(reflect.ValueOf(e)).Interface().(rangedb.Event))
	}
	return out
}

var chatMessages = []string{"hello", "golly", "oh GOLLY!", "gol ly", "dagnabitgadzooks", "Gadzooks", "", "dagnabi", "ünï golly"}

func chatCommand(r *rand.Rand, users, rooms int) cqrs.Command {
	u, ro := fmt.Sprint("u", r.Intn(users)), fmt.Sprint("r", r.Intn(rooms))
	switch x := r.Intn(20); {
	case x < 2:
		return chat.OnBoardUser{UserID: u, Name: "name of " + u}
	case x < 4:
		return chat.OnBoardRoom{RoomID: ro, UserID: u, RoomName: "name of " + ro}
	case x < 9:
		return chat.JoinRoom{RoomID: ro, UserID: u}
	case x < 16:
		return chat.SendMessageToRoom{RoomID: ro, UserID: u, Message: chatMessages[r.Intn(len(chatMessages))]}
	case x == 16:
		return chat.SendPrivateMessageToRoom{RoomID: ro, TargetUserID: u, Message: "golly"}
	case x == 17:
		return chat.RemoveUserFromRoom{RoomID: ro, UserID: u, Reason: "rude"}
	case x == 18:
		return chat.BanUserFromRoom{RoomID: ro, UserID: u, Reason: "rude", Timeout: uint(r.Intn(100))}
	}
	return chat.WarnUser{UserID: u, Reason: "rude"}
}

func pointerTo(c cqrs.Command) cqrs.Command {
	p := reflect.New(reflect.TypeOf(c))
	p.Elem().Set(reflect.ValueOf(c))
	return p.Interface().(cqrs.Command)
}

func c23Chat(t *core.T, name, kind string, r *rand.Rand) {
	c := &chatRun{t: t, name: name, g: env.Open(kind)}
	defer c.g.Close()
	chat.BindEvents(c.g.Store)
	m := &chatModel{}
	m.restart()
	if !c.start() {
		return
	}
	defer func() { c.stop() }()
	users, rooms := 1+r.Intn(3), 1+r.Intn(3)
	if r.Intn(3) == 0 {
		users, rooms = 1, 1
	}
	var story []string
	for i := 8 + r.Intn(25); i > 0; i-- {
		if r.Intn(12) == 0 {
			c.stop()
			if c.g.CanReopen() && r.Intn(2) == 0 {
				if err := c.g.Reopen(); err != nil {
					t.Fail(name, "reopen", "%v", err)
					return
				}
				chat.BindEvents(c.g.Store)
			}
			if !c.start() {
				return
			}
			m.restart()
			story = append(story, "restart")
		}
		cmd := chatCommand(r, users, rooms)
		own, shared := m.copy(), m.copy()
		ownFirst := own.step(cmd, false, own.warnings)
		sharedFirst := shared.step(cmd, true, shared.warnings)
		given := cmd
		if r.Intn(2) == 0 {
			given = pointerTo(cmd)
		}
		story = append(story, fmt.Sprintf("%s %+v", cmd.CommandType(), cmd))
		var got []rangedb.Event
		if !within(t, name, "Dispatch", opLimit, func() { got = c.app.Dispatch(given) }) {
			return
		}
		recs, ok := c.settle()
		if !ok {
			return
		}
		after := chatEvents(recs)
		t.Count("chat commands", 1)
		t.Count("chat events", len(after)-len(m.history))
		check := func(first []rangedb.Event, want *chatModel) string {
			if d := env.Diff(chatStrings(got), chatStrings(first)); d != "" {
				return "returned events differ: " + d
			}
			if d := env.Diff(chatStrings(after), chatStrings(want.history)); d != "" {
				return "stored events differ: " + d
			}
			return ""
		}
		d := check(ownFirst, own)
		m.rooms, m.users = shared.rooms, shared.users
		if d != "" {
			if check(sharedFirst, shared) == "" {
				t.Fail(name, "shared-aggregate-state", "%s\n%s", d, strings.Join(story, "\n"))
				t.Count("commands judged with the state of another instance", 1)
			} else {
				t.Fail(name, "chat", "%s\n%s", d, strings.Join(story, "\n"))
				return
			}
		}
		m.history = after
	}
	if len(m.history) > 0 {
		t.Distinct(strings.Join(story, "\n"))
		t.Sample(map[string]interface{}{"store": kind, "chat": story})
	}
}

// c23Stale makes the process manager judge a message before the projection has
// counted the earlier warnings.
func c23Stale(t *core.T, name string, r *rand.Rand) {
	c := &chatRun{t: t, name: name, g: env.Open("mem-json")}
	defer c.g.Close()
	chat.BindEvents(c.g.Store)
	if !c.start() {
		return
	}
	defer c.stop()
	gate := make(chan struct{})
	var manager *hookedSub
	for _, s := range c.store.subs {
		if !s.fromZ {
			manager = s
			continue
		}
		s.hold = func(rec *rangedb.Record) {
			if rec.EventType == "UserWasWarned" {
				<-gate
			}
		}
	}
	open := sync.OnceFunc(func() { close(gate) })
	defer open()
	m, stale := &chatModel{}, &chatModel{}
	m.restart()
	stale.restart()
	cmds := []cqrs.Command{chat.OnBoardRoom{RoomID: "r", UserID: "u", RoomName: "n"}}
	for i := 0; i < 3; i++ {
		cmds = append(cmds, chat.SendMessageToRoom{RoomID: "r", UserID: "u", Message: "golly"})
	}
	for _, cmd := range cmds {
		m.step(cmd, false, m.warnings)
		stale.step(cmd, false, func(string) int { return 0 })
		c.app.Dispatch(cmd)
		if manager == nil {
			// One subscription does both: nothing can be stale.
			open()
			continue
		}
		env.WaitUntil(opLimit, func() bool {
			n := atomic.LoadInt64(&manager.done)
			recs, err := env.Collect(c.g.Store.Events(context.Background(), 0))
			return err == nil && n == int64(len(recs))
		})
	}
	open()
	recs, ok := c.settle()
	if !ok {
		return
	}
	after := chatEvents(recs)
	if d := env.Diff(chatStrings(after), chatStrings(m.history)); d != "" {
		if env.Diff(chatStrings(after), chatStrings(stale.history)) == "" {
			t.Fail(name, "stale-warnings", "a third restricted message was answered by a warning instead of removal and ban: %s", d)
		} else {
			t.Fail(name, "chat", "three restricted messages with a slow projection: %s", d)
		}
	}
}

// c23FailedRead lets the read of the aggregate's events fail.
func c23FailedRead(t *core.T, name string, r *rand.Rand) {
	inner := inmemorystore.New()
	env.BindAll(inner)
	store := &errStore{Store: inner}
	l := &ledger{label: "aggregate", kinds: []string{"Do"}}
	app := cqrs.New(store, cqrs.WithAggregates(l))
	ctx := context.Background()
	if _, err := inner.Save(ctx, "thing!1", &rangedb.EventRecord{Event: &env.EvA{T: "thing", ID: "1", UID: "a"}}); err != nil {
		t.Fail(name, "save", "%v", err)
		return
	}
	store.set(errRefused)
	// Only the read fails: the save happens after it.
	events := []rangedb.Event{&env.EvA{T: "thing", ID: "1", UID: "b"}}
	got := app.Dispatch(order{T: "thing", ID: "1", Kind: "Do", raise: &events})
	store.set(nil)
	if len(l.calls) == 2 && len(l.seen) == 0 && l.err != nil {
		t.Fail(name, "failed-read-handled", "the events of the aggregate could not be read (%v), but it handled the command", l.err)
	} else if len(l.calls) > 0 && l.err == nil {
		t.Fail(name, "loaded", "reading failed, but the aggregate was loaded with %v and no error", l.seen)
	}
	if len(got) > 0 {
		t.Fail(name, "returned", "the save failed, but Dispatch returned %v", got)
	}
}

// ---- given, when, then ----

// bddResult is what one given/when/then case came to.
type bddResult struct{ Kind, Desc, Failure string }

// c23BDD runs the cases in a child process, which is a test program.
func c23BDD(t *core.T, name string, r *rand.Rand) {
	dir, rm := env.ScratchDir()
	defer rm()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	file := filepath.Join(dir, "results")
	cmd := exec.Command(exe, "child", "bdd", file, fmt.Sprint(r.Int63()), "100")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // the signal comes with the end of the thread
	defer runtime.UnlockOSThread()
	out, err := cmd.CombinedOutput()
	b, readErr := os.ReadFile(file)
	var results []bddResult
	if readErr == nil {
		readErr = json.Unmarshal(b, &results)
	}
	if readErr != nil {
		t.Fail(name, "bdd", "the test program ended with %v and left no results: %s", err, clip(string(out)))
		return
	}
	for _, x := range results {
		t.Eval()
		t.Count("given/when/then verdicts", 1)
		t.Distinct(x.Desc)
		if x.Failure != "" {
			t.Fail(name, "bdd", "%s\nthe expectation is %s\n%s", x.Failure, x.Kind, x.Desc)
		}
	}
}

// childBDD is a test program with one subtest for each case.
func childBDD(args []string) {
	n := atoi(args[2])
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	r := rand.New(rand.NewSource(seed))
	os.Args = os.Args[:1]
	testing.Init()
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "BDD", F: func(x *testing.T) {
		var results []bddResult
		for i := 0; i < n; i++ {
			if res := bddCase(x, r); res.Kind != "" {
				results = append(results, res)
			}
		}
		b, err := json.Marshal(results)
		if err == nil {
			err = os.WriteFile(args[0], b, 0o600)
		}
		if err != nil {
			panic(err)
		}
	}}}, nil, nil)
}

func bddCase(parent *testing.T, r *rand.Rand) (res bddResult) {
	store := inmemorystore.New()
	env.BindAll(store)
	uid := 0
	event := func(id string) rangedb.Event {
		uid++
		if r.Intn(2) == 0 {
			return env.EvA{T: "thing", ID: id, UID: fmt.Sprintf("u%d", uid), Payload: "p"}
		}
		return env.EvB{T: "thing", ID: id, UID: fmt.Sprintf("u%d", uid), Payload: "p", S: []string{"x"}}
	}
	ids := []string{"1", "2", "3"}
	var given, raised []rangedb.Event
	for i := r.Intn(5); i > 0; i-- {
		given = append(given, event(ids[r.Intn(3)]))
	}
	for i := r.Intn(4); i > 0; i-- {
		id := "1"
		if r.Intn(4) == 0 {
			id = ids[r.Intn(3)]
		}
		raised = append(raised, event(id))
	}
	expected := append([]rangedb.Event{}, raised...)
	// What kind of expectation is it?
	kind := "right"
	if r.Intn(2) == 0 {
		kind = []string{"missing", "extra", "changed", "swapped", "none"}[r.Intn(5)]
	}
	sameStream := func(i, j int) bool { return expected[i].AggregateID() == expected[j].AggregateID() }
	switch kind {
	case "missing": // one event less, in a stream that is still looked at
		if len(expected) < 2 || !sameStream(0, len(expected)-1) {
			return
		}
		expected = expected[:len(expected)-1]
		if r.Intn(2) == 0 {
			expected = append([]rangedb.Event{}, raised[1:]...)
		}
	case "extra":
		expected = append(expected, event("1"))
	case "changed":
		if len(expected) == 0 {
			return
		}
		i := r.Intn(len(expected))
		expected[i] = event(expected[i].AggregateID())
	case "swapped":
		if len(expected) < 2 || !sameStream(0, 1) {
			return
		}
		expected[0], expected[1] = expected[1], expected[0]
	case "none":
		if len(raised) == 0 {
			return
		}
		expected = nil
	}
	res.Kind = kind
	res.Desc = fmt.Sprintf("given %v\nraised %v\nexpected %v", chatStrings(given), chatStrings(raised), chatStrings(expected))
	fail := func(format string, args ...interface{}) {
		if res.Failure == "" {
			res.Failure = fmt.Sprintf(format, args...)
		}
	}
	dispatched := 0
	c := order{T: "thing", ID: "1", Kind: "Do", raise: &raised}
	tc := bdd.New(store, func(cmd bdd.Command) {
		dispatched++
		if cmd != bdd.Command(c) {
			fail("When(%v) dispatched %v", c, cmd)
		}
		for _, id := range ids {
			var want []rangedb.Event
			for _, e := range given {
				if e.AggregateID() == id {
					want = append(want, e)
				}
			}
			recs, err := env.Collect(store.EventsByStream(context.Background(), 0, rangedb.GetStream("thing", id)))
			if err != nil && len(want) > 0 {
				fail("reading: %v", err)
			}
			if d := env.Diff(chatStrings(chatEvents(recs)), chatStrings(want)); d != "" {
				fail("the command is dispatched with other events stored than those given: %s", d)
			}
		}
		for _, e := range raised {
			if _, err := store.Save(context.Background(), rangedb.GetEventStream(e), &rangedb.EventRecord{Event: e}); err != nil {
				fail("saving: %v", err)
			}
		}
	}).Given(given...).When(c)
	inspect := kind == "right" && r.Intn(3) == 0
	var inspected []rangedb.Event
	passed := parent.Run("case", func(x *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				fail("the test panicked: %v", p)
			}
		}()
		if inspect {
			tc.ThenInspectEvents(func(_ *testing.T, events []rangedb.Event) { inspected = events })(x)
			return
		}
		tc.Then(expected...)(x)
	})
	if dispatched != 1 {
		fail("the command was dispatched %d times", dispatched)
	}
	if passed != (kind == "right") {
		fail("the test passed: %v", passed)
	}
	if inspect {
		a, b := chatStrings(inspected), chatStrings(raised)
		sort.Strings(a)
		sort.Strings(b)
		if d := env.Diff(a, b); d != "" {
			fail("ThenInspectEvents was given other events than those raised: %s", d)
		}
	}
	return res
}
