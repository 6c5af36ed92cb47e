package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/provider/remotestore"

	"rangedbverif/core"
	"rangedbverif/env"
)

// lossyLink makes connections that break after a number of bytes in one direction.
type lossyLink struct {
	mu    sync.Mutex
	conns []*lossyConn
	cuts  int64
}

type lossyConn struct {
	net.Conn
	l           *lossyLink
	read, write int64 // bytes left, negative: no limit
}

func (l *lossyLink) wrap(c net.Conn) net.Conn {
	x := &lossyConn{Conn: c, l: l, read: -1, write: -1}
	l.mu.Lock()
	l.conns = append(l.conns, x)
	l.mu.Unlock()
	return x
}

// arm limits what the latest connection still carries.
func (l *lossyLink) arm(read, write int64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if n := len(l.conns); n > 0 {
		atomic.StoreInt64(&l.conns[n-1].read, read)
		atomic.StoreInt64(&l.conns[n-1].write, write)
	}
}

func (c *lossyConn) cut() error {
	atomic.AddInt64(&c.l.cuts, 1)
	_ = c.Conn.Close()
	return io.ErrUnexpectedEOF
}

func (c *lossyConn) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	if l := atomic.LoadInt64(&c.read); l >= 0 && err == nil {
		if int64(n) > l {
			return int(l), c.cut()
		}
		atomic.AddInt64(&c.read, int64(-n))
	}
	return n, err
}

func (c *lossyConn) Write(p []byte) (int, error) {
	l := atomic.LoadInt64(&c.write)
	if l >= 0 && int64(len(p)) > l {
		n, _ := c.Conn.Write(p[:l])
		return n, c.cut()
	}
	if l >= 0 {
		atomic.AddInt64(&c.write, int64(-len(p)))
	}
	return c.Conn.Write(p)
}

// lossyStream is what one client, its only writer, knows of a stream.
type lossyStream struct {
	name  string
	acked []string // of acknowledged saves
	maybe []string // of a last operation without an answer
	wiped bool     // that operation was a deletion
	num   uint64
}

// c13Lossy: remote writers whose connections break around requests and answers. What was acknowledged is stored
// once and in its place, what was refused is not, and what got no answer is stored once or not at all.
func c13Lossy(t *core.T, name, kind string, r *rand.Rand) {
	g := env.Open(kind)
	defer g.Close()
	var log []string
	var mu sync.Mutex
	logf := func(f string, a ...interface{}) {
		mu.Lock()
		log = append(log, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	fail := func(key, f string, a ...interface{}) {
		mu.Lock()
		l := log
		if len(l) > 40 {
			l = l[len(l)-40:]
		}
		mu.Unlock()
		t.Fail(name, key, "[remote-%s, connections that break] %s\noperations:\n  %s", kind, fmt.Sprintf(f, a...), strings.Join(l, "\n  "))
	}
	rs, err := rangedbserver.New(rangedbserver.WithStore(g.Store))
	if err != nil {
		fail("new", "%v", err)
		return
	}
	defer func() { _ = rs.Stop() }()
	var active int64
	lis := bufconn.Listen(1 << 20)
	srv := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
		atomic.AddInt64(&active, 1)
		defer atomic.AddInt64(&active, -1)
		return h(ctx, req)
	}))
	rangedbpb.RegisterRangeDBServer(srv, rs)
	go func() { _ = srv.Serve(lis) }()
	defer func() { srv.Stop(); _ = lis.Close() }()

	all := make([][]*lossyStream, 2)
	var wg sync.WaitGroup
	for w := range all {
		w := w
		wr := t.Rand(fmt.Sprintf("%s/w%d", name, w))
		link := &lossyLink{}
		conn, err := grpc.DialContext(context.Background(), "bufnet",
			grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) {
				c, err := lis.Dial()
				if err == nil {
					c = link.wrap(c)
				}
				return c, err
			}),
			grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: time.Millisecond, Multiplier: 1, MaxDelay: time.Millisecond}, MinConnectTimeout: time.Second}),
			grpc.WithInsecure(), grpc.WithBlock())
		if err != nil {
			fail("dial", "%v", err)
			return
		}
		defer conn.Close()
		st, err := remotestore.New(conn)
		if err != nil {
			fail("new", "%v", err)
			return
		}
		env.BindAll(st)
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.Guard(name, func() {
				var cur *lossyStream
				for i := 0; i < 30; i++ {
					t.Tick()
					if cur == nil {
						cur = &lossyStream{name: fmt.Sprintf("s!%d-%d", w, i)}
						all[w] = append(all[w], cur)
					}
					ctx := context.Background()
					done := func() {}
					switch wr.Intn(6) {
					case 0:
						link.arm(int64(wr.Intn(80)), -1)
					case 1:
						link.arm(-1, int64(wr.Intn(200)))
					case 2:
						ctx, done = context.WithTimeout(ctx, time.Duration(wr.Intn(400))*time.Microsecond)
					}
					var uids []string
					for x := 1 + wr.Intn(3); x > 0; x-- {
						uids = append(uids, fmt.Sprintf("%d/%d/%d", w, i, x))
					}
					var recs []*rangedb.EventRecord
					for _, u := range uids {
						recs = append(recs, &rangedb.EventRecord{Event: &env.EvA{T: "s", ID: fmt.Sprint(w), UID: u}})
					}
					var n uint64
					var err error
					op := wr.Intn(8)
					what := ""
					ok := within(t, name, "a remote operation over a connection that breaks", opLimit, func() {
						switch {
						case op < 3:
							what = fmt.Sprintf("Save(%s, %v)", cur.name, uids)
							n, err = st.Save(ctx, cur.name, recs...)
						case op < 6:
							what = fmt.Sprintf("OptimisticSave(%d, %s, %v)", cur.num, cur.name, uids)
							n, err = st.OptimisticSave(ctx, cur.num, cur.name, recs...)
						case op == 6 && cur.num > 0:
							what = fmt.Sprintf("OptimisticDeleteStream(%d, %s)", cur.num, cur.name)
							err = st.OptimisticDeleteStream(ctx, cur.num, cur.name)
						default:
							what = fmt.Sprintf("OptimisticSave(%d, %s, %v)", cur.num+3, cur.name, uids)
							n, err = st.OptimisticSave(ctx, cur.num+3, cur.name, recs...)
						}
					})
					done()
					if !ok {
						return
					}
					logf("%s: %d, %v", what, n, err)
					wrong := strings.HasPrefix(what, fmt.Sprintf("OptimisticSave(%d,", cur.num+3))
					deletes := strings.HasPrefix(what, "OptimisticDel")
					u, conflict := isUnexpected(err)
					switch {
					case err == nil && wrong:
						fail("lossy-conflict", "%s at length %d succeeded", what, cur.num)
						return
					case conflict && (!wrong || u.ActualSequenceNumber != cur.num):
						fail("lossy-conflict", "%s of the only writer of the stream, at length %d: %v", what, cur.num, err)
						return
					case errors.Is(err, rangedb.ErrStreamNotFound):
						fail("lossy-missing", "%s of the only writer of the stream, at length %d: %v", what, cur.num, err)
						return
					case err == nil && deletes:
						cur.acked, cur.num = nil, 0
					case err == nil:
						cur.acked = append(cur.acked, uids...)
						cur.num += uint64(len(uids))
						if n != cur.num {
							fail("lossy-number", "%s returned %d, expected %d", what, n, cur.num)
							return
						}
						t.Count("lossy_acknowledged", 1)
					case conflict || wrong:
					default:
						// no answer: this stream is left as it is
						if deletes {
							cur.wiped = true
						} else {
							cur.maybe = uids
						}
						cur = nil
						t.Count("lossy_unanswered", 1)
					}
					link.arm(-1, -1)
				}
			})
			t.Count("broken_connections", int(atomic.LoadInt64(&link.cuts)))
		}()
	}
	wg.Wait()
	srv.Stop()
	if !env.WaitUntil(20*time.Second, func() bool { return atomic.LoadInt64(&active) == 0 }) {
		fail("lossy-handler", "requests are still handled 20 s after the server stopped")
		return
	}
	took := 0
	for _, ss := range all {
		for _, s := range ss {
			recs, err := env.Collect(g.Store.EventsByStream(context.Background(), 0, s.name))
			if err != nil && !errors.Is(err, rangedb.ErrStreamNotFound) {
				fail("lossy-read", "%s: %v", s.name, err)
				return
			}
			var got []string
			for i, rec := range recs {
				got = append(got, env.UID(rec.Data))
				if rec.StreamSequenceNumber != uint64(i+1) {
					fail("lossy-number", "%s: event %d has number %d", s.name, i+1, rec.StreamSequenceNumber)
					return
				}
			}
			with := append(append([]string{}, s.acked...), s.maybe...)
			switch {
			case equalStrings(got, s.acked):
			case s.maybe != nil && equalStrings(got, with), s.wiped && len(got) == 0:
				took++
			default:
				fail("lossy-contents", "%s holds %v; acknowledged were %v, without an answer %v (deletion without an answer: %v)", s.name, got, s.acked, s.maybe, s.wiped)
				return
			}
		}
	}
	t.Count("lossy_unanswered_took_effect", took)
	mu.Lock()
	t.Distinct(strings.Join(log, ","))
	mu.Unlock()
}
