package env

import (
	"context"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"github.com/inklabs/rangedb/provider/remotestore"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"
)

// Clock is a deterministic clock: each call to Now advances one second.
type Clock struct {
	n      int64
	jitter atomic.Value // func()
}

// SetJitter installs a delay that runs whenever the store reads its clock or
// uses its serializer, that is inside its critical sections.
func (c *Clock) SetJitter(f func()) { c.jitter.Store(f) }

func (c *Clock) delay() {
	if f, ok := c.jitter.Load().(func()); ok && f != nil {
		f()
	}
}

// Now returns the next instant.
func (c *Clock) Now() time.Time {
	c.delay()
	return time.Unix(1700000000+atomic.AddInt64(&c.n, 1), 0)
}

// jitterSerializer delays around the real serializer.
type jitterSerializer struct {
	rangedb.RecordSerializer
	c *Clock
}

func (j *jitterSerializer) Serialize(r *rangedb.Record) ([]byte, error) {
	b, err := j.RecordSerializer.Serialize(r)
	j.c.delay()
	return b, err
}

func (j *jitterSerializer) Deserialize(b []byte) (*rangedb.Record, error) {
	j.c.delay()
	return j.RecordSerializer.Deserialize(b)
}

// RandomJitter makes a delay function: mostly nothing, sometimes a yield or a short sleep.
func RandomJitter(seed int64, max time.Duration) func() {
	n := uint64(seed)
	return func() {
		x := atomic.AddUint64(&n, 0x9E3779B97F4A7C15)
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		switch x % 8 {
		case 0, 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(x>>8) % max)
		}
	}
}

// Last is the instant handed out last.
func (c *Clock) Last() uint64 { return uint64(1700000000 + atomic.LoadInt64(&c.n)) }

// Calls tells how many instants were handed out.
func (c *Clock) Calls() int64 { return atomic.LoadInt64(&c.n) }

// ---- LevelDB storage interception (third-party library patched by build.sh) ----

var (
	memMu    sync.Mutex
	memStors = map[string]storage.Storage{}
	memNext  int64
)

// MemPrefix marks paths that are served from memory.
const MemPrefix = "/verif-mem/"

func init() {
	storage.VerifOpenHook = func(path string, readOnly bool) (storage.Storage, error, bool) {
		if len(path) < len(MemPrefix) || path[:len(MemPrefix)] != MemPrefix {
			return nil, nil, false
		}
		memMu.Lock()
		defer memMu.Unlock()
		st, ok := memStors[path]
		if !ok {
			st = storage.NewMemStorage()
			memStors[path] = st
		}
		return st, nil, true
	}
}

// MemPath reserves an in-memory LevelDB path, optionally with a given storage.
func MemPath(st storage.Storage) string {
	p := fmt.Sprintf("%s%d", MemPrefix, atomic.AddInt64(&memNext, 1))
	if st != nil {
		memMu.Lock()
		memStors[p] = st
		memMu.Unlock()
	}
	return p
}

// DropMem forgets an in-memory path.
func DropMem(path string) {
	memMu.Lock()
	delete(memStors, path)
	memMu.Unlock()
}

// Target is a store under test.
type Target struct {
	Kind   string
	Store  rangedb.Store
	Inner  rangedb.Store // engine behind decorators / network, if any
	Clock  *Clock
	Server *grpc.Server
	Conn   *grpc.ClientConn
	Keys   crypto.KeyStore
	Path   string
	Pg     *PgFake
	dial   func() (*grpc.ClientConn, error)
	close  []func()
	reopen func() error
}

// AddClose registers a cleanup.
func (g *Target) AddClose(f func()) { g.close = append(g.close, f) }

// Close releases the target.
func (g *Target) Close() {
	for i := len(g.close) - 1; i >= 0; i-- {
		g.close[i]()
	}
	g.close = nil
}

// Reopen closes and reopens a LevelDB target (nil if not supported).
func (g *Target) Reopen() error {
	if g.reopen == nil {
		return fmt.Errorf("no reopen")
	}
	return g.reopen()
}

// CanReopen tells if the target persists.
func (g *Target) CanReopen() bool { return g.reopen != nil }

// Dial opens another connection to the gRPC server of a remote target.
func (g *Target) Dial() (*grpc.ClientConn, error) { return g.dial() }

// NewClient opens a second remote store on the same server.
func (g *Target) NewClient() (rangedb.Store, error) {
	conn, err := g.dial()
	if err != nil {
		return nil, err
	}
	g.AddClose(func() { _ = conn.Close() })
	st, err := remotestore.New(conn)
	if err != nil {
		return nil, err
	}
	BindAll(st)
	return st, nil
}

// EngineKinds are the embedded engines.
var EngineKinds = []string{"mem-json", "mem-msgpack", "ldb-json", "ldb-msgpack"}

// PgKinds are the PostgreSQL store, on a server of the harness.
var PgKinds = []string{"pg", "pgnotify", "enc-pg", "remote-pg"}

// AllKinds adds the decorated and remote ones.
var AllKinds = []string{"mem-json", "mem-msgpack", "ldb-json", "ldb-msgpack", "enc-mem-json", "enc-ldb-json", "remote-mem-json", "remote-ldb-json", "remote-mem-msgpack"}

// Stopper is implemented by the LevelDB store.
type Stopper interface{ Stop() error }

func newEngine(kind, path string, clock *Clock) (rangedb.Store, error) {
	switch kind {
	case "mem-json":
		return inmemorystore.New(inmemorystore.WithClock(clock), inmemorystore.WithSerializer(&jitterSerializer{jsonrecordserializer.New(), clock})), nil
	case "mem-msgpack":
		return inmemorystore.New(inmemorystore.WithClock(clock), inmemorystore.WithSerializer(&jitterSerializer{msgpackrecordserializer.New(), clock})), nil
	case "ldb-json":
		return leveldbstore.New(path, leveldbstore.WithClock(clock), leveldbstore.WithSerializer(&jitterSerializer{jsonrecordserializer.New(), clock}))
	case "ldb-msgpack":
		return leveldbstore.New(path, leveldbstore.WithClock(clock), leveldbstore.WithSerializer(&jitterSerializer{msgpackrecordserializer.New(), clock}))
	}
	return nil, fmt.Errorf("unknown engine %q", kind)
}

// openPg opens a PostgreSQL store on a server of its own.
func (g *Target) openPg(engine string) (rangedb.Store, error) {
	g.Pg = NewPg(1)
	g.AddClose(g.Pg.Close)
	opts := []postgresstore.Option{postgresstore.WithClock(g.Clock)}
	if engine == "pgnotify" {
		opts = append(opts, postgresstore.WithPgNotify())
	}
	st, err := postgresstore.New(g.Pg.Config(), opts...)
	if err != nil {
		return nil, err
	}
	g.AddClose(func() { _ = st.CloseDB() })
	if err := st.InitDB(); err != nil {
		return nil, err
	}
	return &pgRetry{st}, nil
}

// pgRetry repeats operations that gave up waiting for a lock (after two
// seconds, that is on a starved machine) and therefore had no effect.
type pgRetry struct{ rangedb.Store }

func gaveUp(err error) bool {
	return err != nil && strings.Contains(err.Error(), "unable to obtain lock") && !strings.Contains(err.Error(), "No space")
}

func (p *pgRetry) Save(ctx context.Context, stream string, recs ...*rangedb.EventRecord) (n uint64, err error) {
	for i := 0; i < 10; i++ {
		if n, err = p.Store.Save(ctx, stream, recs...); !gaveUp(err) || ctx.Err() != nil {
			break
		}
	}
	return
}

func (p *pgRetry) OptimisticSave(ctx context.Context, exp uint64, stream string, recs ...*rangedb.EventRecord) (n uint64, err error) {
	for i := 0; i < 10; i++ {
		if n, err = p.Store.OptimisticSave(ctx, exp, stream, recs...); !gaveUp(err) || ctx.Err() != nil {
			break
		}
	}
	return
}

func (p *pgRetry) OptimisticDeleteStream(ctx context.Context, exp uint64, stream string) (err error) {
	for i := 0; i < 10; i++ {
		if err = p.Store.OptimisticDeleteStream(ctx, exp, stream); !gaveUp(err) || ctx.Err() != nil {
			break
		}
	}
	return
}

// Open builds a target of the given kind on in-memory storage.
func Open(kind string) *Target {
	return OpenAt(kind, "")
}

// OpenAt builds a target; path "" means in-memory storage for LevelDB.
func OpenAt(kind, path string) *Target {
	g := &Target{Kind: kind, Clock: &Clock{}}
	engine := kind
	wrap := ""
	for _, w := range []string{"enc-", "remote-", "encremote-"} {
		if len(kind) > len(w) && kind[:len(w)] == w {
			wrap, engine = w, kind[len(w):]
		}
	}
	if strings.HasPrefix(engine, "ldb") {
		if path == "" {
			path = MemPath(nil)
			p := path
			g.AddClose(func() { DropMem(p) })
		}
		g.Path = path
	}
	var eng rangedb.Store
	var err error
	if strings.HasPrefix(engine, "pg") {
		eng, err = g.openPg(engine)
	} else {
		eng, err = newEngine(engine, path, g.Clock)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	g.Inner = eng
	if st, ok := eng.(Stopper); ok {
		cur := st
		g.AddClose(func() { _ = cur.Stop() })
		if wrap == "" {
			g.reopen = func() error {
				if err := cur.Stop(); err != nil {
					return fmt.Errorf("stop: %v", err)
				}
				e2, err := newEngine(engine, path, g.Clock)
				if err != nil {
					return err
				}
				BindAll(e2)
				cur = e2.(Stopper)
				g.Store, g.Inner = e2, e2
				return nil
			}
		}
	}
	BindAll(eng)
	switch wrap {
	case "":
		g.Store = eng
	case "enc-":
		g.Keys = inmemorykeystore.New()
		g.Store = encryptedstore.New(eng, eventencryptor.New(g.Keys, aes.NewGCM()))
	case "remote-", "encremote-":
		if err := g.Serve(eng); err != nil {
			panic("harness: " + err.Error())
		}
		if wrap == "encremote-" {
			g.Keys = inmemorykeystore.New()
			g.Store = encryptedstore.New(g.Store, eventencryptor.New(g.Keys, aes.NewGCM()))
		}
	}
	BindAll(g.Store)
	return g
}

// GRPCWindow, when set, is the flow-control window of gRPC connections. Streams of
// messages above 48 KiB need one larger than the messages: gRPC v1.35 may report
// a false flow-control violation ("unexpected EOF") when it adjusts the window.
var GRPCWindow int32

// Serve puts a gRPC server in front of eng and makes g.Store its client.
func (g *Target) Serve(eng rangedb.Store) error {
	lis := bufconn.Listen(1 << 20)
	var sopts []grpc.ServerOption
	copts := []grpc.DialOption{grpc.WithInsecure(), grpc.WithBlock()}
	if w := GRPCWindow; w > 0 {
		sopts = append(sopts, grpc.InitialWindowSize(w), grpc.InitialConnWindowSize(w))
		copts = append(copts, grpc.WithInitialWindowSize(w), grpc.WithInitialConnWindowSize(w))
	}
	srv := grpc.NewServer(sopts...)
	rs, err := rangedbserver.New(rangedbserver.WithStore(eng))
	if err != nil {
		return err
	}
	rangedbpb.RegisterRangeDBServer(srv, rs)
	go func() { _ = srv.Serve(lis) }()
	g.Server = srv
	g.dial = func() (*grpc.ClientConn, error) {
		return grpc.DialContext(context.Background(), "bufnet", append([]grpc.DialOption{
			grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() })},
			copts...)...)
	}
	conn, err := g.dial()
	if err != nil {
		return err
	}
	g.Conn = conn
	st, err := remotestore.New(conn)
	if err != nil {
		return err
	}
	g.Store = st
	g.AddClose(func() {
		_ = conn.Close()
		srv.Stop()
		_ = rs.Stop()
		_ = lis.Close()
	})
	return nil
}

// ServeUnbound puts a gRPC server in front of a second, unbound engine of the same kind.
func ServeUnbound(kind string) (*Target, error) {
	g := &Target{Kind: "remote-" + kind, Clock: &Clock{}}
	path := ""
	if kind[:3] == "ldb" {
		path = MemPath(nil)
		g.AddClose(func() { DropMem(path) })
	}
	eng, err := newEngine(kind, path, g.Clock)
	if err != nil {
		return nil, err
	}
	g.Inner = eng
	if st, ok := eng.(Stopper); ok {
		g.AddClose(func() { _ = st.Stop() })
	}
	if err := g.Serve(eng); err != nil {
		return nil, err
	}
	BindAll(g.Store)
	return g, nil
}

// ScratchDir creates a scratch directory, removed by the returned function.
func ScratchDir() (string, func()) {
	d, err := os.MkdirTemp("", "verif-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d, func() { _ = os.RemoveAll(d) }
}
