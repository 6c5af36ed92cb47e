package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	"google.golang.org/grpc"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/remotestore"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C24"] = c24 }

func c24(t *core.T) {
	t.SetRule("the real server binary runs as a child process, with LevelDB or in memory, while clients save, delete, read and subscribe over HTTP, gRPC and WebSocket; at random moments it is killed or interrupted and started again. After every start an offline checker compares what every interface shows with the ledger of acknowledged, refused and unanswered requests, with the numbers, identifiers and timestamps of earlier readings and with what subscribers were sent. Interrupted servers must leave with status 0, in time, and finish the requests in progress. Servers sharing a temporary directory, a locked database, abandoned connections and the command-line tools have cases of their own. Non-trivial: a start that found events; distinct by the acknowledged history")
	t.Assume("a killed process loses nothing it has written to its files (the operating system keeps running)", "the statistics of databases with deleted streams are not judged here")
	dir, clean := env.ScratchDir()
	defer clean()
	p := &procs{t: t, dir: dir, bins: filepath.Join(dir, "bin")}
	defer p.killAll()
	if !p.build() {
		return
	}
	j := &jobs{t: t}
	add := func(n int, label string, f func(*procCase)) {
		j.add(n, label, func(t *core.T, name string, r *rand.Rand) {
			c := &procCase{procs: p, t: t, name: name, r: r, dir: filepath.Join(dir, name)}
			if err := os.MkdirAll(filepath.Join(c.dir, "tmp"), 0o755); err != nil {
				panic(err)
			}
			defer os.RemoveAll(c.dir)
			f(c)
		})
	}
	add(t.N(32, 900), "crash", func(c *procCase) { c.crash(false) })
	add(t.N(8, 150), "crash-stats", func(c *procCase) { c.crash(true) })
	add(t.N(6, 100), "memory", (*procCase).memory)
	add(t.N(4, 60), "interrupt", (*procCase).interrupt)
	add(t.N(1, 4), "stalled", (*procCase).stalled)
	add(t.N(1, 3), "idle", (*procCase).idle)
	add(t.N(3, 40), "locked", (*procCase).locked)
	add(t.N(3, 40), "two-dirs", (*procCase).twoDirs)
	add(t.N(2, 30), "churn", (*procCase).churn)
	add(t.N(3, 40), "follow", (*procCase).follow)
	add(t.N(3, 40), "generate", (*procCase).generate)
	j.run(8)
}

// procs builds the programs and keeps track of the processes started.
type procs struct {
	t    *core.T
	dir  string
	bins string
	mu   sync.Mutex
	live map[*proc]bool
}

func (p *procs) build() bool {
	if err := os.MkdirAll(p.bins, 0o755); err != nil {
		panic(err)
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join("/repo", n))
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(p.bins, strings.Replace(n, "go.", "repo.", 1)), b, 0o644); err != nil {
			panic(err)
		}
	}
	args := []string{"build", "-modfile=" + filepath.Join(p.bins, "repo.mod"), "-o", p.bins + "/"}
	for _, n := range []string{"rangedb", "grpc-event-subscriber", "ws-event-subscriber", "gen-random-events"} {
		args = append(args, "./cmd/"+n)
	}
	c := exec.Command("go", args...)
	c.Dir = "/repo"
	out, err := c.CombinedOutput()
	p.t.Tick()
	if err != nil {
		panic(fmt.Sprintf("cannot build the programs: %v\n%s", err, out))
	}
	return true
}

// procOutput keeps what a process wrote.
type procOutput struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (o *procOutput) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.buf.Len() < 64<<20 {
		o.buf.Write(p)
	}
	return len(p), nil
}

func (o *procOutput) String() string { o.mu.Lock(); defer o.mu.Unlock(); return o.buf.String() }

// proc is a running program.
type proc struct {
	cmd       *exec.Cmd
	out, err  procOutput
	done      chan struct{}
	state     *os.ProcessState
	signalled int32
	http      string
	grpc      string
}

func (p *procs) start(dir, tmp, name string, args ...string) *proc {
	x := &proc{done: make(chan struct{})}
	x.cmd = exec.Command(filepath.Join(p.bins, name), args...)
	x.cmd.Dir = dir
	x.cmd.Stdout, x.cmd.Stderr = &x.out, &x.err
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "TMPDIR", "HOME", "GOTRACEBACK", "GORACE":
		default:
			x.cmd.Env = append(x.cmd.Env, e)
		}
	}
	x.cmd.Env = append(x.cmd.Env, "TMPDIR="+tmp, "HOME="+tmp)
	if err := x.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", name, err))
	}
	p.mu.Lock()
	if p.live == nil {
		p.live = map[*proc]bool{}
	}
	p.live[x] = true
	p.mu.Unlock()
	go func() {
		_ = x.cmd.Wait()
		x.state = x.cmd.ProcessState
		p.mu.Lock()
		delete(p.live, x)
		p.mu.Unlock()
		close(x.done)
	}()
	return x
}

func (p *procs) killAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for x := range p.live {
		_ = x.cmd.Process.Kill()
	}
}

func (x *proc) signal(s os.Signal) {
	atomic.StoreInt32(&x.signalled, 1)
	_ = x.cmd.Process.Signal(s)
}

func (x *proc) running() bool {
	select {
	case <-x.done:
		return false
	default:
		return true
	}
}

func (x *proc) exited(d time.Duration) bool {
	select {
	case <-x.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (x *proc) logs() string {
	return fmt.Sprintf("stdout: %s\nstderr: %s", clip(x.out.String()), clip(x.err.String()))
}

var crashRe = regexp.MustCompile(`(?m)^(panic:|fatal error:|WARNING: DATA RACE|http: panic serving|\[signal SIG)`)

// procCase is one case: a database directory and what happened to it.
type procCase struct {
	*procs
	t    *core.T
	name string
	r    *rand.Rand
	dir  string

	mu       sync.Mutex
	clock    int64
	ops      []*procOp
	events   map[string]*procEvent
	seen     map[string]string // record of an event as first read
	sent     map[string]string // record of an event as first sent to a subscriber
	ids      map[string]string
	maxG     uint64
	fresh    uint64 // numbers of events saved from now on must be above
	own      map[string][]string
	pending  map[string]*procOp
	deletion bool
	nStart   int
}

type procOp struct {
	kind       byte // 's' or 'd'
	stream     string
	uids       []string
	begin, end int64
	res        byte // 'a' acknowledged, 'r' refused, 'u' unknown
	n          uint64
	gen        int
}

type procEvent struct {
	op      *procOp
	content string
}

var listenRe = regexp.MustCompile(`(?m)^Listening: .*:(\d+)\s*$`)
var grpcRe = regexp.MustCompile(`(?m)^gRPC listening: .*:(\d+)\s*$`)

// server starts the server and waits until it listens.
func (c *procCase) server(dir string, args ...string) *proc {
	full := args
	if !strings.Contains(strings.Join(args, " "), "-port") {
		full = append([]string{"-port", "0", "-gRPCPort", "0"}, args...)
	}
	x := c.start(dir, filepath.Join(c.dir, "tmp"), "rangedb", full...)
	ok := env.WaitUntil(60*time.Second, func() bool {
		if !x.running() {
			return true
		}
		o := x.out.String()
		a, b := listenRe.FindStringSubmatch(o), grpcRe.FindStringSubmatch(o)
		if a == nil || b == nil {
			return false
		}
		x.http, x.grpc = "127.0.0.1:"+a[1], "127.0.0.1:"+b[1]
		return true
	})
	c.t.Tick()
	if !ok {
		c.t.Fail(c.name, "no-start", "the server did not listen within a minute\n%s", x.logs())
		_ = x.cmd.Process.Kill()
		return nil
	}
	c.nStart++
	c.t.Count("servers started", 1)
	return x
}

// started is server for a start that must succeed.
func (c *procCase) started(dir string, args ...string) *proc {
	x := c.server(dir, args...)
	if x != nil && x.http == "" {
		<-x.done
		c.t.Fail(c.name, "no-start", "the server did not start: %v\n%s", x.state, x.logs())
		return nil
	}
	return x
}

// leave waits for a signalled server to end and judges how it did.
func (c *procCase) leave(x *proc, s os.Signal, bound time.Duration) bool {
	if !x.exited(bound) {
		_ = x.cmd.Process.Signal(syscall.SIGQUIT)
		x.exited(10 * time.Second)
		c.t.Fail(c.name, "does-not-stop", "the server was still running %v after signal %v\nstdout: %s\nstderr: %s", bound, s, clip(x.out.String()), x.err.String())
		_ = x.cmd.Process.Kill()
		<-x.done
		return false
	}
	c.t.Tick()
	if s == os.Interrupt && x.state.ExitCode() != 0 {
		c.t.Fail(c.name, "interrupt-status", "an interrupted server ended with %v\n%s", x.state, x.logs())
		return false
	}
	return c.sound(x)
}

func (c *procCase) sound(x *proc) bool {
	if m := crashRe.FindString(x.err.String()); m != "" {
		c.t.Fail(c.name, "server-crash", "the server reported %q\n%s", m, x.err.String())
		return false
	}
	return true
}

func (c *procCase) tick() int64 { return atomic.AddInt64(&c.clock, 1) }

// procClient is a client of the server over HTTP and gRPC.
type procClient struct {
	c     *procCase
	x     *proc
	hc    *http.Client
	conn  *grpc.ClientConn
	store rangedb.Store
	r     *rand.Rand
}

func (c *procCase) client(x *proc, seed int64) (*procClient, error) {
	k := &procClient{c: c, x: x, r: rand.New(rand.NewSource(seed))}
	k.hc = &http.Client{Transport: &http.Transport{DisableCompression: k.r.Intn(2) == 0, MaxIdleConnsPerHost: 2}, Timeout: 60 * time.Second}
	ctx, done := context.WithTimeout(context.Background(), 20*time.Second)
	defer done()
	var err error
	k.conn, err = grpc.DialContext(ctx, x.grpc, grpc.WithInsecure(), grpc.WithBlock())
	if err != nil {
		return nil, err
	}
	k.store, err = remotestore.New(k.conn)
	if err != nil {
		_ = k.conn.Close()
		return nil, err
	}
	return k, nil
}

func (k *procClient) close() {
	k.hc.CloseIdleConnections()
	_ = k.conn.Close()
}

func (k *procClient) url(path string) string { return "http://" + k.x.http + path }

func procEsc(s string) string { return url.PathEscape(s) }

// post sends a request that changes something.
func (k *procClient) post(path, body string, expected int64) (int, string, error) {
	req, err := http.NewRequest(http.MethodPost, k.url(path), strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	req.Header.Set("Content-Type", "application/json")
	if expected >= 0 {
		req.Header.Set("ExpectedStreamSequenceNumber", fmt.Sprint(expected))
	}
	resp, err := k.hc.Do(req)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, "", err
	}
	return resp.StatusCode, string(b), nil
}

func (k *procClient) get(path string) (int, []byte, error) {
	resp, err := k.hc.Get(k.url(path))
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

type procBody struct {
	AggregateType string      `json:"aggregateType"`
	AggregateID   string      `json:"aggregateID"`
	EventType     string      `json:"eventType"`
	Data          interface{} `json:"data"`
	Metadata      interface{} `json:"metadata"`
}

func procContent(ty, id, ev string, data, meta interface{}) string {
	return fmt.Sprintf("type=%q id=%q ev=%q data=%s meta=%s", ty, id, ev, env.Canon(data), env.Canon(meta))
}

var procTypes = []string{"thing", "Account", "order line", "état"}

// batch makes n events and enters them in the ledger.
func (k *procClient) batch(op *procOp, n int) []procBody {
	ty := procTypes[k.r.Intn(len(procTypes))]
	if i := strings.Index(op.stream, "!"); i > 0 {
		ty = op.stream[:i]
	}
	var out []procBody
	for i := 0; i < n; i++ {
		uid := fmt.Sprintf("e%d.%d", op.begin, i)
		data := map[string]interface{}{"uid": uid, "n": k.r.Int63() - k.r.Int63(), "text": env.RandText(k.r, k.r.Intn(30))}
		switch p := k.r.Intn(60); {
		case p == 0:
			data["big"] = strings.Repeat(uid, k.r.Intn(20000))
		case p < 6:
			data["nested"] = map[string]interface{}{"a": []interface{}{1, "x", nil, k.r.Intn(100)}, "b": true}
		}
		var meta interface{}
		if k.r.Intn(3) == 0 {
			meta = map[string]interface{}{"by": uid, "at": k.r.Intn(1000)}
		}
		b := procBody{AggregateType: ty, AggregateID: op.stream, EventType: []string{"WasDone", "WasUndone"}[k.r.Intn(2)], Data: data, Metadata: meta}
		out = append(out, b)
		op.uids = append(op.uids, uid)
		k.c.mu.Lock()
		if k.c.events == nil {
			k.c.events = map[string]*procEvent{}
		}
		k.c.events[uid] = &procEvent{op: op, content: procContent(b.AggregateType, b.AggregateID, b.EventType, b.Data, b.Metadata)}
		k.c.mu.Unlock()
	}
	return out
}

func (k *procClient) begin(kind byte, stream string) *procOp {
	op := &procOp{kind: kind, stream: stream, begin: k.c.tick(), gen: k.c.nStart, res: 'u'}
	k.c.mu.Lock()
	k.c.ops = append(k.c.ops, op)
	k.c.mu.Unlock()
	return op
}

// finish enters the outcome of a request in the ledger.
func (k *procClient) finish(op *procOp, res byte, n uint64, why string) {
	k.c.mu.Lock()
	op.end, op.res, op.n = k.c.tick(), res, n
	k.c.mu.Unlock()
	if res == 'u' && atomic.LoadInt32(&k.x.signalled) == 0 {
		k.c.t.Fail(k.c.name, "request-failed", "a request failed although nothing had happened to the server: %s\n%s", why, k.x.logs())
	}
}

var ackRe = regexp.MustCompile(`^\{"status":"OK","(?:streamSequenceNumber|eventsDeleted)":(\d+)\}$`)

// save saves n events; expected < 0 means without an expected number.
func (k *procClient) save(stream string, n int, expected int64) *procOp {
	op := k.begin('s', stream)
	b := k.batch(op, n)
	if k.r.Intn(2) == 0 {
		body, err := json.Marshal(b)
		if err != nil {
			panic(err)
		}
		code, text, err := k.post("/api/save-events/"+procEsc(stream), string(body), expected)
		switch {
		case err != nil:
			k.finish(op, 'u', 0, "HTTP save: "+err.Error())
		case code == 201 && ackRe.MatchString(text):
			n, _ := strconv.ParseUint(ackRe.FindStringSubmatch(text)[1], 10, 64)
			k.finish(op, 'a', n, "")
		case code == 409:
			k.finish(op, 'r', 0, "")
		default:
			k.finish(op, 'u', 0, fmt.Sprintf("HTTP save: %d %s", code, text))
		}
		return op
	}
	var recs []*rangedb.EventRecord
	for _, e := range b {
		recs = append(recs, &rangedb.EventRecord{Event: rangedb.NewRawEvent(e.AggregateType, e.AggregateID, e.EventType, e.Data), Metadata: e.Metadata})
	}
	ctx, done := context.WithTimeout(context.Background(), 60*time.Second)
	defer done()
	var num uint64
	var err error
	if expected >= 0 {
		num, err = k.store.OptimisticSave(ctx, uint64(expected), stream, recs...)
	} else {
		num, err = k.store.Save(ctx, stream, recs...)
	}
	switch {
	case err == nil:
		k.finish(op, 'a', num, "")
	default:
		if _, ok := isUnexpected(err); ok {
			k.finish(op, 'r', 0, "")
		} else {
			k.finish(op, 'u', 0, "gRPC save: "+err.Error())
		}
	}
	return op
}

func (k *procClient) remove(stream string, expected uint64) *procOp {
	op := k.begin('d', stream)
	if k.r.Intn(2) == 0 {
		code, text, err := k.post("/api/delete-stream/"+procEsc(stream), "", int64(expected))
		switch {
		case err != nil:
			k.finish(op, 'u', 0, "HTTP delete: "+err.Error())
		case code == 200 && ackRe.MatchString(text):
			k.finish(op, 'a', expected, "")
		case code == 409 || code == 404:
			k.finish(op, 'r', 0, "")
		default:
			k.finish(op, 'u', 0, fmt.Sprintf("HTTP delete: %d %s", code, text))
		}
		return op
	}
	ctx, done := context.WithTimeout(context.Background(), 60*time.Second)
	defer done()
	err := k.store.OptimisticDeleteStream(ctx, expected, stream)
	_, conflict := isUnexpected(err)
	switch {
	case err == nil:
		k.finish(op, 'a', expected, "")
	case conflict || err == rangedb.ErrStreamNotFound:
		k.finish(op, 'r', 0, "")
	default:
		k.finish(op, 'u', 0, "gRPC delete: "+err.Error())
	}
	return op
}

// parseHTTP decodes a complete answer of the event API.
func parseHTTP(ext string, b []byte) ([]*rangedb.Record, error) {
	var out []*rangedb.Record
	add := func(w wsRecord) error {
		rec, err := w.record()
		out = append(out, rec)
		return err
	}
	switch ext {
	case "json":
		var ws []wsRecord
		if err := useNumber(b, &ws); err != nil {
			return nil, err
		}
		if s := strings.TrimSpace(string(b)); !strings.HasSuffix(s, "]") {
			return nil, fmt.Errorf("the list does not end: %s", clip(s))
		}
		for _, w := range ws {
			if err := add(w); err != nil {
				return nil, err
			}
		}
	case "ndjson":
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			if strings.TrimSpace(sc.Text()) == "" {
				continue
			}
			var w wsRecord
			if err := useNumber(sc.Bytes(), &w); err != nil {
				return nil, err
			}
			if err := add(w); err != nil {
				return nil, err
			}
		}
	case "msgpack":
		return env.Collect(msgpackrecordiostream.New().Read(base64.NewDecoder(base64.RawStdEncoding, bytes.NewReader(b))))
	}
	return out, nil
}

var numberText = regexp.MustCompile(`"(-?[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?)"`)

// diffExt compares a download with the records. The msgpack download turns numbers
// into texts, a finding listed with C12 and C14 that is not judged here.
func diffExt(ext string, got, want []*rangedb.Record) string {
	g, w := env.Strings(got), env.Strings(want)
	if ext == "msgpack" {
		for _, l := range [][]string{g, w} {
			for i := range l {
				l[i] = numberText.ReplaceAllString(l[i], "$1")
			}
		}
	}
	return env.Diff(g, w)
}

var procExts = []string{"json", "ndjson", "msgpack"}

// download reads events over HTTP; a nil list means that the request visibly failed.
func (k *procClient) download(path, ext string) ([]*rangedb.Record, string) {
	code, b, err := k.get(path + "." + ext)
	if err != nil {
		return nil, err.Error()
	}
	if code == 404 {
		return []*rangedb.Record{}, ""
	}
	if code != 200 {
		return nil, fmt.Sprintf("%d %s", code, clip(string(b)))
	}
	recs, err := parseHTTP(ext, b)
	if err != nil {
		k.c.t.Fail(k.c.name, "malformed-answer", "%s.%s answered 200 and a complete body that cannot be parsed: %v\n%s", path, ext, err, clip(string(b)))
		return nil, "malformed"
	}
	if recs == nil {
		recs = []*rangedb.Record{}
	}
	return recs, ""
}

// partial checks one complete reading made while others write.
func (k *procClient) partial() {
	start := k.c.tick()
	ext := procExts[k.r.Intn(3)]
	recs, fail := k.download("/api/all-events", ext)
	if recs == nil {
		if atomic.LoadInt32(&k.x.signalled) == 0 {
			k.c.t.Fail(k.c.name, "request-failed", "reading all events failed although nothing had happened to the server: %s\n%s", fail, k.x.logs())
		}
		return
	}
	got := map[string]bool{}
	prev := uint64(0)
	for _, r := range recs {
		u := env.UID(r.Data)
		if r.GlobalSequenceNumber <= prev || got[u] {
			k.c.t.Fail(k.c.name, "read-order", "a reading of all events (%s) holds %s after number %d (seen before: %v)", ext, env.RecString(r), prev, got[u])
			return
		}
		prev = r.GlobalSequenceNumber
		got[u] = true
	}
	k.c.mu.Lock()
	defer k.c.mu.Unlock()
	gone := map[string]bool{}
	for _, op := range k.c.ops {
		if op.kind == 'd' {
			gone[op.stream] = true
		}
	}
	for _, op := range k.c.ops {
		if op.kind != 's' || op.res != 'a' || op.end == 0 || op.end > start || gone[op.stream] {
			continue
		}
		for _, u := range op.uids {
			if !got[u] {
				k.c.t.Fail(k.c.name, "read-incomplete", "a complete answer (%s, %d events) lacks %s, whose save was acknowledged before the request", ext, len(recs), u)
				return
			}
		}
	}
	k.c.t.Count("concurrent readings", 1)
}

// procSub follows the events of the server.
type procSub struct {
	kind  string
	types map[string]bool
	from  uint64
	mu    sync.Mutex
	recs  []*rangedb.Record
	end   string
	done  chan struct{}
	stop  func()
}

func (s *procSub) last() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.recs) == 0 {
		return 0
	}
	return s.recs[len(s.recs)-1].GlobalSequenceNumber
}

func (s *procSub) add(r *rangedb.Record) { s.mu.Lock(); s.recs = append(s.recs, r); s.mu.Unlock() }

// follow subscribes over WebSocket or gRPC.
func (k *procClient) follow(from uint64, types []string) (*procSub, error) {
	s := &procSub{from: from, done: make(chan struct{})}
	if types != nil {
		s.types = map[string]bool{}
		for _, x := range types {
			s.types[x] = true
		}
	}
	if k.r.Intn(2) == 0 {
		s.kind = "WebSocket"
		conn, _, err := (&websocket.Dialer{HandshakeTimeout: 30 * time.Second}).Dial("ws://"+k.x.http+"/ws"+wsPath(types, from, k.r.Intn(2) == 0), nil)
		if err != nil {
			return nil, err
		}
		s.stop = func() { _ = conn.Close() }
		go func() {
			defer close(s.done)
			for {
				_, m, err := conn.ReadMessage()
				if err != nil {
					s.end = err.Error()
					return
				}
				var w wsRecord
				err = useNumber(m, &w)
				var rec *rangedb.Record
				if err == nil {
					rec, err = w.record()
				}
				if err != nil {
					k.c.t.Fail(k.c.name, "subscription-garbage", "a WebSocket client was sent %q: %v", clip(string(m)), err)
					return
				}
				s.add(rec)
			}
		}()
		return s, nil
	}
	s.kind = "gRPC"
	ctx, cancel := context.WithCancel(context.Background())
	s.stop = cancel
	api := rangedbpb.NewRangeDBClient(k.conn)
	var in remotestore.PbRecordReceiver
	var err error
	if types == nil {
		in, err = api.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: from})
	} else {
		in, err = api.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: from, AggregateTypes: types})
	}
	if err != nil {
		cancel()
		return nil, err
	}
	ident := env.NewTypes()
	go func() {
		defer close(s.done)
		for {
			pb, err := in.Recv()
			if err != nil {
				s.end = err.Error()
				return
			}
			rec, err := rangedbpb.ToRecord(pb, ident)
			if err != nil {
				k.c.t.Fail(k.c.name, "subscription-garbage", "a gRPC client was sent a record that cannot be read: %v", err)
				return
			}
			s.add(rec)
		}
	}()
	return s, nil
}

// verify compares everything a running server shows with the ledger.
func (c *procCase) verify(x *proc, what string) (list []*rangedb.Record, ok bool) {
	k, err := c.client(x, c.r.Int63())
	if err != nil {
		c.t.Fail(c.name, "request-failed", "%s: a client cannot connect: %v\n%s", what, err, x.logs())
		return nil, false
	}
	defer k.close()
	fail := func(key, format string, a ...interface{}) ([]*rangedb.Record, bool) {
		c.t.Fail(c.name, key, "%s: %s\n%s", what, fmt.Sprintf(format, a...), c.story())
		return nil, false
	}
	ctx := context.Background()
	list, err = env.Collect(k.store.Events(ctx, 0))
	if err != nil {
		return fail("request-failed", "reading all events failed: %v", err)
	}
	c.mu.Lock()
	if c.seen == nil {
		c.seen, c.ids, c.own, c.pending = map[string]string{}, map[string]string{}, map[string][]string{}, map[string]*procOp{}
	}
	c.mu.Unlock()
	byStream := map[string][]*rangedb.Record{}
	prev, newest := uint64(0), c.maxG
	for _, r := range list {
		u := env.UID(r.Data)
		e := c.events[u]
		if e == nil {
			return fail("unknown-event", "an event nobody saved: %s", env.RecString(r))
		}
		if r.GlobalSequenceNumber <= prev {
			return fail("numbers", "global number %d of %s follows %d", r.GlobalSequenceNumber, u, prev)
		}
		prev = r.GlobalSequenceNumber
		if got := procContent(r.AggregateType, r.AggregateID, r.EventType, r.Data, r.Metadata); got != e.content || r.StreamName != e.op.stream {
			return fail("content", "event %s changed:\n saved in %q: %s\n  read in %q: %s", u, e.op.stream, e.content, r.StreamName, got)
		}
		s := env.RecString(r)
		if old, ok := c.seen[u]; ok {
			if old != s {
				return fail("record-changed", "a stored record changed:\n before %s\n    now %s", old, s)
			}
		} else {
			if r.GlobalSequenceNumber <= c.maxG {
				return fail("numbers", "new event %s got number %d, but %d was already used", u, r.GlobalSequenceNumber, c.maxG)
			}
			if o, ok := c.ids[r.EventID]; ok || r.EventID == "" {
				return fail("event-id", "event id %q of %s was already given to %q", r.EventID, u, o)
			}
			c.ids[r.EventID] = u
			c.seen[u] = s
		}
		if r.GlobalSequenceNumber > newest {
			newest = r.GlobalSequenceNumber
		}
		byStream[r.StreamName] = append(byStream[r.StreamName], r)
	}
	c.maxG = newest
	if msg := c.streams(byStream); msg != "" {
		return fail("ledger", "%s", msg)
	}
	if msg := c.realTime(list); msg != "" {
		return fail("real-time-order", "%s", msg)
	}
	// every interface shows the same
	for _, ext := range procExts {
		recs, why := k.download("/api/all-events", ext)
		if recs == nil {
			return fail("request-failed", "all-events.%s: %s", ext, why)
		}
		if d := diffExt(ext, recs, list); d != "" {
			return fail("interfaces-differ", "all-events.%s differs from gRPC: %s", ext, d)
		}
	}
	streams := []string{"never saved"}
	for s := range byStream {
		streams = append(streams, s)
	}
	sort.Strings(streams)
	for i := 0; i < 3; i++ {
		s := streams[c.r.Intn(len(streams))]
		w := env.Strings(byStream[s])
		ext := procExts[c.r.Intn(3)]
		recs, why := k.download("/api/events-by-stream/"+procEsc(s), ext)
		if recs == nil {
			return fail("request-failed", "events-by-stream/%s: %s", s, why)
		}
		if d := diffExt(ext, recs, byStream[s]); d != "" {
			return fail("interfaces-differ", "events-by-stream/%s differs: %s", s, d)
		}
		recs, err := env.Collect(k.store.EventsByStream(ctx, 0, s))
		if (err != nil || len(w) == 0) && !(err == rangedb.ErrStreamNotFound && len(w) == 0) {
			return fail("request-failed", "reading stream %q over gRPC: %v", s, err)
		}
		if d := env.Diff(env.Strings(recs), w); d != "" {
			return fail("interfaces-differ", "stream %q over gRPC differs: %s", s, d)
		}
		n, err := k.store.TotalEventsInStream(ctx, s)
		if err != nil || n != uint64(len(w)) {
			return fail("interfaces-differ", "the total of stream %q is %d (%v), it holds %d", s, n, err, len(w))
		}
	}
	types := []string{procTypes[c.r.Intn(len(procTypes))], procTypes[c.r.Intn(len(procTypes))]}
	if types[0] == types[1] {
		types = types[:1]
	}
	var w []*rangedb.Record
	for _, r := range list {
		if r.AggregateType == types[0] || r.AggregateType == types[len(types)-1] {
			w = append(w, r)
		}
	}
	var esc []string
	for _, x := range types {
		esc = append(esc, procEsc(x))
	}
	ext := procExts[c.r.Intn(3)]
	recs, why := k.download("/api/events-by-aggregate-type/"+strings.Join(esc, ","), ext)
	if recs == nil {
		return fail("request-failed", "events-by-aggregate-type/%v: %s", types, why)
	}
	if d := diffExt(ext, recs, w); d != "" {
		return fail("interfaces-differ", "events-by-aggregate-type/%v differs: %s", types, d)
	}
	from := uint64(0)
	if len(list) > 0 && c.r.Intn(2) == 0 {
		from = list[c.r.Intn(len(list))].GlobalSequenceNumber
	}
	sub, err := k.follow(from, nil)
	if err != nil {
		return fail("request-failed", "subscribing: %v", err)
	}
	var ws []string
	for _, r := range list {
		if r.GlobalSequenceNumber >= from {
			ws = append(ws, env.RecString(r))
		}
	}
	env.WaitUntil(20*time.Second, func() bool { sub.mu.Lock(); defer sub.mu.Unlock(); return len(sub.recs) >= len(ws) })
	sub.stop()
	<-sub.done
	if d := env.Diff(env.Strings(sub.recs), ws); d != "" {
		return fail("interfaces-differ", "a %s subscriber from number %d was sent something else (%s): %s", sub.kind, from, sub.end, d)
	}
	if !c.deletion {
		if msg := c.stats(k, list); msg != "" {
			return fail("statistics", "%s", msg)
		}
	}
	code, _, err := k.get("/aggregate-types")
	if err != nil || code != 200 {
		return fail("request-failed", "the web page of aggregate types: %d %v", code, err)
	}
	c.t.Count("records verified after a start", len(list))
	if len(list) > 0 {
		c.t.Distinct(fmt.Sprint(c.name, c.nStart, len(list), list[len(list)-1].EventID))
	}
	return list, true
}

// stats compares the statistics with a fold over the events.
func (c *procCase) stats(k *procClient, list []*rangedb.Record) string {
	want := map[string]uint64{}
	for _, r := range list {
		want[r.AggregateType]++
	}
	var last string
	if env.WaitUntil(20*time.Second, func() bool {
		code, b, err := k.get("/api/list-aggregate-types")
		if err != nil || code != 200 {
			last = fmt.Sprintf("list-aggregate-types: %d %v", code, err)
			return false
		}
		var got struct {
			Data []struct {
				Name        string `json:"name"`
				TotalEvents uint64 `json:"totalEvents"`
			} `json:"data"`
			TotalEvents uint64 `json:"totalEvents"`
		}
		if err := json.Unmarshal(b, &got); err != nil {
			last = fmt.Sprintf("list-aggregate-types: %v in %s", err, b)
			return false
		}
		m := map[string]uint64{}
		for _, d := range got.Data {
			m[d.Name] = d.TotalEvents
		}
		last = fmt.Sprintf("the statistics are %v, %d in total; the events are %v, %d in total", m, got.TotalEvents, want, len(list))
		return len(got.Data) == len(want) && fmt.Sprint(m) == fmt.Sprint(want) && got.TotalEvents == uint64(len(list))
	}) {
		return ""
	}
	return last
}

// streams compares the contents of the streams with the ledger.
func (c *procCase) streams(byStream map[string][]*rangedb.Record) string {
	uidsOf := func(s string) []string {
		var out []string
		for _, r := range byStream[s] {
			out = append(out, env.UID(r.Data))
		}
		return out
	}
	for s, recs := range byStream {
		for i, r := range recs {
			if r.StreamSequenceNumber != uint64(i+1) {
				return fmt.Sprintf("event %d of stream %q has number %d", i+1, s, r.StreamSequenceNumber)
			}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	// streams of one client: exactly what its requests made of them
	for s, want := range c.own {
		got := uidsOf(s)
		d := env.Diff(got, want)
		if op := c.pending[s]; d != "" && op != nil {
			other := append([]string(nil), want...)
			if op.kind == 'd' {
				other = nil
			} else {
				other = append(other, op.uids...)
			}
			if d2 := env.Diff(got, other); d2 == "" {
				d = ""
				c.own[s] = other
				c.t.Count("unanswered requests that took effect", 1)
			} else {
				d = fmt.Sprintf("%s; nor what it would be after the unanswered %c of %v", d, op.kind, op.uids)
			}
		} else if op != nil {
			c.t.Count("unanswered requests without effect", 1)
		}
		delete(c.pending, s)
		if d != "" {
			return fmt.Sprintf("stream %q of a single client does not hold what it was told: %s", s, d)
		}
	}
	// shared streams: acknowledged batches in their places, others whole or not at all
	place := map[string]int{}
	for s := range byStream {
		for i, u := range uidsOf(s) {
			place[u] = i
		}
	}
	for _, op := range c.ops {
		if _, own := c.own[op.stream]; own || op.kind != 's' {
			continue
		}
		have := 0
		at := -1
		for i, u := range op.uids {
			p, ok := place[u]
			if !ok {
				continue
			}
			if have == 0 {
				at = p - i
			}
			if p-i != at {
				return fmt.Sprintf("the events of one batch are not next to each other in %q: %s at %d", op.stream, u, p)
			}
			have++
		}
		switch {
		case have != 0 && have != len(op.uids):
			return fmt.Sprintf("only %d of the %d events of a batch (%c) are stored in %q", have, len(op.uids), op.res, op.stream)
		case op.res == 'r' && have != 0:
			return fmt.Sprintf("the refused batch %v is stored in %q", op.uids, op.stream)
		case op.res == 'a' && have == 0:
			return fmt.Sprintf("the acknowledged batch %v (number %d) is missing in %q", op.uids, op.n, op.stream)
		case op.res == 'a' && uint64(at+len(op.uids)) != op.n:
			return fmt.Sprintf("the batch %v was acknowledged with number %d but ends at %d in %q", op.uids, op.n, at+len(op.uids), op.stream)
		}
		if op.res == 'u' {
			// settled from now on
			op.res, op.n = 'r', 0
			if have > 0 {
				op.res, op.n = 'a', uint64(at+have)
			}
		}
	}
	return ""
}

// realTime: what was acknowledged before a request began has lower numbers.
func (c *procCase) realTime(list []*rangedb.Record) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	type iv struct {
		begin, end int64
		lo, hi     uint64
		u          string
	}
	m := map[*procOp]*iv{}
	for _, r := range list {
		e := c.events[env.UID(r.Data)]
		v := m[e.op]
		if v == nil {
			v = &iv{begin: e.op.begin, end: e.op.end, lo: r.GlobalSequenceNumber, u: env.UID(r.Data)}
			m[e.op] = v
		}
		v.hi = r.GlobalSequenceNumber
	}
	var byBegin, byEnd []*iv
	for _, v := range m {
		byBegin = append(byBegin, v)
		if v.end != 0 {
			byEnd = append(byEnd, v)
		}
	}
	sort.Slice(byBegin, func(i, j int) bool { return byBegin[i].begin < byBegin[j].begin })
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	i := 0
	var top *iv
	for _, v := range byBegin {
		for i < len(byEnd) && byEnd[i].end < v.begin {
			if top == nil || byEnd[i].hi > top.hi {
				top = byEnd[i]
			}
			i++
		}
		if top != nil && top.hi > v.lo {
			return fmt.Sprintf("the save of %s was answered before that of %s began, but got number %d, above %d", top.u, v.u, top.hi, v.lo)
		}
	}
	return ""
}

func (c *procCase) story() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var b strings.Builder
	from := 0
	if len(c.ops) > 40 {
		from = len(c.ops) - 40
		fmt.Fprintf(&b, "... %d requests before\n", from)
	}
	for _, op := range c.ops[from:] {
		fmt.Fprintf(&b, "start %d [%d %d] %c %q %s -> %c %d\n", op.gen, op.begin, op.end, op.kind, op.stream, clip(fmt.Sprint(op.uids)), op.res, op.n)
	}
	return b.String()
}

// judgeSub checks what a subscriber was sent against a later reading.
func (c *procCase) judgeSub(s *procSub, list []*rangedb.Record, through uint64) bool {
	fail := func(key, format string, a ...interface{}) bool {
		c.t.Fail(c.name, key, "%s subscriber (types %v) from number %d, sent %d events: %s", s.kind, s.types, s.from, len(s.recs), fmt.Sprintf(format, a...))
		return false
	}
	prev := uint64(0)
	at := map[string]bool{}
	for _, r := range s.recs {
		u := env.UID(r.Data)
		g := r.GlobalSequenceNumber
		if g <= prev || g < s.from || at[u] {
			return fail("subscription-order", "%s after number %d", env.RecString(r), prev)
		}
		if s.types != nil && !s.types[r.AggregateType] {
			return fail("subscription-types", "%s", env.RecString(r))
		}
		prev = g
		at[u] = true
		e := c.events[u]
		if e == nil {
			return fail("subscription-unknown", "an event nobody saved: %s", env.RecString(r))
		}
		str := env.RecString(r)
		old, ok := c.seen[u]
		if !ok {
			// stored, delivered and deleted before anybody read it
			deleted := false
			for _, op := range c.ops {
				deleted = deleted || op.kind == 'd' && op.stream == e.op.stream
			}
			if !deleted {
				return fail("subscription-lost", "%s was delivered but is not stored after the restart", str)
			}
			if got := procContent(r.AggregateType, r.AggregateID, r.EventType, r.Data, r.Metadata); got != e.content {
				return fail("subscription-content", "event %s changed:\n saved: %s\n  sent: %s", u, e.content, got)
			}
			c.seen[u] = str
			if g > c.maxG {
				c.maxG = g
			}
		} else if old != str {
			return fail("subscription-content", "sent  %s\n   stored %s", str, old)
		}
	}
	if through > prev {
		prev = through
	}
	for _, r := range list {
		if r.GlobalSequenceNumber < s.from || r.GlobalSequenceNumber > prev || (s.types != nil && !s.types[r.AggregateType]) {
			continue
		}
		if u := env.UID(r.Data); !at[u] {
			return fail("subscription-gap", "%s was not sent, later events were (up to number %d); the connection ended with %q", env.RecString(r), prev, s.end)
		}
	}
	c.t.Count("events delivered by the server process", len(s.recs))
	return true
}

// work lets several clients use the server until it is signalled (or quota is used up).
func (c *procCase) work(x *proc, quota int, onAck func(n int)) bool {
	var acks int64
	var wg sync.WaitGroup
	// all clients are connected before the first request, which may end the server
	var clients []*procClient
	for n := 2 + c.r.Intn(3); len(clients) < n; {
		k, err := c.client(x, c.r.Int63())
		if err != nil {
			c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
			return false
		}
		clients = append(clients, k)
	}
	for i, k := range clients {
		i, k := i, k
		mine := []string{fmt.Sprintf("mine %d", i), fmt.Sprintf("mine-%d-b", i)}
		c.mu.Lock()
		for _, s := range mine {
			if _, ok := c.own[s]; !ok {
				c.own[s] = nil
			}
		}
		c.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer k.close()
			for j := 0; j < quota && !c.t.Stopped(); j++ {
				var op *procOp
				size := 1 + k.r.Intn(4)
				if k.r.Intn(8) == 0 {
					size = 1 + k.r.Intn(60)
				}
				switch p := k.r.Intn(10); {
				case p == 0:
					k.partial()
					continue
				case p < 6:
					s := fmt.Sprintf("shared-%d", k.r.Intn(3))
					exp := int64(-1)
					if k.r.Intn(4) == 0 {
						exp = int64(k.r.Intn(30))
					}
					op = k.save(s, size, exp)
				default:
					s := mine[k.r.Intn(2)]
					c.mu.Lock()
					have := c.own[s]
					c.mu.Unlock()
					wrong := k.r.Intn(6) == 0
					exp := int64(-1)
					if k.r.Intn(2) == 0 || wrong {
						exp = int64(len(have))
						if wrong {
							exp += int64(1 + k.r.Intn(3))
						}
					}
					var next []string
					if c.deletion && k.r.Intn(4) == 0 {
						if exp < 0 {
							exp = int64(len(have))
						}
						op = k.remove(s, uint64(exp))
						if len(have) == 0 {
							wrong = true
						}
					} else {
						op = k.save(s, size, exp)
						next = append(append([]string(nil), have...), op.uids...)
					}
					c.mu.Lock()
					switch {
					case op.res == 'u':
						c.pending[s] = op
					case (op.res == 'r') != wrong:
						c.mu.Unlock()
						c.t.Fail(c.name, "answer", "the request %c on %q with expected number %d was answered %c; the stream holds %d events", op.kind, s, exp, op.res, len(have))
						return
					case op.res == 'a':
						if op.kind == 's' && op.n != uint64(len(next)) {
							c.mu.Unlock()
							c.t.Fail(c.name, "answer", "a save to %q was acknowledged with number %d instead of %d", s, op.n, len(next))
							return
						}
						c.own[s] = next
					}
					c.mu.Unlock()
				}
				if op.res == 'u' {
					return
				}
				if op.res == 'a' {
					v := int(atomic.AddInt64(&acks, 1))
					if onAck != nil {
						onAck(v)
					}
				}
				c.t.Tick()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		c.t.Fail(c.name, "blocked", "clients were not answered within 150 s\n%s", x.logs())
		_ = x.cmd.Process.Kill()
		return false
	}
	c.t.Count("requests acknowledged", int(acks))
	return true
}

// crash: generations of a LevelDB server, each ended at a random moment.
func (c *procCase) crash(stats bool) {
	c.deletion = !stats
	db := filepath.Join(c.dir, "db")
	gens := 2 + c.r.Intn(3)
	var subs []*procSub
	for g := 0; g <= gens && !c.t.Stopped(); g++ {
		x := c.started(c.dir, "-levelDBPath", db)
		if x == nil {
			return
		}
		list, ok := c.verify(x, fmt.Sprintf("after start %d", g+1))
		if !ok {
			x.signal(os.Kill)
			return
		}
		for _, s := range subs {
			if !c.judgeSub(s, list, 0) {
				x.signal(os.Kill)
				return
			}
		}
		subs = nil
		last := g == gens
		k, err := c.client(x, c.r.Int63())
		if err != nil {
			c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
			return
		}
		for i := 0; i < 2; i++ {
			var types []string
			if k.r.Intn(3) == 0 {
				types = []string{procTypes[k.r.Intn(4)]}
			}
			from := uint64(0)
			if len(list) > 0 && k.r.Intn(2) == 0 {
				from = list[k.r.Intn(len(list))].GlobalSequenceNumber
			}
			s, err := k.follow(from, types)
			if err != nil {
				c.t.Fail(c.name, "request-failed", "subscribing: %v\n%s", err, x.logs())
				return
			}
			subs = append(subs, s)
		}
		if last {
			if !c.work(x, 10+c.r.Intn(20), nil) {
				return
			}
			list, ok = c.verify(x, "at rest")
			if !ok {
				x.signal(os.Kill)
				return
			}
			for _, s := range subs {
				through := uint64(0)
				for _, r := range list {
					if s.types == nil || s.types[r.AggregateType] {
						through = r.GlobalSequenceNumber
					}
				}
				env.WaitUntil(20*time.Second, func() bool { return s.last() >= through })
				x := s
				x.stop()
				<-x.done
				if !c.judgeSub(s, list, through) {
					break
				}
			}
			k.close()
			x.signal(os.Interrupt)
			c.leave(x, os.Interrupt, 60*time.Second)
			return
		}
		sig := os.Signal(os.Kill)
		if k.r.Intn(3) == 0 {
			sig = os.Interrupt
		}
		at, pause := 1+c.r.Intn(60), time.Duration(c.r.Intn(3000))*time.Microsecond
		var once sync.Once
		fire := func() {
			once.Do(func() {
				go func() { time.Sleep(pause); x.signal(sig) }()
			})
		}
		timer := time.AfterFunc(20*time.Second, fire)
		worked := c.work(x, 400, func(n int) {
			if n >= at {
				fire()
			}
		})
		timer.Stop()
		fire()
		if !worked || !c.leave(x, sig, 60*time.Second) {
			return
		}
		for _, s := range subs {
			select {
			case <-s.done:
			case <-time.After(60 * time.Second):
				c.t.Fail(c.name, "blocked", "a %s subscriber still waits a minute after the server ended", s.kind)
				return
			}
		}
		k.close()
		c.t.Count(fmt.Sprintf("servers ended by %v", sig), 1)
	}
}

// memory: a server without a database starts empty, every time.
func (c *procCase) memory() {
	c.deletion = c.r.Intn(2) == 0
	for g := 0; g < 2; g++ {
		c.ops, c.events, c.seen, c.ids, c.maxG, c.own, c.pending = nil, nil, nil, nil, 0, nil, nil
		x := c.started(c.dir)
		if x == nil {
			return
		}
		list, ok := c.verify(x, "a new server in memory")
		if ok && len(list) != 0 {
			c.t.Fail(c.name, "memory-not-empty", "a new server in memory holds %d events", len(list))
			ok = false
		}
		var subs []*procSub
		k, err := c.client(x, c.r.Int63())
		if ok && err == nil {
			for i := 0; i < 2; i++ {
				if s, err := k.follow(0, nil); err == nil {
					subs = append(subs, s)
				}
			}
		}
		if ok && c.work(x, 20+c.r.Intn(40), nil) {
			list, ok = c.verify(x, "at rest")
			if ok && len(list) > 0 {
				through := list[len(list)-1].GlobalSequenceNumber
				for _, s := range subs {
					env.WaitUntil(20*time.Second, func() bool { return s.last() >= through })
					s.stop()
					<-s.done
					c.judgeSub(s, list, through)
				}
			}
		}
		if err == nil {
			k.close()
		}
		x.signal(os.Interrupt)
		if !c.leave(x, os.Interrupt, 60*time.Second) {
			return
		}
	}
}

// idle: connections that are silent for long stay connected, and see everything afterwards.
func (c *procCase) idle() {
	c.deletion = false
	silence := 34 * time.Second
	if c.t.Thorough() {
		silence = 150 * time.Second
	}
	x := c.started(c.dir, "-levelDBPath", filepath.Join(c.dir, "db"))
	if x == nil {
		return
	}
	if _, ok := c.verify(x, "first start"); !ok {
		return
	}
	k, err := c.client(x, c.r.Int63())
	if err != nil {
		c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
		return
	}
	defer k.close()
	var subs []*procSub
	kinds := map[string]int{}
	for len(subs) < 20 && (kinds["gRPC"] < 2 || kinds["WebSocket"] < 2) {
		var types []string
		if c.r.Intn(3) == 0 {
			types = []string{"thing", "Account"}
		}
		s, err := k.follow(0, types)
		if err != nil {
			c.t.Fail(c.name, "request-failed", "cannot subscribe: %v\n%s", err, x.logs())
			return
		}
		defer s.stop()
		kinds[s.kind]++
		subs = append(subs, s)
	}
	embedded := &procSub{kind: "embedded remote store", done: make(chan struct{}), stop: func() {}}
	sub := k.store.AllEventsSubscription(context.Background(), 500, rangedb.RecordSubscriberFunc(embedded.add))
	if err := sub.StartFrom(0); err != nil {
		c.t.Fail(c.name, "request-failed", "cannot subscribe: %v\n%s", err, x.logs())
		return
	}
	defer sub.Stop()
	subs = append(subs, embedded)
	for _, what := range []string{"before the silence", fmt.Sprintf("after %v of silence", silence)} {
		if !c.work(x, 12, nil) {
			return
		}
		list, ok := c.verify(x, what)
		if !ok {
			return
		}
		for _, s := range subs {
			want := 0
			for _, r := range list {
				if s.types == nil || s.types[r.AggregateType] {
					want++
				}
			}
			s := s
			got := func() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.recs) }
			env.WaitUntil(25*time.Second, func() bool { c.t.Tick(); return got() >= want })
			s.mu.Lock()
			ok := c.judgeSub(s, list, list[len(list)-1].GlobalSequenceNumber)
			s.mu.Unlock()
			if !ok {
				c.t.Fail(c.name, "idle-subscription", "%s: see above", what)
				return
			}
		}
		if what[0] == 'b' {
			for end := time.Now().Add(silence); time.Now().Before(end) && !c.t.Stopped(); {
				time.Sleep(500 * time.Millisecond)
				c.t.Tick()
			}
		}
	}
	c.t.Count("idle connections judged", len(subs))
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 60*time.Second)
}

// fill saves about the given number of bytes.
func (c *procCase) fill(k *procClient, stream string, bytes int) bool {
	for done := 0; done < bytes; {
		op := k.begin('s', stream)
		var recs []*rangedb.EventRecord
		for i := 0; i < 20; i++ {
			uid := fmt.Sprintf("e%d.%d", op.begin, i)
			data := map[string]interface{}{"uid": uid, "text": env.RandText(k.r, 10) + strings.Repeat(uid, 2500)}
			op.uids = append(op.uids, uid)
			c.mu.Lock()
			if c.events == nil {
				c.events = map[string]*procEvent{}
			}
			c.events[uid] = &procEvent{op: op, content: procContent("thing", stream, "WasDone", data, nil)}
			c.mu.Unlock()
			recs = append(recs, &rangedb.EventRecord{Event: rangedb.NewRawEvent("thing", stream, "WasDone", data)})
			done += len(data["text"].(string))
		}
		n, err := k.store.Save(context.Background(), stream, recs...)
		if err != nil {
			c.t.Fail(c.name, "request-failed", "a save failed: %v\n%s", err, k.x.logs())
			return false
		}
		k.finish(op, 'a', n, "")
	}
	return true
}

// slowPost is a save whose body arrives in two parts.
type slowPost struct {
	op     *procOp
	pw     *io.PipeWriter
	rest   string
	result chan string
	code   int
}

func (k *procClient) slowPost(stream string) *slowPost {
	p := &slowPost{op: k.begin('s', stream), result: make(chan string, 1)}
	body, err := json.Marshal(k.batch(p.op, 3))
	if err != nil {
		panic(err)
	}
	half := len(body) / 2
	pr, pw := io.Pipe()
	p.pw, p.rest = pw, string(body[half:])
	req, err := http.NewRequest(http.MethodPost, k.url("/api/save-events/"+procEsc(stream)), pr)
	if err != nil {
		panic(err)
	}
	req.Header.Set("Content-Type", "application/json")
	// The server asks for the body once the request is being handled.
	req.Header.Set("Expect", "100-continue")
	hc := &http.Client{Transport: &http.Transport{ExpectContinueTimeout: 30 * time.Second}, Timeout: 60 * time.Second}
	go func() {
		resp, err := hc.Do(req)
		if err != nil {
			p.result <- err.Error()
			return
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		p.code = resp.StatusCode
		if err != nil {
			p.code = 0
			p.result <- err.Error()
			return
		}
		p.result <- string(b)
	}()
	if _, err := pw.Write(body[:half]); err != nil {
		return p
	}
	return p
}

// interrupt: requests in progress when the server is interrupted are finished.
func (c *procCase) interrupt() {
	c.deletion = false
	db := filepath.Join(c.dir, "db")
	inMemory := c.r.Intn(4) == 0
	args := []string{"-levelDBPath", db}
	if inMemory {
		args = nil
	}
	x := c.started(c.dir, args...)
	if x == nil {
		return
	}
	k, err := c.client(x, c.r.Int63())
	if err != nil {
		c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
		return
	}
	defer k.close()
	if !c.fill(k, "filled", 16<<20) {
		return
	}
	list, err := env.Collect(k.store.Events(context.Background(), 0))
	if err != nil {
		c.t.Fail(c.name, "request-failed", "reading all events: %v", err)
		return
	}
	ext := procExts[c.r.Intn(3)]
	hc := &http.Client{Transport: &http.Transport{DisableCompression: true}, Timeout: 60 * time.Second}
	resp, err := hc.Get(k.url("/api/all-events." + ext))
	if err != nil {
		c.t.Fail(c.name, "request-failed", "all-events.%s: %v", ext, err)
		return
	}
	first := make([]byte, 1000)
	if _, err := io.ReadFull(resp.Body, first); err != nil {
		c.t.Fail(c.name, "request-failed", "all-events.%s: %v", ext, err)
		return
	}
	var posts []*slowPost
	for i := 0; i < 3; i++ {
		posts = append(posts, k.slowPost(fmt.Sprintf("slow-%d", i)))
	}
	began := time.Now()
	x.signal(os.Interrupt)
	time.Sleep(time.Duration(100+c.r.Intn(400)) * time.Millisecond)
	late := func() bool { return time.Since(began) > 6*time.Second }
	for _, p := range posts {
		_, _ = io.WriteString(p.pw, p.rest)
		_ = p.pw.Close()
	}
	rest, rerr := io.ReadAll(resp.Body)
	resp.Body.Close()
	if rerr != nil {
		if !late() {
			c.t.Fail(c.name, "download-cut", "a download in progress when the server was interrupted was cut off: %v after %d bytes\n%s", rerr, len(rest), x.logs())
		}
	} else {
		recs, err := parseHTTP(ext, append(first, rest...))
		if d := diffExt(ext, recs, list); err != nil || d != "" {
			c.t.Fail(c.name, "download-wrong", "a download that outlived the interruption differs (%v): %s", err, clip(d))
		}
	}
	for _, p := range posts {
		text := <-p.result
		if m := ackRe.FindStringSubmatch(text); p.code == 201 && m != nil {
			n, _ := strconv.ParseUint(m[1], 10, 64)
			k.finish(p.op, 'a', n, "")
			continue
		}
		k.finish(p.op, 'u', 0, text)
		if !late() {
			c.t.Fail(c.name, "save-cut", "a save in progress when the server was interrupted was not finished: %d %s\n%s", p.code, text, x.logs())
		}
	}
	if !c.leave(x, os.Interrupt, 60*time.Second) || inMemory {
		return
	}
	x = c.started(c.dir, args...)
	if x == nil {
		return
	}
	c.verify(x, "after the interruption")
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 60*time.Second)
}

// stalled: a client that stops reading cannot keep an interrupted server alive.
func (c *procCase) stalled() {
	x := c.started(c.dir, "-levelDBPath", filepath.Join(c.dir, "db"))
	if x == nil {
		return
	}
	k, err := c.client(x, c.r.Int63())
	if err != nil {
		c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
		return
	}
	defer k.close()
	if !c.fill(k, "filled", 30<<20) {
		return
	}
	hc := &http.Client{Transport: &http.Transport{DisableCompression: true}}
	resp, err := hc.Get(k.url("/api/all-events.json"))
	if err != nil {
		c.t.Fail(c.name, "request-failed", "all-events.json: %v", err)
		return
	}
	defer resp.Body.Close()
	conn, _, err := websocket.DefaultDialer.Dial("ws://"+x.http+"/ws/events", nil)
	if err != nil {
		c.t.Fail(c.name, "request-failed", "WebSocket: %v", err)
		return
	}
	defer conn.Close()
	time.Sleep(200 * time.Millisecond)
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 90*time.Second)
}

// locked: a second server on a database in use must give up without harm.
func (c *procCase) locked() {
	db := filepath.Join(c.dir, "db")
	x := c.started(c.dir, "-levelDBPath", db)
	if x == nil {
		return
	}
	if _, ok := c.verify(x, "first start"); !ok || !c.work(x, 10, nil) {
		return
	}
	y := c.server(c.dir, "-levelDBPath", db)
	if y == nil {
		return
	}
	if y.http != "" {
		_ = y.cmd.Process.Kill()
		c.t.Fail(c.name, "shared-database", "a second server started on a database that is in use")
		return
	}
	<-y.done
	if y.state.ExitCode() == 0 {
		c.t.Fail(c.name, "shared-database", "a second server on a database in use ended with status 0\n%s", y.logs())
	}
	// ports in use
	z := c.server(c.dir, "-port", strings.TrimPrefix(x.http, "127.0.0.1:"), "-gRPCPort", "0")
	if z == nil {
		return
	}
	if z.http != "" {
		_ = z.cmd.Process.Kill()
		c.t.Fail(c.name, "shared-port", "a second server started on a port that is in use")
		return
	}
	<-z.done
	if z.state.ExitCode() == 0 {
		c.t.Fail(c.name, "shared-port", "a second server on a port in use ended with status 0\n%s", z.logs())
	}
	if !c.work(x, 10, nil) {
		return
	}
	if _, ok := c.verify(x, "after a second server gave up"); !ok {
		return
	}
	x.signal(os.Kill)
	<-x.done
	x = c.started(c.dir, "-levelDBPath", db)
	if x == nil {
		return
	}
	c.verify(x, "restarted")
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 60*time.Second)
}

// twoDirs: servers with databases of the same name in different places share nothing.
func (c *procCase) twoDirs() {
	cases := []*procCase{c, {procs: c.procs, t: c.t, name: c.name, r: c.r, dir: c.dir}}
	dirs := []string{filepath.Join(c.dir, "a"), filepath.Join(c.dir, "b")}
	for _, d := range dirs {
		if err := os.MkdirAll(filepath.Join(d, "sub"), 0o755); err != nil {
			panic(err)
		}
	}
	paths := [][2]string{{"", "db"}, {"", "./db"}, {"sub", "../db"}}
	for round := 0; round < 2; round++ {
		both := round == 0 && c.r.Intn(2) == 0
		var xs [2]*proc
		for i, k := range cases {
			p := paths[k.r.Intn(3)]
			arg := p[1]
			if k.r.Intn(4) == 0 {
				arg = filepath.Join(dirs[i], "db")
			}
			xs[i] = k.started(filepath.Join(dirs[i], p[0]), "-levelDBPath", arg)
			if xs[i] == nil {
				return
			}
			if _, ok := k.verify(xs[i], fmt.Sprintf("database %d, start %d", i, round)); !ok {
				return
			}
			if !k.work(xs[i], 5+c.r.Intn(10)+20*i, nil) {
				return
			}
			if _, ok := k.verify(xs[i], fmt.Sprintf("database %d, start %d, at rest", i, round)); !ok {
				return
			}
			if !both {
				xs[i].signal(os.Interrupt)
				if !k.leave(xs[i], os.Interrupt, 60*time.Second) {
					return
				}
				// a start and a stop that leave the statistics of all events behind
				xs[i] = k.started(dirs[i], "-levelDBPath", "db")
				if xs[i] == nil {
					return
				}
				if _, ok := k.verify(xs[i], fmt.Sprintf("database %d, restarted", i)); !ok {
					return
				}
				xs[i].signal(os.Interrupt)
				if !k.leave(xs[i], os.Interrupt, 60*time.Second) {
					return
				}
			}
		}
		if both {
			for i, k := range cases {
				xs[i].signal(os.Interrupt)
				if !k.leave(xs[i], os.Interrupt, 60*time.Second) {
					return
				}
			}
		}
	}
}

func (x *proc) fds() (n int) {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", x.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	for _, e := range d {
		if l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", x.cmd.Process.Pid, e.Name())); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// churn: clients that come and go leave no connections behind.
func (c *procCase) churn() {
	c.deletion = false
	x := c.started(c.dir)
	if x == nil {
		return
	}
	if _, ok := c.verify(x, "first start"); !ok || !c.work(x, 10, nil) {
		return
	}
	c.settleFDs(x)
	base := x.fds()
	var wg sync.WaitGroup
	for i := 0; i < 40; i++ {
		seed := c.r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			k, err := c.client(x, seed)
			if err != nil {
				c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
				return
			}
			defer k.close()
			var subs []*procSub
			for j := 0; j < 3; j++ {
				if s, err := k.follow(uint64(k.r.Intn(3)), nil); err == nil {
					subs = append(subs, s)
				} else {
					c.t.Fail(c.name, "request-failed", "subscribing: %v\n%s", err, x.logs())
				}
			}
			path := []string{"/live/aggregate-types", "/live/a/thing"}[k.r.Intn(2)]
			if conn, _, err := websocket.DefaultDialer.Dial("ws://"+x.http+path, nil); err == nil {
				defer conn.Close()
			}
			for j := k.r.Intn(4); j > 0; j-- {
				k.save("churn", 1, -1)
			}
			for _, s := range subs {
				s.stop()
				<-s.done
			}
		}()
	}
	wg.Wait()
	// saving makes the server notice clients that are gone
	k, err := c.client(x, c.r.Int63())
	if err != nil {
		c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
		return
	}
	now := 0
	ok := env.WaitUntil(60*time.Second, func() bool {
		for _, ty := range []string{"thing!", "Account!"} {
			k.save(ty, 1, -1)
		}
		time.Sleep(100 * time.Millisecond)
		now = x.fds()
		return now <= base+4
	})
	k.close()
	if !ok {
		c.t.Fail(c.name, "connections-left", "the server holds %d sockets, it held %d before 40 clients came and went", now, base)
	}
	c.t.Count("clients that came and went", 40)
	c.verify(x, "after clients came and went")
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 60*time.Second)
}

func (c *procCase) settleFDs(x *proc) {
	prev, same := -1, 0
	env.WaitUntil(5*time.Second, func() bool {
		n := x.fds()
		if n == prev {
			same++
		} else {
			same = 0
		}
		prev = n
		time.Sleep(50 * time.Millisecond)
		return same >= 8
	})
}

var printedRe = regexp.MustCompile(`(?m)^.*GlobalSequenceNumber:\s*(\d+).*$`)
var printedUID = regexp.MustCompile(`uid\\":\\"(e[0-9.]+)\\"`)

// follow: the subscriber programs print each event once, in order, across restarts of the server.
func (c *procCase) follow() {
	c.deletion = false
	db := filepath.Join(c.dir, "db")
	x := c.started(c.dir, "-levelDBPath", db)
	if x == nil {
		return
	}
	if _, ok := c.verify(x, "first start"); !ok {
		return
	}
	if c.r.Intn(3) > 0 && !c.work(x, 8, nil) {
		return
	}
	types := []string{"", "thing", "thing,Account"}[c.r.Intn(3)]
	wanted := func(ty string) bool {
		return types == "" || ty == "thing" || types == "thing,Account" && ty == "Account"
	}
	var args, wsArgs []string
	args = append(args, "-host", x.grpc)
	wsArgs = append(wsArgs, "-host", x.http)
	if types != "" {
		args = append(args, "-aggregateTypes", types)
		wsArgs = append(wsArgs, "-aggregateTypes", types)
	}
	tool := c.start(c.dir, c.dir, "grpc-event-subscriber", args...)
	ws := c.start(c.dir, c.dir, "ws-event-subscriber", wsArgs...)
	defer func() { _ = tool.cmd.Process.Kill(); _ = ws.cmd.Process.Kill() }()
	ports := []string{"-port", strings.TrimPrefix(x.http, "127.0.0.1:"), "-gRPCPort", strings.TrimPrefix(x.grpc, "127.0.0.1:"), "-levelDBPath", db}
	restarts := 1 + c.r.Intn(2)
	var list []*rangedb.Record
	for i := 0; ; i++ {
		if !c.work(x, 5+c.r.Intn(10), nil) {
			return
		}
		var ok bool
		if list, ok = c.verify(x, "at rest"); !ok {
			return
		}
		var want []string
		for _, r := range list {
			if wanted(r.AggregateType) {
				want = append(want, fmt.Sprintf("%d %s", r.GlobalSequenceNumber, env.UID(r.Data)))
			}
		}
		printed := func() []string {
			var out []string
			for _, line := range strings.SplitAfter(tool.out.String(), "\n") {
				m := printedRe.FindStringSubmatch(line)
				if m == nil || !strings.HasSuffix(line, "\n") {
					continue
				}
				u := printedUID.FindStringSubmatch(line)
				if u == nil {
					u = []string{"", "?"}
				}
				out = append(out, m[1]+" "+u[1])
			}
			return out
		}
		env.WaitUntil(40*time.Second, func() bool { c.t.Tick(); return len(printed()) >= len(want) })
		time.Sleep(30 * time.Millisecond)
		if d := env.Diff(printed(), want); d != "" {
			c.t.Fail(c.name, "subscriber-program", "after %d restarts of the server, grpc-event-subscriber (types %q) has not printed each event once, in order: %s\nstderr: %s", i, types, d, clip(tool.err.String()))
			return
		}
		if i == 0 {
			var wsWant []string
			for _, r := range list {
				if wanted(r.AggregateType) {
					wsWant = append(wsWant, env.RecString(r))
				}
			}
			wsPrinted := func() (out []string) {
				for _, line := range strings.Split(ws.out.String(), "\n") {
					var w wsRecord
					if !strings.HasPrefix(line, "{") || useNumber([]byte(line), &w) != nil {
						continue
					}
					if rec, err := w.record(); err == nil {
						out = append(out, env.RecString(rec))
					}
				}
				return out
			}
			env.WaitUntil(40*time.Second, func() bool { return len(wsPrinted()) >= len(wsWant) })
			if d := env.Diff(wsPrinted(), wsWant); d != "" {
				c.t.Fail(c.name, "subscriber-program", "ws-event-subscriber (types %q) has not printed each event once, in order: %s\nstderr: %s", types, d, clip(ws.err.String()))
				return
			}
		}
		c.t.Count("events printed by the subscriber programs", len(want))
		if i == restarts {
			break
		}
		x.signal([]os.Signal{os.Kill, os.Interrupt}[c.r.Intn(2)])
		<-x.done
		if !ws.exited(60 * time.Second) {
			c.t.Fail(c.name, "subscriber-program", "ws-event-subscriber still runs a minute after the server ended\n%s", ws.logs())
			return
		}
		x = nil
		for try := 0; try < 5 && x == nil; try++ {
			if x = c.server(c.dir, ports...); x == nil {
				return
			}
			if x.http == "" {
				x = nil
				time.Sleep(300 * time.Millisecond)
			}
		}
		if x == nil {
			c.t.Inconclusive("%s: the ports of the server were taken", c.name)
			return
		}
		if _, ok := c.verify(x, "restarted"); !ok {
			return
		}
	}
	sig := []os.Signal{os.Interrupt, syscall.SIGTERM}[c.r.Intn(2)]
	for _, p := range []*proc{tool, ws} {
		if !p.running() && p == ws {
			continue
		}
		p.signal(sig)
		if !p.exited(60*time.Second) || p.state.ExitCode() != 0 {
			c.t.Fail(c.name, "subscriber-program", "%s did not end well after %v: %v\n%s", filepath.Base(p.cmd.Path), sig, p.state, p.logs())
			return
		}
		c.sound(p)
	}
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 60*time.Second)
}

var generatedRe = regexp.MustCompile(`Saved (\d+) events`)

// generate: the generator program saves as many events as it says.
func (c *procCase) generate() {
	x := c.started(c.dir)
	if x == nil {
		return
	}
	types := []string{"ThingWasDone", "ThatWasDone", "AnotherWasComplete"}
	n := 1 + c.r.Intn(3)
	var tools []*proc
	total, per := 1+c.r.Intn(300), 1+c.r.Intn(20)
	want := map[string]int{}
	for i := 0; i < n; i++ {
		tools = append(tools, c.start(c.dir, c.dir, "gen-random-events", "-host", x.grpc, "-total", fmt.Sprint(total), "-maxPerStream", fmt.Sprint(per), "-eventType", types[i]))
	}
	for i, g := range tools {
		if !g.exited(90*time.Second) || g.state.ExitCode() != 0 || !c.sound(g) {
			_ = g.cmd.Process.Kill()
			c.t.Fail(c.name, "generator-program", "gen-random-events did not end well: %v\n%s", g.state, g.logs())
			return
		}
		all := generatedRe.FindAllStringSubmatch(g.out.String(), -1)
		if len(all) > 0 && atoi(all[len(all)-1][1]) != total {
			c.t.Fail(c.name, "generator-program", "gen-random-events -total %d -maxPerStream %d reports something else\n%s", total, per, g.logs())
			return
		}
		want[types[i]] = total
	}
	k, err := c.client(x, c.r.Int63())
	if err != nil {
		c.t.Fail(c.name, "request-failed", "a client cannot connect: %v\n%s", err, x.logs())
		return
	}
	defer k.close()
	recs, err := env.Collect(k.store.Events(context.Background(), 0))
	if err != nil {
		c.t.Fail(c.name, "request-failed", "reading all events: %v", err)
		return
	}
	got, streams := map[string]int{}, map[string]int{}
	for _, r := range recs {
		got[r.EventType]++
		streams[r.StreamName]++
	}
	for s, m := range streams {
		if m > per {
			c.t.Fail(c.name, "generator-program", "gen-random-events -maxPerStream %d saved %d events in %q", per, m, s)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.t.Fail(c.name, "generator-program", "the programs saved %v, the server holds %v", want, got)
	}
	c.t.Count("events saved by the generator program", len(recs))
	x.signal(os.Interrupt)
	c.leave(x, os.Interrupt, 60*time.Second)
}
