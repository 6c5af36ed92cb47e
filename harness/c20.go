package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gorilla/websocket"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"github.com/inklabs/rangedb/provider/encryptedstore"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C20"] = c20 }

// raceReports parses the log of the race detector. A report counts when one of
// the two accesses was made by the code under test, or by a library that it
// called, and not by a function of this harness.
func raceReports(path string) (found []string, total int) {
	files, _ := filepath.Glob(path + ".*")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			total++
			if i := strings.Index(rep, "\nGoroutine "); i >= 0 {
				rep2 := rep[:i]
				if raceInRepo(rep2) {
					found = append(found, rep)
				}
			} else if raceInRepo(rep) {
				found = append(found, rep)
			}
		}
	}
	return
}

func raceInRepo(rep string) bool {
	for _, part := range strings.Split(rep, "\n\n") {
		for _, line := range strings.Split(part, "\n") {
			if !strings.HasPrefix(line, "  ") || strings.HasPrefix(line, "   ") {
				continue
			}
			f := strings.TrimSpace(line)
			if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "rangedbverif/") {
				break
			}
			if strings.HasPrefix(f, core.RepoPath) {
				return true
			}
		}
	}
	return false
}

// raceKey names a report by the functions of the code under test in it.
func raceKey(rep string) string {
	var fs []string
	for _, line := range strings.Split(rep, "\n") {
		f := strings.TrimSpace(line)
		if strings.HasPrefix(f, core.RepoPath) && strings.HasPrefix(line, "  ") && !strings.HasPrefix(line, "   ") {
			f = strings.TrimPrefix(f, core.RepoPath)
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	var u []string
	for i, f := range fs {
		if i == 0 || f != fs[i-1] {
			u = append(u, f)
		}
	}
	if len(u) > 3 {
		u = u[:3]
	}
	return "race:" + strings.Join(u, ",")
}

func c20(t *core.T) {
	logPath := os.Getenv("VERIF_RACE_LOG")
	if logPath == "" || !raceEnabled {
		fmt.Fprintln(os.Stderr, "C20 needs the race detector build")
		os.Exit(3)
	}
	// the detector itself must be alive
	canary := 0
	done := make(chan struct{})
	go func() { canary++; close(done) }()
	canary++
	<-done
	if _, n := raceReports(logPath); n == 0 {
		fmt.Fprintln(os.Stderr, "the race detector does not report the canary")
		os.Exit(3)
	}
	env.GRPCWindow = 4 << 20
	log.SetOutput(io.Discard)
	if t.Thorough() {
		c20Repeat(t)
		return
	}
	stage := func(name string, scale float64, f func(*core.T)) {
		if t.Only != "" && !strings.HasPrefix(t.Only, name) {
			return
		}
		start := time.Now()
		only := t.Only
		t.Only = ""
		t.Scale = scale
		t.Mute(true)
		f(t)
		t.Mute(false)
		t.Scale = 0
		t.Only = only
		t.Count("goroutines left after "+name, runtime.NumGoroutine())
		t.Count("ms in "+name, int(time.Since(start).Milliseconds()))
		seen := map[string]bool{}
		found, _ := raceReports(logPath)
		for _, rep := range found {
			if k := raceKey(rep); !seen[k] {
				seen[k] = true
				t.Fail(name, k, "the race detector reported:\n%s", rep)
			}
		}
	}
	// the mixed workload first: it is the broadest
	stage("mix", 1, func(t *core.T) {
		j := &jobs{t: t}
		for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "pgnotify"} {
			kind := k
			j.add(t.N(8, 400), "mix-"+kind, func(t *core.T, name string, r *rand.Rand) { c20Mix(t, name, kind, r) })
		}
		j.run(5)
	})
	for _, s := range []struct {
		id    string
		scale float64
	}{{"C01", .08}, {"C05", .02}, {"C07", .2}, {"C08", .15}, {"C09", .1}, {"C10", .05}, {"C12", .005}, {"C14", .008}, {"C15", .3}, {"C16", .04}, {"C17", .006}, {"C18", .03}, {"C19", .03}, {"C23", .02}} {
		if t.Stopped() {
			break
		}
		f := checks[s.id]
		stage(s.id, s.scale, f)
	}
	t.SetRule("the race detector (ThreadSanitizer) watches a mixed workload on one store (writers, deletions, every read, subscriptions starting, stopping and cancelled, gRPC, HTTP API, WebSocket and web interface clients, an encrypting store, statistics readers) and reduced runs of the concurrent workloads of the other checks; every report with an access made by the code under test is a violation, and so is a record that reads differently after it was handed out. Non-trivial: a record handed to a consumer was checked again, or a workload of another check ran; distinct by workload and results")
	if d := os.Getenv("VERIF_RACE_KEEP"); d != "" {
		files, _ := filepath.Glob(logPath + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			_ = os.WriteFile(filepath.Join(d, filepath.Base(f)), b, 0o600)
		}
	}
	_, n := raceReports(logPath)
	t.Count("race reports, the canary and the harness included", n)
}

// c20Repeat runs the quick check many times with other seeds, each in a process
// of its own, because the detector limits the goroutines of one process.
func c20Repeat(t *core.T) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	end := time.Now().Add(100 * time.Minute)
	for i := 0; time.Now().Before(end) && !t.Stopped(); i++ {
		dir, rm := env.ScratchDir()
		cmd := exec.Command(exe, "worker", "C20")
		seed := t.Seed*1000 + int64(i)
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "VERIF_") && !strings.HasPrefix(e, "GORACE=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		logp := filepath.Join(dir, "race")
		cmd.Env = append(cmd.Env, "VERIF_TIER=quick", "VERIF_ROOT="+dir, fmt.Sprint("VERIF_SEED=", seed), "VERIF_RACE_LOG="+logp,
			"GORACE=exitcode=0 halt_on_error=0 history_size=3 log_path="+logp)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		runtime.LockOSThread()
		done := make(chan struct{})
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(5 * time.Second):
					t.Tick()
				}
			}
		}()
		out, err := cmd.CombinedOutput()
		close(done)
		runtime.UnlockOSThread()
		rm()
		t.Eval()
		if err == nil {
			t.Count("repetitions", 1)
			t.Distinct(string(out))
			continue
		}
		if strings.Contains(string(out), "VIOLATION property=C20") {
			t.Fail(fmt.Sprint("seed ", seed), fmt.Sprint("repeat", i), "with seed %d: %s", seed, string(out))
		} else {
			t.Inconclusive("seed %d: %v %s", seed, err, clip(string(out)))
		}
	}
	t.SetRule("the quick check repeated in fresh processes with other seeds; distinct by their observations")
}

// kept is a record and how it looked when it was handed out.
type kept struct {
	rec *rangedb.Record
	s   string
	by  string
}

func c20Mix(t *core.T, name, kind string, r0 *rand.Rand) {
	g := env.Open("remote-" + kind)
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		g.Close()
	}()
	env.BindPersons(g.Store)
	env.BindPersons(g.Inner)
	remote, store := g.Store, g.Inner
	api, err := rangedbapi.New(rangedbapi.WithStore(store))
	if err != nil {
		t.Count("mix failed", 1)
		return
	}
	stats := api.AggregateTypeStatsProjection()
	ws, err := rangedbws.New(rangedbws.WithStore(store))
	if err != nil {
		t.Count("mix failed", 1)
		return
	}
	defer ws.Stop()
	ui := rangedbui.New(stats, store)
	wss := newWSServer(ws, 0)
	defer wss.close()
	uis := newWSServer(ui, 0)
	defer uis.close()
	keys := inmemorykeystore.New()
	enc := encryptedstore.New(store, eventencryptor.New(keys, anyCipher(r0)))
	stores := []rangedb.Store{store, store, remote, enc}
	types := []string{"thing", "another", "person", "plain"}

	var mu sync.Mutex
	var held []kept
	keep := func(by string, rec *rangedb.Record) {
		if rec == nil {
			return
		}
		s := env.RecString(rec)
		mu.Lock()
		if len(held) < 6000 {
			held = append(held, kept{rec, s, by})
		}
		mu.Unlock()
	}
	var stop int32
	var wg sync.WaitGroup
	worker := func(label string, n int, f func(r *rand.Rand, i int)) {
		for w := 0; w < n; w++ {
			r := t.Rand(fmt.Sprintf("%s/%s%d", name, label, w))
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				t.Guard(name, func() {
					for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
						f(r, w*100000+i)
						t.Count("mixed operations", 1)
						t.Tick()
						time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
					}
				})
			}(w)
		}
	}
	pickStore := func(r *rand.Rand) rangedb.Store { return stores[r.Intn(len(stores))] }
	worker("save", 3, func(r *rand.Rand, i int) {
		st := pickStore(r)
		id := fmt.Sprintf("id%d", r.Intn(4))
		var b []*rangedb.EventRecord
		if r.Intn(3) == 0 {
			ev, _, _ := env.MakePerson(r, "s"+id, fmt.Sprint(i))
			b = []*rangedb.EventRecord{{Event: ev, Metadata: map[string]interface{}{"u": i}}}
		} else {
			b = simpleBatch(r, types[r.Intn(2)], id, fmt.Sprint(i), 1+r.Intn(3))
		}
		name := rangedb.GetEventStream(b[0].Event)
		if r.Intn(3) == 0 {
			n, _ := st.TotalEventsInStream(ctx, name)
			_, _ = st.OptimisticSave(ctx, n, name, b...)
		} else {
			_, _ = st.Save(ctx, name, b...)
		}
	})
	worker("delete", 1, func(r *rand.Rand, i int) {
		if r.Intn(6) == 0 {
			st := pickStore(r)
			name := rangedb.GetStream(types[r.Intn(2)], fmt.Sprintf("id%d", r.Intn(4)))
			n, _ := st.TotalEventsInStream(ctx, name)
			_ = st.OptimisticDeleteStream(ctx, n, name)
		}
		if r.Intn(20) == 0 {
			_ = keys.Delete(fmt.Sprintf("sid%d", r.Intn(4)))
		}
	})
	worker("read", 3, func(r *rand.Rand, i int) {
		st := pickStore(r)
		c, cn := context.WithCancel(ctx)
		defer cn()
		var it rangedb.RecordIterator
		from := uint64(r.Intn(10))
		if r.Intn(2) == 0 {
			from = uint64(r.Intn(60))
		}
		switch r.Intn(3) {
		case 0:
			it = st.Events(c, from)
		case 1:
			it = st.EventsByAggregateTypes(c, from, types[:1+r.Intn(4)]...)
		default:
			it = st.EventsByStream(c, from, rangedb.GetStream(types[r.Intn(2)], fmt.Sprintf("id%d", r.Intn(4))))
		}
		for n := 0; n < 100 && it.Next() && it.Err() == nil; n++ {
			keep("read", it.Record())
			if r.Intn(60) == 0 {
				cn()
				break
			}
		}
	})
	worker("subscribe", 3, func(r *rand.Rand, i int) {
		st := pickStore(r)
		c, cn := context.WithCancel(ctx)
		defer cn()
		sub := rangedb.RecordSubscriberFunc(func(rec *rangedb.Record) { keep("subscriber", rec) })
		var s rangedb.RecordSubscription
		if r.Intn(2) == 0 {
			s = st.AllEventsSubscription(c, 1+r.Intn(50), sub)
		} else {
			s = st.AggregateTypesSubscription(c, 1+r.Intn(50), sub, types[:1+r.Intn(4)]...)
		}
		if r.Intn(2) == 0 {
			_ = s.Start()
		} else {
			_ = s.StartFrom(uint64(r.Intn(40)))
		}
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		switch r.Intn(3) {
		case 0:
			go s.Stop()
			s.Stop()
		case 1:
			cn()
		}
		s.Stop()
	})
	get := func(h http.Handler, path string) []byte {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
		return w.Body.Bytes()
	}
	worker("http", 2, func(r *rand.Rand, i int) {
		ext := []string{"json", "ndjson", "msgpack"}[r.Intn(3)]
		switch r.Intn(6) {
		case 0:
			get(api, "/all-events."+ext)
		case 1:
			get(api, "/events-by-aggregate-type/thing,another."+ext)
		case 2:
			get(api, "/events-by-stream/thing!id1."+ext)
		case 3:
			get(api, "/list-aggregate-types")
		default:
			body := fmt.Sprintf(`[{"aggregateType":"thing","aggregateID":"id%d","eventType":"VerifA","data":{"uid":"h%d"},"metadata":null}]`, r.Intn(4), i)
			req := httptest.NewRequest("POST", fmt.Sprintf("/save-events/thing!id%d", r.Intn(4)), strings.NewReader(body))
			req.Header.Set("Content-Type", "application/json")
			api.ServeHTTP(httptest.NewRecorder(), req)
		}
	})
	worker("stats", 1, func(r *rand.Rand, i int) {
		_ = statsNow(stats)
		_ = stats.SaveSnapshot(&bytes.Buffer{})
	})
	worker("ui", 1, func(r *rand.Rand, i int) {
		paths := []string{"/", "/aggregate-types", "/a/thing?itemsPerPage=5", "/a/thing/id1?itemsPerPage=2&global-sequence-number=3", "/a/thing/id1", "/aggregate-types/live", "/static/x"}
		get(ui, paths[r.Intn(len(paths))])
	})
	worker("ws", 2, func(r *rand.Rand, i int) {
		u := wss.base + wsPath(types[:r.Intn(3)], uint64(r.Intn(30)), true)
		if r.Intn(3) == 0 {
			u = uis.base + []string{"/live/aggregate-types", "/live/a/thing"}[r.Intn(2)]
		}
		if strings.HasSuffix(u, "/events/") {
			u = wss.base + "/events"
		}
		c, resp, err := wss.dial.Dial(u, nil)
		if err != nil {
			if resp != nil {
				t.Count(fmt.Sprintf("WebSocket handshakes refused with %d", resp.StatusCode), 1)
			}
			return
		}
		_ = c.SetReadDeadline(time.Now().Add(time.Duration(5+r.Intn(40)) * time.Millisecond))
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				break
			}
		}
		if r.Intn(2) == 0 {
			_ = c.WriteControl(websocket.CloseMessage, nil, time.Now().Add(time.Second))
		}
		_ = c.Close()
	})
	time.Sleep(300 * time.Millisecond)
	atomic.StoreInt32(&stop, 1)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(opLimit):
		t.Count("mix did not end", 1)
		cancel()
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, k := range held {
		if now := env.RecString(k.rec); now != k.s {
			t.Mute(false)
			t.Fail(name, "changed-later", "[%s] a record handed to a %s reads differently later:\n  then %s\n  now  %s", kind, k.by, k.s, now)
			t.Mute(true)
			return
		}
	}
	t.Count("records read again", len(held))
	t.Distinct(fmt.Sprint("mix", kind, len(held), len(held) > 0))
}
