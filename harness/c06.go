package main

import (
	"bufio"
	"context"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C06"] = c06 }

// script is a deterministic sequence of operations on one stream.
type script struct {
	seed   int64
	stream string
	big    bool
	wide   bool // one operation in five is a large batch
}

type scriptOp struct {
	kind string // save, opt, del, bad
	n    int
	pos  int
	uids []string
}

func (s script) rng(i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", s.seed, s.stream, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// op returns operation i, given the stream's length before it.
func (s script) op(i, length int) scriptOp {
	r := s.rng(i)
	k := r.Intn(100)
	o := scriptOp{kind: "save", n: 1 + r.Intn(4)}
	if s.wide {
		o.n = batchSize(r, 4, 5)
	}
	o.pos = r.Intn(o.n)
	switch {
	case k < 15 && length > 0:
		return scriptOp{kind: "del"}
	case k < 30:
		o.kind = "bad"
	case k < 55:
		o.kind = "opt"
	}
	for j := 0; j < o.n; j++ {
		o.uids = append(o.uids, fmt.Sprintf("%s.%d/%d/%d", s.stream, i, j, o.n))
	}
	return o
}

func (s script) payload(uid string) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", s.seed, uid)
	x := h.Sum64()
	n := int(x % 60)
	if s.big && x%7 == 0 {
		n = int(x>>8) % 60000
	}
	return strings.Repeat(string(rune('a'+x%26)), n)
}

// apply returns the stream's events after operation i.
func (s script) apply(i int, cur []string) []string {
	o := s.op(i, len(cur))
	switch o.kind {
	case "del":
		return nil
	case "bad":
		return cur
	}
	return append(append([]string{}, cur...), o.uids...)
}

// state returns the stream's events after the first n operations.
func (s script) state(n int) []string {
	var cur []string
	for i := 0; i < n; i++ {
		cur = s.apply(i, cur)
	}
	return cur
}

func scriptType(stream string) string { return "ty" + stream[len(stream)-1:] }

// run performs operation i on the store.
func (s script) run(st rangedb.Store, i int, cur []string) (string, error) {
	o := s.op(i, len(cur))
	ctx := context.Background()
	if o.kind == "del" {
		err := st.OptimisticDeleteStream(ctx, uint64(len(cur)), s.stream)
		return "del", err
	}
	var b []*rangedb.EventRecord
	for _, u := range o.uids {
		b = append(b, &rangedb.EventRecord{Event: &env.EvA{T: scriptType(s.stream), ID: s.stream, UID: u, Payload: s.payload(u)}})
	}
	if o.kind == "bad" {
		b[o.pos].Event = &env.EvFail{T: scriptType(s.stream), ID: s.stream}
		if _, err := st.Save(ctx, s.stream, b...); err == nil {
			return o.kind, fmt.Errorf("a batch with an unserializable event was accepted")
		}
		return o.kind, nil
	}
	var n uint64
	var err error
	if o.kind == "opt" {
		n, err = st.OptimisticSave(ctx, uint64(len(cur)), s.stream, b...)
	} else {
		n, err = st.Save(ctx, s.stream, b...)
	}
	if err == nil && n != uint64(len(cur)+o.n) {
		err = fmt.Errorf("save at length %d of %d events returned %d", len(cur), o.n, n)
	}
	return o.kind, err
}

type progress struct{ acked, started int }

// verifyRecovered checks a reopened store against the scripts' progress. It
// returns the operation index each stream is at.
func verifyRecovered(st rangedb.Store, scripts []script, prog []progress, minNextG uint64) (at []int, maxG uint64, e string) {
	ctx := context.Background()
	all, err := env.Collect(st.Events(ctx, 0))
	if err != nil {
		return nil, 0, fmt.Sprintf("reading all events after recovery: %v", err)
	}
	byStream := map[string][]string{}
	byType := map[string][]string{}
	rendered := map[string][]string{}
	known := map[string]bool{}
	for _, s := range scripts {
		known[s.stream] = true
	}
	for _, r := range all {
		if r.GlobalSequenceNumber <= maxG {
			return nil, 0, fmt.Sprintf("global numbers not ascending after recovery: %d after %d", r.GlobalSequenceNumber, maxG)
		}
		maxG = r.GlobalSequenceNumber
		if !known[r.StreamName] {
			return nil, 0, fmt.Sprintf("unknown stream %q after recovery", r.StreamName)
		}
		byStream[r.StreamName] = append(byStream[r.StreamName], env.UID(r.Data))
		byType[r.AggregateType] = append(byType[r.AggregateType], env.RecString(r))
		rendered[r.StreamName] = append(rendered[r.StreamName], env.RecString(r))
		if int(r.StreamSequenceNumber) != len(byStream[r.StreamName]) {
			return nil, 0, fmt.Sprintf("stream %s has number %d at position %d after recovery", r.StreamName, r.StreamSequenceNumber, len(byStream[r.StreamName]))
		}
	}
	types := map[string]bool{}
	for k, s := range scripts {
		types[scriptType(s.stream)] = true
		got := strings.Join(byStream[s.stream], " ")
		old, next := s.state(prog[k].acked), s.state(prog[k].started)
		switch got {
		case strings.Join(next, " "):
			at = append(at, prog[k].started)
		case strings.Join(old, " "):
			at = append(at, prog[k].acked)
		default:
			return nil, 0, fmt.Sprintf("stream %s after recovery holds\n   %v\nbut its %d acknowledged operations leave\n   %v\nand with the unacknowledged one\n   %v", s.stream, byStream[s.stream], prog[k].acked, old, next)
		}
		for _, r := range all {
			if r.StreamName != s.stream {
				continue
			}
			d, ok := r.Data.(*env.EvA)
			if !ok || d.Payload != s.payload(d.UID) || r.AggregateType != scriptType(s.stream) || r.AggregateID != s.stream {
				return nil, 0, fmt.Sprintf("contents of %s changed by recovery: %.300s", env.UID(r.Data), env.RecString(r))
			}
		}
		rs, err := env.Collect(st.EventsByStream(ctx, 0, s.stream))
		if len(byStream[s.stream]) == 0 {
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() {
				return nil, 0, fmt.Sprintf("empty stream %s reads as %d events, %v after recovery", s.stream, len(rs), err)
			}
		} else if d := env.Diff(env.Strings(rs), rendered[s.stream]); err != nil || d != "" {
			return nil, 0, fmt.Sprintf("stream view of %s after recovery differs from the all-events view (%v) %.600s", s.stream, err, d)
		}
		n, err := st.TotalEventsInStream(ctx, s.stream)
		if err != nil || int(n) != len(byStream[s.stream]) {
			return nil, 0, fmt.Sprintf("total of %s after recovery is %d (%v), expected %d", s.stream, n, err, len(byStream[s.stream]))
		}
	}
	for ty := range types {
		rs, err := env.Collect(st.EventsByAggregateTypes(ctx, 0, ty))
		if d := env.Diff(env.Strings(rs), byType[ty]); err != nil || d != "" {
			return nil, 0, fmt.Sprintf("type view of %s after recovery differs from the all-events view (%v) %.600s", ty, err, d)
		}
	}
	return at, maxG, ""
}

// probe checks that new writes work and continue the numbering.
func probe(st rangedb.Store, scripts []script, at []int, above uint64) string {
	ctx := context.Background()
	for k, s := range scripts {
		cur := s.state(at[k])
		u := fmt.Sprintf("probe-%s", s.stream)
		n, err := st.OptimisticSave(ctx, uint64(len(cur)), s.stream, &rangedb.EventRecord{Event: &env.EvA{T: scriptType(s.stream), ID: s.stream, UID: u}})
		if err != nil || n != uint64(len(cur)+1) {
			return fmt.Sprintf("new save to %s after recovery returned %d, %v; expected %d", s.stream, n, err, len(cur)+1)
		}
		rs, err := env.Collect(st.Events(ctx, above+1))
		if err != nil || len(rs) == 0 || env.UID(rs[len(rs)-1].Data) != u || rs[len(rs)-1].GlobalSequenceNumber <= above {
			all, _ := env.Collect(st.Events(ctx, 0))
			return fmt.Sprintf("the event saved after recovery does not have a global number above %d: view %v", above, env.GSNs(all))
		}
		above = rs[len(rs)-1].GlobalSequenceNumber
	}
	return ""
}

func openLdb(path string, mp bool) (rangedb.Store, func() error, error) {
	opts := leveldbstore.WithSerializer(jsonrecordserializer.New())
	if mp {
		opts = leveldbstore.WithSerializer(msgpackrecordserializer.New())
	}
	st, err := leveldbstore.New(path, opts)
	if err != nil {
		return nil, nil, err
	}
	env.BindAll(st)
	return st, st.Stop, nil
}

func c06(t *core.T) {
	t.Level = "fault_enumeration"
	t.SetRule("(1) the LevelDB store runs on a storage that logs every create, write, sync, rename, remove and meta operation with markers for started and acknowledged saves and deletes; for every prefix of that log and several losses of unsynced data the storage is rebuilt and reopened by the real store, and all views are compared with what the acknowledged operations must leave (the unacknowledged one whole or absent), then new writes are made; crashes during that recovery are enumerated too; (2) child processes with concurrent writers on real files are killed with SIGKILL at random instants, over several generations; (3) storage operations fail, then the process crashes; (4) clean stop and reopen on real files. Non-trivial: at least one acknowledged operation before the crash; distinct by crash point, loss and history")
	t.Parallel(t.N(24, 300), 8, func(i int) { c06Enumerate(t, fmt.Sprintf("crash-%d", i), i) })
	t.Parallel(t.N(40, 800), 8, func(i int) { c06Fault(t, fmt.Sprintf("fault-%d", i)) })
	t.Parallel(t.N(8, 100), 4, func(i int) { c06Kill(t, fmt.Sprintf("kill-%d", i), t.N(4, 8)) })
	t.Parallel(t.N(16, 200), 8, func(i int) {
		name := fmt.Sprintf("clean-%d", i)
		if t.Skip(name) {
			return
		}
		c06Clean(t, name, i)
	})
}

func losses(r *rand.Rand) []env.Loss {
	return []env.Loss{
		func(_ storage.FileDesc, size, synced int) int { return synced },
		func(_ storage.FileDesc, size, synced int) int { return size },
		func(_ storage.FileDesc, size, synced int) int { return synced + r.Intn(size-synced+1) },
	}
}

// c06Enumerate records one run and crashes it at every logged operation.
func c06Enumerate(t *core.T, name string, no int) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		mp := no%2 == 1
		var scripts []script
		ns := 1 + r.Intn(3)
		wide := no%6 == 5
		if wide {
			ns = 1
		}
		for k := 0; k < ns; k++ {
			scripts = append(scripts, script{seed: r.Int63(), stream: fmt.Sprintf("cr%d", k), big: no%3 == 0 && !wide, wide: wide})
		}
		ls := env.NewLogStorage(true)
		path := env.MemPath(ls.Adapter())
		defer env.DropMem(path)
		st, stop, err := openLdb(path, mp)
		if err != nil {
			t.Fail(name, "open", "open on empty storage: %v", err)
			return
		}
		total := 10 + r.Intn(14)
		if wide {
			total = 8
		}
		cur := make([][]string, ns)
		pos := make([]int, ns)
		maxGs := []uint64{0} // highest number handed out after each operation
		var order []int      // which stream operation i concerned
		var opLog []string
		for i := 0; i < total; i++ {
			k := r.Intn(ns)
			ls.Mark(i, true)
			kind, err := scripts[k].run(st, pos[k], cur[k])
			if err != nil {
				t.Fail(name, "operation", "%s failed: %v", kind, err)
				_ = stop()
				return
			}
			ls.Mark(i, false)
			opLog = append(opLog, fmt.Sprintf("%d:%s(%s)", i, kind, scripts[k].stream))
			cur[k] = scripts[k].apply(pos[k], cur[k])
			pos[k]++
			order = append(order, k)
			g := maxGs[len(maxGs)-1]
			rs, err := env.Collect(st.Events(context.Background(), g))
			if err == nil && len(rs) > 0 && rs[len(rs)-1].GlobalSequenceNumber > g {
				g = rs[len(rs)-1].GlobalSequenceNumber
			}
			maxGs = append(maxGs, g)
			if r.Intn(12) == 0 { // clean restart in the middle
				if err := stop(); err != nil {
					t.Fail(name, "stop", "stop: %v", err)
					return
				}
				if st, stop, err = openLdb(path, mp); err != nil {
					t.Fail(name, "reopen", "reopen after clean stop: %v", err)
					return
				}
			}
		}
		_ = stop()
		log := ls.TakeLog()
		lastOp := -1
		for n := 0; n <= len(log); n++ {
			if n > 0 && log[n-1].Kind != env.OpAck {
				lastOp = n
			}
			if n > 0 && n < len(log) && log[n-1].Kind == env.OpAck && !log[n-1].Start && lastOp < 0 {
				continue
			}
			prog := make([]progress, ns)
			acked := 0
			for _, o := range log[:n] {
				if o.Kind != env.OpAck {
					continue
				}
				k := order[o.Ack]
				if o.Start {
					prog[k].started++
				} else {
					prog[k].acked++
					acked++
				}
			}
			for li, loss := range losses(r) {
				if t.Stopped() {
					return
				}
				if li == 1 && n%3 != 0 && !unsyncedManifest(log[:n]) || li == 2 && n%2 != 0 {
					continue
				}
				where := "start"
				if n > 0 {
					where = fmt.Sprintf("%d %v", log[n-1].Kind, log[n-1].Fd)
				}
				if !c06Crash(t, fmt.Sprintf("%s/at%d/loss%d", name, n, li), nil, log, n, loss, scripts, prog, maxGs[acked], mp, 1, opLog, where) {
					return
				}
				if acked > 0 {
					t.Distinct(fmt.Sprintf("%s/%d/%d", name, n, li))
				}
			}
		}
		t.Sample(map[string]interface{}{"case": name, "operations": opLog, "storage_operations": len(log)})
	})
}

// unsyncedManifest tells that the log ends where the manifest that was made
// current has not been synced since it was created.
func unsyncedManifest(log []env.Op) bool {
	for i := len(log) - 1; i >= 0; i-- {
		if log[i].Kind != env.OpSetMeta {
			continue
		}
		fd := log[i].Fd
		for j := len(log) - 1; j >= 0; j-- {
			if log[j].Fd == fd && log[j].Kind == env.OpSync {
				return false
			}
			if log[j].Fd == fd && log[j].Kind == env.OpCreate {
				return true
			}
		}
	}
	return false
}

// c06Crash rebuilds, reopens, verifies and probes; depth>0 also crashes the recovery.
func c06Crash(t *core.T, name string, base *env.LogStorage, log []env.Op, n int, loss env.Loss, scripts []script, prog []progress, above uint64, mp bool, depth int, opLog []string, where string) bool {
	ls := env.Rebuild(base, log, n, loss)
	snap := ls.Snapshot()
	ls.Record(true)
	path := env.MemPath(ls.Adapter())
	defer env.DropMem(path)
	st, stop, err := openLdb(path, mp)
	t.Eval()
	t.Count("crash_points", 1)
	ctxt := func() string {
		return fmt.Sprintf("crash after storage operation %d (%s), acknowledged/started per stream %v\nworkload: %v", n, where, prog, opLog)
	}
	if err != nil {
		if m, e := snap.Meta(); e != nil && m.Zero() && strings.Contains(err.Error(), "file missing [file=MANIFEST-000000]") {
			// The very first creation of the database was interrupted.
			t.Fail(name, "interrupted-creation", "reopening failed: %v\n%s", err, ctxt())
			return true
		}
		if unsyncedManifest(log[:n]) && strings.Contains(err.Error(), "manifest corrupted (field 'comparer'): missing") {
			t.Fail(name, "unsynced-manifest", "reopening failed: %v\n%s", err, ctxt())
			return true
		}
		t.Fail(name, "recovery-open", "reopening failed: %v\n%s", err, ctxt())
		return false
	}
	at, maxG, e := verifyRecovered(st, scripts, prog, above)
	if e != "" {
		_ = stop()
		t.Fail(name, "recovery-state", "%s\n%s", e, ctxt())
		return false
	}
	if maxG > above {
		above = maxG
	}
	rlog := ls.TakeLog() // recovery alone
	if e := probe(st, scripts, at, above); e != "" {
		_ = stop()
		t.Fail(name, "recovery-writes", "%s\n%s", e, ctxt())
		return false
	}
	_ = stop()
	t.Count("recoveries", 1)
	if depth > 0 && len(rlog) > 0 && n%5 == 0 {
		for _, m := range []int{1, len(rlog) / 2, len(rlog) - 1} {
			if m <= 0 || m >= len(rlog) {
				continue
			}
			if !c06Crash(t, name+fmt.Sprintf("/again%d", m), snap, rlog, m, loss, scripts, prog, above, mp, depth-1, opLog, where+" then in recovery") {
				return false
			}
		}
	}
	return true
}

// c06Fault fails storage operations, then crashes.
func c06Fault(t *core.T, name string) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		scripts := []script{{seed: r.Int63(), stream: "cr0"}, {seed: r.Int63(), stream: "cr1"}}
		ls := env.NewLogStorage(true)
		path := env.MemPath(ls.Adapter())
		defer env.DropMem(path)
		st, stop, err := openLdb(path, false)
		if err != nil {
			t.Fail(name, "open", "%v", err)
			return
		}
		at := 10 + r.Intn(150)
		n := 1
		if r.Intn(2) == 0 {
			n = 1000000
		}
		ls.SetFail(func(k int, _ env.Op) bool { return k >= at && k < at+n })
		prog := make([]progress, 2)
		cur := make([][]string, 2)
		var opLog []string
		hung := false
		for i := 0; i < 30; i++ {
			k := r.Intn(2)
			prog[k].started++
			done := make(chan error, 1)
			go func() {
				_, err := scripts[k].run(st, prog[k].acked, cur[k])
				done <- err
			}()
			var err error
			select {
			case err = <-done:
			case <-time.After(20 * time.Second):
				hung = true // goleveldb v1.0.0 blocks after a failed manifest write
				err = fmt.Errorf("blocked")
			}
			opLog = append(opLog, fmt.Sprintf("%s: %v", scripts[k].stream, err))
			if err != nil {
				t.Count("operations_failed_by_storage", 1)
				break
			}
			cur[k] = scripts[k].apply(prog[k].acked, cur[k])
			prog[k].acked++
			t.Tick()
		}
		log := ls.TakeLog()
		for li, loss := range losses(r) {
			if !c06Crash(t, fmt.Sprintf("%s/loss%d", name, li), nil, log, len(log), loss, scripts, prog, 0, false, 0, opLog, fmt.Sprintf("after failing operation %d..", at)) {
				return
			}
			t.Distinct(fmt.Sprintf("%s/%d", name, li))
		}
		if !hung {
			go func() { _ = stop() }()
		}
	})
}

// c06Kill kills child processes on real files.
func c06Kill(t *core.T, name string, rounds int) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r := t.Rand(name)
		dir, cleanup := env.ScratchDir()
		defer cleanup()
		db := dir + "/db"
		var scripts []script
		for k := 0; k < 3; k++ {
			scripts = append(scripts, script{seed: r.Int63(), stream: fmt.Sprintf("cr%d", k), big: true})
		}
		at := make([]int, 3)
		var above uint64
		for round := 0; round < rounds; round++ {
			exe, _ := os.Executable()
			args := []string{"child", "ldb", db}
			for k, s := range scripts {
				args = append(args, fmt.Sprintf("%d,%s,%d", s.seed, s.stream, at[k]))
			}
			cmd := exec.Command(exe, args...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, err := cmd.StdoutPipe()
			if err != nil {
				panic("harness: " + err.Error())
			}
			var errb strings.Builder
			cmd.Stderr = &errb
			if err := cmd.Start(); err != nil {
				panic("harness: " + err.Error())
			}
			prog := make([]progress, 3)
			for k := range prog {
				prog[k] = progress{at[k], at[k]}
			}
			// kill after a number of acknowledgements plus a moment
			killAfter := 1 + r.Intn(60)
			delay := time.Duration(r.Intn(3000)) * time.Microsecond
			acks, opened := 0, false
			problem := ""
			var once sync.Once
			rd := bufio.NewReader(out)
			guard := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
			for {
				line, err := rd.ReadString('\n')
				if err != nil {
					break
				}
				f := strings.Fields(line)
				switch f[0] {
				case "opened":
					opened = true
				case "s":
					k, _ := strconv.Atoi(f[1])
					n, _ := strconv.Atoi(f[2])
					prog[k].started = n + 1
				case "a":
					k, _ := strconv.Atoi(f[1])
					n, _ := strconv.Atoi(f[2])
					prog[k].acked = n + 1
					acks++
					if acks >= killAfter {
						once.Do(func() {
							time.AfterFunc(delay, func() { _ = cmd.Process.Kill() })
						})
					}
				case "e":
					problem = line
				}
			}
			guard.Stop()
			_, _ = io.Copy(io.Discard, out)
			_ = cmd.Wait()
			if problem != "" || !opened {
				t.Fail(name, "child", "round %d: the child reported %q (opened %v) %.800s", round, problem, opened, errb.String())
				return
			}
			t.Count("process_kills", 1)
			t.Count("acknowledged_before_kill", acks)
			st, stop, err := openLdb(db, false)
			if err != nil {
				t.Fail(name, "recovery-open", "round %d: reopening after SIGKILL failed: %v", round, err)
				return
			}
			na, maxG, e := verifyRecovered(st, scripts, prog, above)
			if e == "" && maxG > above {
				above = maxG
			}
			if err := stop(); err != nil && e == "" {
				e = fmt.Sprintf("stop: %v", err)
			}
			t.Eval()
			if e != "" {
				t.Fail(name, "recovery-state", "round %d after SIGKILL, progress %v: %s", round, prog, e)
				return
			}
			at = na
			if acks > 0 {
				t.Distinct(fmt.Sprintf("%s/%d/%v", name, round, prog))
			}
		}
	})
}

// childLdb is the process that gets killed.
func childLdb(args []string) {
	st, _, err := openLdb(args[0], false)
	if err != nil {
		fmt.Println("e open:", err)
		os.Exit(0)
	}
	fmt.Println("opened")
	var mu sync.Mutex
	say := func(f string, a ...interface{}) {
		mu.Lock()
		_, _ = os.Stdout.WriteString(fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for k, a := range args[1:] {
		f := strings.Split(a, ",")
		seed, _ := strconv.ParseInt(f[0], 10, 64)
		from, _ := strconv.Atoi(f[2])
		s := script{seed: seed, stream: f[1], big: true}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cur := s.state(from)
			for i := from; i < from+400; i++ {
				say("s %d %d\n", k, i)
				kind, err := s.run(st, i, cur)
				if err != nil {
					say("e %s %s %d: %v\n", kind, s.stream, i, err)
					return
				}
				cur = s.apply(i, cur)
				say("a %d %d\n", k, i)
			}
		}(k)
	}
	wg.Wait()
}

// c06Clean stops and reopens on real files.
func c06Clean(t *core.T, name string, i int) {
	t.Guard(name, func() {
		r := t.Rand(name)
		dir, cleanup := env.ScratchDir()
		defer cleanup()
		var scripts []script
		for k := 0; k < 3; k++ {
			scripts = append(scripts, script{seed: r.Int63(), stream: fmt.Sprintf("cr%d", k), big: i%2 == 0})
		}
		at := make([]int, 3)
		var above uint64
		var before []string
		for round := 0; round < 4; round++ {
			st, stop, err := openLdb(dir+"/db", i%2 == 1)
			if err != nil {
				t.Fail(name, "reopen", "reopen after clean stop: %v", err)
				return
			}
			if round > 0 {
				rs, err := env.Collect(st.Events(context.Background(), 0))
				if d := env.Diff(env.Strings(rs), before); err != nil || d != "" {
					t.Fail(name, "clean-restart", "a clean stop and reopen changed the events (%v) %s", err, d)
					_ = stop()
					return
				}
			}
			prog := make([]progress, 3)
			for k := range scripts {
				cur := scripts[k].state(at[k])
				for n := 0; n < 1+r.Intn(8); n++ {
					if kind, err := scripts[k].run(st, at[k], cur); err != nil {
						t.Fail(name, "operation", "%s: %v", kind, err)
						_ = stop()
						return
					}
					cur = scripts[k].apply(at[k], cur)
					at[k]++
				}
				prog[k] = progress{at[k], at[k]}
			}
			_, maxG, e := verifyRecovered(st, scripts, prog, above)
			if e != "" {
				t.Fail(name, "recovery-state", "round %d: %s", round, e)
				_ = stop()
				return
			}
			if maxG > above {
				above = maxG
			}
			rs, _ := env.Collect(st.Events(context.Background(), 0))
			before = env.Strings(rs)
			if err := stop(); err != nil {
				t.Fail(name, "stop", "stop: %v", err)
				return
			}
			t.Eval()
			t.Count("clean_restarts", 1)
		}
		t.Distinct(name)
	})
}
