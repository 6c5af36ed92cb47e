package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/inklabs/rangedb"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C01"] = c01 }

type linIn struct {
	Op     string // save, opt, del, total, read
	Stream string
	Exp    uint64
	UIDs   []string
	From   uint64
}

type linOut struct {
	Kind string // ok, conflict, notfound, error
	N    uint64 // sequence number, count, or actual number of a conflict
	Exp  uint64
	UIDs []string
	Err  string
}

func (i linIn) String() string {
	return fmt.Sprintf("%s(%s exp=%d %v from=%d)", i.Op, i.Stream, i.Exp, i.UIDs, i.From)
}
func (o linOut) String() string {
	return fmt.Sprintf("%s n=%d exp=%d %v %s", o.Kind, o.N, o.Exp, o.UIDs, o.Err)
}

func splitState(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

// streamModel: the state of one stream is the list of the identities of its events.
var streamModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var keys []string
		for _, o := range h {
			k := o.Input.(linIn).Stream
			if _, ok := m[k]; !ok {
				keys = append(keys, k)
			}
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range keys {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return "" },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		st, in, out := state.(string), input.(linIn), output.(linOut)
		cur := splitState(st)
		n := uint64(len(cur))
		switch in.Op {
		case "save", "opt":
			if in.Op == "opt" && in.Exp != n {
				return out.Kind == "conflict" && out.N == n && out.Exp == in.Exp, st
			}
			if out.Kind != "ok" || out.N != n+uint64(len(in.UIDs)) {
				return false, st
			}
			return true, strings.Join(append(append([]string{}, cur...), in.UIDs...), ",")
		case "del":
			if n == 0 {
				return out.Kind == "notfound", st
			}
			if in.Exp != n {
				return out.Kind == "conflict" && out.N == n && out.Exp == in.Exp, st
			}
			return out.Kind == "ok", ""
		case "total":
			return out.Kind == "ok" && out.N == n, st
		case "read":
			if n == 0 {
				return out.Kind == "notfound" && len(out.UIDs) == 0, st
			}
			if out.Kind != "ok" {
				return false, st
			}
			var want []string
			for i, u := range cur {
				if uint64(i+1) >= in.From {
					want = append(want, u)
				}
			}
			return strings.Join(want, ",") == strings.Join(out.UIDs, ","), st
		}
		return false, st
	},
	DescribeOperation: func(i, o interface{}) string {
		return i.(linIn).String() + " -> " + o.(linOut).String()
	},
}

func linErr(err error, n uint64) linOut {
	if err == nil {
		return linOut{Kind: "ok", N: n}
	}
	if u, ok := isUnexpected(err); ok {
		return linOut{Kind: "conflict", N: u.ActualSequenceNumber, Exp: u.Expected}
	}
	if errors.Is(err, rangedb.ErrStreamNotFound) || err.Error() == rangedb.ErrStreamNotFound.Error() {
		return linOut{Kind: "notfound"}
	}
	return linOut{Kind: "error", Err: err.Error()}
}

func c01(t *core.T) {
	t.SetRule("concurrent histories of saves, optimistic saves, deletes, counts and reads by several clients on few streams, with random delays injected where the store reads its clock and serializes (inside its critical sections); the recorded calls and returns are decided by the porcupine linearizability checker against the sequential model of a stream; numbers of read events must be 1,2,3...; non-trivial: a conflict or overlap happened; distinct by the observed results")
	kinds := []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "enc-ldb-json", "remote-mem-json", "remote-ldb-json", "encremote-mem-json"}
	per := t.N(160, 4000)
	t.Parallel(per*len(kinds), 6, func(i int) {
		kind := kinds[i%len(kinds)]
		c01History(t, fmt.Sprintf("%s-%d", kind, i), kind, i)
	})
	t.Parallel(t.N(40, 1000)*len(env.PgKinds), 6, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		c01History(t, fmt.Sprintf("%s-%d", kind, i), kind, i)
	})
}

func c01History(t *core.T, name, kind string, no int) {
	if t.Skip(name) {
		return
	}
	t.Guard(name, func() {
		r0 := t.Rand(name)
		g := env.Open(kind)
		defer g.Close()
		g.Clock.SetJitter(env.RandomJitter(r0.Int63(), time.Duration(1+r0.Intn(200))*time.Microsecond))
		clients := 3 + r0.Intn(6)
		nstreams := 1 + r0.Intn(3)
		ops := 12 + r0.Intn(16)
		stores := []rangedb.Store{g.Store}
		if strings.HasPrefix(kind, "remote-") {
			stores = append(stores, g.Inner)
			if s, err := g.NewClient(); err == nil {
				stores = append(stores, s)
			}
		}
		awk := r0.Intn(3) == 0
		var names []string
		for i := 0; i < nstreams; i++ {
			if awk {
				n := env.AwkwardNames[r0.Intn(len(env.AwkwardNames))] + fmt.Sprint(i)
				if g.Pg != nil {
					n = strings.ReplaceAll(n, "\x00", "0") // PostgreSQL refuses NUL in text
				}
				names = append(names, n)
			} else {
				names = append(names, fmt.Sprintf("room!%d", i))
			}
		}
		var clock int64
		var mu sync.Mutex
		var hist []porcupine.Operation
		var wg sync.WaitGroup
		start := make(chan struct{})
		gap := ""
		for c := 0; c < clients; c++ {
			r := t.Rand(fmt.Sprintf("%s/c%d", name, c))
			st := stores[c%len(stores)]
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-start
				ctx := context.Background()
				known := map[string]uint64{}
				for i := 0; i < ops; i++ {
					s := names[r.Intn(len(names))]
					in := linIn{Stream: s}
					var evs []*rangedb.EventRecord
					k := r.Intn(100)
					if k < 60 {
						for j := 0; j < 1+r.Intn(3); j++ {
							u := fmt.Sprintf("c%di%dj%d", c, i, j)
							in.UIDs = append(in.UIDs, u)
							e := env.EvA{T: "ty", ID: s, UID: u, Payload: 1}
							if r.Intn(3) == 0 {
								evs = append(evs, &rangedb.EventRecord{Event: env.EvHook{EvA: e, Hook: runtime.Gosched}})
							} else {
								evs = append(evs, &rangedb.EventRecord{Event: &e})
							}
						}
					}
					exp := known[s]
					if r.Intn(6) == 0 {
						exp = uint64(r.Intn(12))
					}
					call := atomic.AddInt64(&clock, 1)
					var out linOut
					switch {
					case k < 25:
						in.Op = "save"
						n, err := st.Save(ctx, s, evs...)
						out = linErr(err, n)
					case k < 60:
						in.Op, in.Exp = "opt", exp
						n, err := st.OptimisticSave(ctx, exp, s, evs...)
						out = linErr(err, n)
					case k < 72:
						in.Op, in.Exp = "del", exp
						out = linErr(st.OptimisticDeleteStream(ctx, exp, s), 0)
					case k < 85:
						in.Op = "total"
						n, err := st.TotalEventsInStream(ctx, s)
						out = linErr(err, n)
					default:
						in.Op, in.From = "read", uint64(r.Intn(5))
						rs, err := env.Collect(st.EventsByStream(ctx, in.From, s))
						out = linErr(err, uint64(len(rs)))
						out.UIDs = uidsOf(rs)
						lo := in.From
						if lo == 0 {
							lo = 1
						}
						for j, x := range rs {
							if x.StreamSequenceNumber != lo+uint64(j) {
								mu.Lock()
								gap = fmt.Sprintf("reading %s from %d gave sequence number %d at index %d", s, in.From, x.StreamSequenceNumber, j)
								mu.Unlock()
							}
						}
					}
					ret := atomic.AddInt64(&clock, 1)
					switch {
					case out.Kind == "ok" && in.Op == "del":
						known[s] = 0
					case out.Kind == "ok" && in.Op != "read", out.Kind == "conflict":
						known[s] = out.N
					case out.Kind == "notfound":
						known[s] = 0
					}
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
					mu.Unlock()
					t.Tick()
				}
			}(c)
		}
		close(start)
		wg.Wait()
		t.Eval()
		t.Count("operations", len(hist))
		overlap, conflicts := 0, 0
		sig := kind
		for i, o := range hist {
			out := o.Output.(linOut)
			if out.Kind == "conflict" {
				conflicts++
			}
			if i > 0 && hist[i-1].Return > o.Call {
				overlap++
			}
			sig += out.Kind[:1] + fmt.Sprint(out.N)
			if out.Kind == "error" {
				t.Fail(name, "unexpected-error", "[%s] %s failed: %s", kind, o.Input.(linIn), out.Err)
				return
			}
		}
		t.Count("conflicts", conflicts)
		t.Count("overlapping_operations", overlap)
		if overlap > 0 || conflicts > 0 {
			t.Distinct(sig)
		}
		if gap != "" {
			t.Fail(name, "numbering", "[%s] %s", kind, gap)
			return
		}
		res, info := porcupine.CheckOperationsVerbose(streamModel, hist, 30*time.Second)
		switch res {
		case porcupine.Unknown:
			t.Inconclusive("%s: linearizability search ran out of time", name)
		case porcupine.Illegal:
			vis := filepath.Join(t.Root, "evidence", "replay", "C01-"+name+".html")
			_ = os.MkdirAll(filepath.Dir(vis), 0o755)
			_ = porcupine.VisualizePath(streamModel, info, vis)
			var sb strings.Builder
			for _, o := range hist {
				fmt.Fprintf(&sb, "  client %d [%d..%d] %s\n", o.ClientId, o.Call, o.Return, streamModel.DescribeOperation(o.Input, o.Output))
			}
			t.Fail(name, "not-linearizable", "[%s] no sequential order of these operations explains their results (visualisation: %s):\n%s", kind, vis, sb.String())
		default:
			if t.Counter("linearizable_histories") == 0 {
				var s []string
				for _, o := range hist[:min(len(hist), 15)] {
					s = append(s, streamModel.DescribeOperation(o.Input, o.Output))
				}
				t.Sample(map[string]interface{}{"case": name, "history": s})
			}
			t.Count("linearizable_histories", 1)
		}
	})
}
