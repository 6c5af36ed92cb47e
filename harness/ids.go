package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"rangedbverif/core"
	"rangedbverif/env"
)

// idsCase collects the identifiers and global numbers of very many events, saved by several clients at once into
// several stores as a program would set them up: with the stores' own clocks and generators.
func idsCase(perStore int) func(*core.T, string, *rand.Rand) {
	return func(t *core.T, name string, r *rand.Rand) {
		dir, rm := env.ScratchDir()
		defer rm()
		fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[identifiers] %s", fmt.Sprintf(f, a...)) }
		if err := os.MkdirAll(filepath.Join(dir, "db"), 0700); err != nil {
			fail("scratch", "%v", err)
			return
		}
		ldb, err := leveldbstore.New(filepath.Join(dir, "db"))
		if err != nil {
			fail("open", "%v", err)
			return
		}
		defer ldb.Stop()
		stores := []rangedb.Store{inmemorystore.New(), inmemorystore.New(), inmemorystore.New(), ldb}
		ids := make(map[string]struct{}, perStore*4)
		for si, s := range stores {
			n := perStore
			if s == rangedb.Store(ldb) {
				n /= 10
			}
			const clients = 8
			var wg sync.WaitGroup
			for c := 0; c < clients; c++ {
				wg.Add(1)
				go func(c int) {
					defer wg.Done()
					ev := rangedb.NewRawEvent("a", fmt.Sprint(c), "E", "x")
					for done := 0; done < n/clients; done += 500 {
						var b []*rangedb.EventRecord
						for i := 0; i < 500; i++ {
							b = append(b, &rangedb.EventRecord{Event: ev})
						}
						if _, err := s.Save(context.Background(), fmt.Sprint("a!", c), b...); err != nil {
							fail("save", "%v", err)
							return
						}
						t.Tick()
					}
				}(c)
			}
			wg.Wait()
			seen := uint64(0)
			it := s.Events(context.Background(), 0)
			for it.Next() {
				x := it.Record()
				if x.GlobalSequenceNumber != seen+1 {
					fail("number", "store %d: global number %d follows %d", si, x.GlobalSequenceNumber, seen)
					return
				}
				seen++
				if _, dup := ids[x.EventID]; dup || x.EventID == "" {
					fail("event-id", "the identifier %q of event %d of store %d was given to another one of %d events", x.EventID, seen, si, len(ids))
					return
				}
				ids[x.EventID] = struct{}{}
				if seen%1000 == 0 {
					t.Tick()
				}
			}
			if it.Err() != nil {
				fail("read", "%v", it.Err())
				return
			}
		}
		t.Count("event_ids_compared", len(ids))
		t.Distinct(fmt.Sprint(name, len(ids)))
	}
}
