package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/inklabs/rangedb"

	"rangedbverif/core"
	"rangedbverif/env"
)

// opLimit bounds a single operation that must not block.
const opLimit = 30 * time.Second

// within runs f and reports a violation when it does not return in time.
func within(t *core.T, name, what string, d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		t.Guard(name, f)
	}()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-done:
		t.Tick()
		return true
	case <-tm.C:
	}
	// A loaded machine may just be slow: wait as long again.
	select {
	case <-done:
		t.Tick()
		return true
	case <-time.After(d):
	}
	t.Fail(name, "blocked", "%s did not return within %v\n\n%s", what, 2*d, relevantStacks())
	return false
}

// relevantStacks lists the goroutines that are inside the code under test.
func relevantStacks() string {
	var out []string
	for _, g := range strings.Split(core.Stacks(), "\n\n") {
		if strings.Contains(g, core.RepoPath) {
			out = append(out, g)
		}
	}
	if len(out) > 60 {
		out = out[:60]
	}
	return strings.Join(out, "\n\n")
}

// repoGoroutines counts the goroutines that are inside the code under test.
func repoGoroutines(pattern ...string) (int, string) {
	n := 0
	var out []string
	for _, g := range strings.Split(core.Stacks(), "\n\n") {
		if !strings.Contains(g, core.RepoPath) {
			continue
		}
		ok := len(pattern) == 0
		for _, p := range pattern {
			ok = ok || strings.Contains(g, p)
		}
		if ok {
			n++
			out = append(out, g)
		}
	}
	return n, strings.Join(out, "\n\n")
}

// simpleBatch makes n events of one aggregate.
func simpleBatch(r *rand.Rand, ty, id, prefix string, n int) []*rangedb.EventRecord {
	var b []*rangedb.EventRecord
	for j := 0; j < n; j++ {
		b = append(b, &rangedb.EventRecord{Event: env.MakeEvent(r, ty, id, fmt.Sprintf("%s-%d", prefix, j), false)})
	}
	return b
}

// isPrefix reports how got fails to be a prefix of want.
func isPrefix(got, want []string) string {
	if len(got) > len(want) {
		return fmt.Sprintf("%d records delivered, only %d exist", len(got), len(want))
	}
	return env.Diff(got, want[:len(got)])
}

// isSubsequence tells whether got is an ordered selection of want.
func isSubsequence[E comparable](got, want []E) bool {
	j := 0
	for _, x := range got {
		for j < len(want) && want[j] != x {
			j++
		}
		if j == len(want) {
			return false
		}
		j++
	}
	return true
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// clip shortens a text for a message.
func clip(s string) string {
	if len(s) > 900 {
		return s[:900] + "..."
	}
	return s
}

func gunzip(b []byte) []byte {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return []byte("<not gzip: " + err.Error() + ">")
	}
	out, err := io.ReadAll(z)
	if err != nil {
		return []byte("<not gzip: " + err.Error() + ">")
	}
	return out
}

// serverRoom bounds the records on their way to a subscriber behind a server: a server has room for 20, and drops a
// subscriber that has no room for 100 ms, which on a busy machine may happen to any.
const serverRoom = 15

// bigBatches are sizes around the limits an implementation could have.
var bigBatches = []int{10, 11, 17, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257}

// batchSize is at most small, but one time in rare it is a large number.
func batchSize(r *rand.Rand, small, rare int) int {
	if r.Intn(rare) == 0 {
		return bigBatches[r.Intn(len(bigBatches))] + r.Intn(2)
	}
	return 1 + r.Intn(small)
}
