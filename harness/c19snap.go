package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/inklabs/rangedb/pkg/projection"
	"rangedbverif/core"
	"rangedbverif/env"
)

// snapProjection keeps arbitrary bytes, like a projection of a user with a format of its own.
type snapProjection struct {
	name string
	data []byte
	r    *rand.Rand
	fail int // SaveSnapshot and LoadFromSnapshot fail after so many bytes (-1: never)
}

var errSnap = errors.New("verif: snapshot refused")

func (p *snapProjection) SnapshotName() string { return p.name }

func (p *snapProjection) SaveSnapshot(w io.Writer) error {
	rest := p.data
	if p.fail >= 0 && p.fail < len(rest) {
		rest = rest[:p.fail]
	}
	for len(rest) > 0 {
		n := 1 + p.r.Intn(len(rest))
		if m, err := w.Write(rest[:n]); err != nil || m != n {
			return fmt.Errorf("wrote %d of %d: %v", m, n, err)
		}
		rest = rest[n:]
	}
	if p.fail >= 0 {
		return errSnap
	}
	return nil
}

func (p *snapProjection) LoadFromSnapshot(r io.Reader) error {
	if p.fail >= 0 {
		_, _ = io.CopyN(io.Discard, r, int64(p.fail))
		return errSnap
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	p.data = b
	return nil
}

// c19Snapshots: what a projection saved last is what it loads, whatever its size and format and
// whatever other projections do in the same directory.
func c19Snapshots(t *core.T, name string, r *rand.Rand) {
	dir, rm := env.ScratchDir()
	defer rm()
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[snapshots] "+f, a...) }
	names := []string{"a", "ab", "a.snap", "A b", "données", "-x", "AggregateTypeStats", "a.tmp", ".hidden", strings.Repeat("n", 200), "%s", "~a"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:1+r.Intn(4)]
	last := map[string][]byte{}
	uncertain := map[string]bool{}
	store := projection.NewDiskSnapshotStore(dir)
	var hist []string
	for i := 0; i < 12+r.Intn(20); i++ {
		n := names[r.Intn(len(names))]
		p := &snapProjection{name: n, r: r, fail: -1}
		if r.Intn(6) == 0 {
			store = projection.NewDiskSnapshotStore(dir)
		}
		switch r.Intn(6) {
		case 0, 1, 2:
			size := r.Intn(40)
			switch r.Intn(6) {
			case 0:
				size = 0
			case 1:
				size = r.Intn(200000)
			}
			p.data = make([]byte, size)
			r.Read(p.data)
			before := append([]byte{}, p.data...)
			if err := store.Save(p); err != nil {
				fail("save", "saving %d bytes as %q after %v: %v", size, n, hist, err)
				return
			}
			if !bytes.Equal(p.data, before) {
				fail("save-changed", "saving changed the projection %q", n)
				return
			}
			last[n], uncertain[n] = before, false
			hist = append(hist, fmt.Sprintf("save %q %d", n, size))
		case 3:
			p.data = make([]byte, 1+r.Intn(5000))
			p.fail = r.Intn(len(p.data))
			if err := store.Save(p); err == nil {
				fail("save-error-lost", "the projection failed to write its snapshot, and Save reported nothing (after %v)", hist)
				return
			}
			uncertain[n] = true
			hist = append(hist, fmt.Sprintf("save of %q refused", n))
		case 4:
			if last[n] == nil {
				continue
			}
			p.fail = r.Intn(10)
			if err := store.Load(p); err == nil {
				fail("load-error-lost", "the projection refused its snapshot, and Load reported nothing (after %v)", hist)
				return
			}
		default:
			err := store.Load(p)
			want, ok := last[n]
			if uncertain[n] {
				continue
			}
			if !ok {
				if err == nil {
					fail("load-missing", "loading %q, which was never saved, gave %q (after %v)", n, clip(string(p.data)), hist)
					return
				}
				continue
			}
			if err != nil || !bytes.Equal(p.data, want) {
				fail("load", "%q was saved with %d bytes and loads as %d bytes (equal up to %d), %v, after %v", n, len(want), len(p.data), commonPrefix(want, p.data), err, hist)
				return
			}
			t.Count("own_snapshots_compared", 1)
		}
	}
	t.Distinct(strings.Join(hist, ";"))
	t.Tick()
}

func commonPrefix(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}
