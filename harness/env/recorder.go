package env

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
)

// Recorder is a subscriber that records what it is given, at the moment it is given.
type Recorder struct {
	mu     sync.Mutex
	recs   []*rangedb.Record
	strs   []string
	uids   []string
	cond   *sync.Cond
	OnRec  func(n int, r *rangedb.Record) // called outside the lock
	n      int64
	Tick   *int64
	closed bool
}

// NewRecorder builds a Recorder.
func NewRecorder() *Recorder {
	r := &Recorder{}
	r.cond = sync.NewCond(&r.mu)
	return r
}

// Accept implements rangedb.RecordSubscriber.
func (r *Recorder) Accept(rec *rangedb.Record) {
	s, u := RecString(rec), "<nil record>"
	if rec != nil {
		u = UID(rec.Data)
	}
	r.mu.Lock()
	r.recs = append(r.recs, rec)
	r.strs = append(r.strs, s)
	r.uids = append(r.uids, u)
	n := len(r.recs)
	r.cond.Broadcast()
	f := r.OnRec
	r.mu.Unlock()
	atomic.StoreInt64(&r.n, int64(n))
	if f != nil {
		f(n, rec)
	}
}

// Len is the number of records received.
func (r *Recorder) Len() int { return int(atomic.LoadInt64(&r.n)) }

// Strings returns the rendered records.
func (r *Recorder) Strings() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.strs...)
}

// UIDs returns the identities.
func (r *Recorder) UIDs() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.uids...)
}

// Records returns the records.
func (r *Recorder) Records() []*rangedb.Record {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*rangedb.Record{}, r.recs...)
}

// WaitLen waits until n records arrived or the bound expires.
func (r *Recorder) WaitLen(n int, d time.Duration) bool {
	return WaitUntil(d, func() bool { return r.Len() >= n })
}

// WaitUntil polls a condition.
func WaitUntil(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	sleep := 20 * time.Microsecond
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(sleep)
		if sleep < 2*time.Millisecond {
			sleep *= 2
		}
	}
}
