package env

import (
	"errors"
	"io"
	"os"
	"sync"

	"github.com/syndtr/goleveldb/leveldb/storage"
)

// ErrFault is what an injected storage failure returns.
var ErrFault = errors.New("verif: injected storage failure")

var errEOF = io.EOF

// OpKind is the kind of a storage operation.
type OpKind byte

// Storage operations.
const (
	OpCreate OpKind = iota
	OpWrite
	OpSync
	OpClose
	OpRename
	OpRemove
	OpSetMeta
	OpAck // marker set by the workload
)

// Op is one logged storage operation.
type Op struct {
	Kind  OpKind
	Fd    storage.FileDesc
	Fd2   storage.FileDesc
	Data  []byte
	Ack   int
	Start bool // marker: operation started
}

type lfile struct {
	data   []byte
	synced int
	open   bool
}

// LogStorage is an in-memory LevelDB storage that logs every modifying
// operation, and can fail chosen ones.
type LogStorage struct {
	mu     sync.Mutex
	files  map[storage.FileDesc]*lfile
	meta   storage.FileDesc
	locked bool
	Log    []Op
	record bool
	// FailAt fails modifying operations for which it returns true.
	FailAt func(n int, op Op) bool
	n      int
	Faults int
	// failRead fails reads for which it returns true.
	failRead func(n int, fd storage.FileDesc) bool
	reads    int
}

// SetFailRead arms read faults; read numbers restart at 0.
func (s *LogStorage) SetFailRead(f func(n int, fd storage.FileDesc) bool) {
	s.mu.Lock()
	s.failRead, s.reads = f, 0
	s.mu.Unlock()
}

func (s *LogStorage) readFault(fd storage.FileDesc) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.reads
	s.reads++
	if s.failRead != nil && s.failRead(n, fd) {
		s.Faults++
		return true
	}
	return false
}

// Faulted tells how many faults were injected.
func (s *LogStorage) Faulted() int { s.mu.Lock(); defer s.mu.Unlock(); return s.Faults }

// NewLogStorage builds an empty storage.
func NewLogStorage(record bool) *LogStorage {
	return &LogStorage{files: map[storage.FileDesc]*lfile{}, record: record}
}

// SetFail arms fault injection; operation numbers restart at 0.
func (s *LogStorage) SetFail(f func(n int, op Op) bool) {
	s.mu.Lock()
	s.FailAt, s.n = f, 0
	s.mu.Unlock()
}

// Mark adds a workload marker to the log.
func (s *LogStorage) Mark(ack int, start bool) {
	s.mu.Lock()
	s.Log = append(s.Log, Op{Kind: OpAck, Ack: ack, Start: start})
	s.mu.Unlock()
}

func (s *LogStorage) op(o Op) error {
	n := s.n
	s.n++
	if s.FailAt != nil && s.FailAt(n, o) {
		s.Faults++
		return ErrFault
	}
	if s.record {
		s.Log = append(s.Log, o)
	}
	return nil
}

// Ops is the number of modifying operations since SetFail or the start.
func (s *LogStorage) Ops() int { s.mu.Lock(); defer s.mu.Unlock(); return s.n }

type lock struct{ s *LogStorage }

func (l *lock) Unlock() { l.s.mu.Lock(); l.s.locked = false; l.s.mu.Unlock() }

// Lock implements storage.Storage.
func (s *LogStorage) Lock() (storage.Locker, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return &lock{s}, nil
}

// Log implements storage.Storage (the name clashes with the field, so the method set is completed by a wrapper).
type storeAdapter struct{ *LogStorage }

// Adapter returns the storage.Storage of s.
func (s *LogStorage) Adapter() storage.Storage { return &storeAdapter{s} }

// Log implements storage.Storage.
func (s *storeAdapter) Log(string) {}

// SetMeta implements storage.Storage.
func (s *LogStorage) SetMeta(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op(Op{Kind: OpSetMeta, Fd: fd}); err != nil {
		return err
	}
	s.meta = fd
	return nil
}

// GetMeta implements storage.Storage.
func (s *LogStorage) GetMeta() (storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.meta.Zero() {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.meta, nil
}

// List implements storage.Storage.
func (s *LogStorage) List(ft storage.FileType) ([]storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []storage.FileDesc
	for fd := range s.files {
		if fd.Type&ft != 0 {
			out = append(out, fd)
		}
	}
	return out, nil
}

type lreader struct {
	data []byte
	pos  int64
	s    *LogStorage
	fd   storage.FileDesc
}

func (r *lreader) Read(p []byte) (int, error) {
	if r.s.readFault(r.fd) {
		return 0, ErrFault
	}
	if r.pos >= int64(len(r.data)) {
		return 0, errEOF
	}
	n := copy(p, r.data[r.pos:])
	r.pos += int64(n)
	return n, nil
}
func (r *lreader) ReadAt(p []byte, off int64) (int, error) {
	if r.s.readFault(r.fd) {
		return 0, ErrFault
	}
	if off >= int64(len(r.data)) {
		return 0, errEOF
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, errEOF
	}
	return n, nil
}
func (r *lreader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		r.pos = off
	case 1:
		r.pos += off
	case 2:
		r.pos = int64(len(r.data)) + off
	}
	return r.pos, nil
}
func (r *lreader) Close() error { return nil }

// Open implements storage.Storage.
func (s *LogStorage) Open(fd storage.FileDesc) (storage.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f, ok := s.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return &lreader{data: f.data[:len(f.data):len(f.data)], s: s, fd: fd}, nil
}

type lwriter struct {
	s  *LogStorage
	fd storage.FileDesc
	f  *lfile
}

func (w *lwriter) Write(p []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if err := w.s.op(Op{Kind: OpWrite, Fd: w.fd, Data: append([]byte{}, p...)}); err != nil {
		return 0, err
	}
	w.f.data = append(w.f.data, p...)
	return len(p), nil
}
func (w *lwriter) Sync() error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if err := w.s.op(Op{Kind: OpSync, Fd: w.fd}); err != nil {
		return err
	}
	w.f.synced = len(w.f.data)
	return nil
}
func (w *lwriter) Close() error { return nil }

// Create implements storage.Storage.
func (s *LogStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op(Op{Kind: OpCreate, Fd: fd}); err != nil {
		return nil, err
	}
	f := &lfile{}
	s.files[fd] = f
	return &lwriter{s, fd, f}, nil
}

// Remove implements storage.Storage.
func (s *LogStorage) Remove(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.files[fd]; !ok {
		return os.ErrNotExist
	}
	if err := s.op(Op{Kind: OpRemove, Fd: fd}); err != nil {
		return err
	}
	delete(s.files, fd)
	return nil
}

// Rename implements storage.Storage.
func (s *LogStorage) Rename(a, b storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	f, ok := s.files[a]
	if !ok {
		return os.ErrNotExist
	}
	if err := s.op(Op{Kind: OpRename, Fd: a, Fd2: b}); err != nil {
		return err
	}
	delete(s.files, a)
	s.files[b] = f
	return nil
}

// Close implements storage.Storage.
func (s *LogStorage) Close() error { return nil }

// Loss says how many bytes of the unsynced tail of a file survive.
type Loss func(fd storage.FileDesc, size, synced int) int

// Rebuild makes the storage as it would be found after a crash that follows
// the first n logged operations, which started from base (nil: empty).
func Rebuild(base *LogStorage, log []Op, n int, loss Loss) *LogStorage {
	s := NewLogStorage(false)
	if base != nil {
		s.meta = base.meta
		for fd, f := range base.files {
			s.files[fd] = &lfile{data: append([]byte{}, f.data...), synced: f.synced}
		}
	}
	s.replay(log, 0, n)
	for fd, f := range s.files {
		if f.synced < len(f.data) {
			k := loss(fd, len(f.data), f.synced)
			f.data = append([]byte{}, f.data[:k]...)
		}
		f.synced = len(f.data)
	}
	return s
}

// Snapshot copies the current contents, as a base for Rebuild.
func (s *LogStorage) Snapshot() *LogStorage {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := NewLogStorage(false)
	c.meta = s.meta
	for fd, f := range s.files {
		c.files[fd] = &lfile{data: append([]byte{}, f.data...), synced: f.synced}
	}
	return c
}

// Meta is GetMeta.
func (s *LogStorage) Meta() (storage.FileDesc, error) { return s.GetMeta() }

// Record switches recording.
func (s *LogStorage) Record(on bool) { s.mu.Lock(); s.record = on; s.mu.Unlock() }

// TakeLog returns a copy of the log so far.
func (s *LogStorage) TakeLog() []Op {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Op{}, s.Log...)
}

func (s *LogStorage) replay(log []Op, from, to int) {
	for _, o := range log[from:to] {
		switch o.Kind {
		case OpCreate:
			s.files[o.Fd] = &lfile{}
		case OpWrite:
			if f := s.files[o.Fd]; f != nil {
				f.data = append(f.data, o.Data...)
			}
		case OpSync:
			if f := s.files[o.Fd]; f != nil {
				f.synced = len(f.data)
			}
		case OpRename:
			s.files[o.Fd2] = s.files[o.Fd]
			delete(s.files, o.Fd)
		case OpRemove:
			delete(s.files, o.Fd)
		case OpSetMeta:
			s.meta = o.Fd
		}
	}
}
