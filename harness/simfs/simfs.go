// Package simfs is an in-memory object store implementing dkv/storage.FileSystem whose
// operations are observed, can be held back, can fail, and whose content can be snapshotted
// (a crash is a snapshot: everything not yet saved is gone).
package simfs

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"maps"
	"os"
	"path"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/dkv/storage"
)

type World struct {
	mu      sync.Mutex
	files   map[string][]byte
	reads   map[string]bool // when non-nil: files read
	gated   func(op, p string) bool
	waiting []*Waiter
	fail    func(op, p string) error
	OnOp    func(op, p string) // "save", "delete" after they took effect
	// DeleteMissingFails: like a local disk; otherwise like an object store
	DeleteMissingFails bool
	Strict             bool // reads always go to the store
}

type Waiter struct {
	Op, Path string
	c        chan struct{}
}

func NewWorld() *World { return &World{files: map[string][]byte{}, Strict: true} }

// Snapshot is what a crash leaves behind.
func (w *World) Snapshot() *World {
	w.mu.Lock()
	defer w.mu.Unlock()
	return &World{files: maps.Clone(w.files), DeleteMissingFails: w.DeleteMissingFails, Strict: w.Strict}
}

func (w *World) Gate(f func(op, p string) bool)  { w.mu.Lock(); w.gated = f; w.mu.Unlock() }
func (w *World) Fail(f func(op, p string) error) { w.mu.Lock(); w.fail = f; w.mu.Unlock() }

// Waiting lists the operations held back, oldest first.
func (w *World) Waiting() []*Waiter {
	w.mu.Lock()
	defer w.mu.Unlock()
	return slices.Clone(w.waiting)
}

func (w *World) Release(x *Waiter) {
	w.mu.Lock()
	w.waiting = slices.DeleteFunc(w.waiting, func(y *Waiter) bool { return x == y })
	w.mu.Unlock()
	close(x.c)
}

// OpenGates lets everything through from now on.
func (w *World) OpenGates() {
	w.mu.Lock()
	ws := w.waiting
	w.waiting = nil
	w.gated = nil
	w.mu.Unlock()
	for _, x := range ws {
		close(x.c)
	}
}

func (w *World) enter(op, p string) error {
	w.mu.Lock()
	if w.gated != nil && w.gated(op, p) {
		x := &Waiter{op, p, make(chan struct{})}
		w.waiting = append(w.waiting, x)
		w.mu.Unlock()
		<-x.c
		w.mu.Lock()
	}
	f := w.fail
	w.mu.Unlock()
	if f != nil {
		return f(op, p)
	}
	return nil
}

func (w *World) Files() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return slices.Sorted(maps.Keys(w.files))
}

func (w *World) Exists(uri string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	_, ok := w.files[clean("", uri)]
	return ok
}

func (w *World) TraceReads() { w.mu.Lock(); w.reads = map[string]bool{}; w.mu.Unlock() }
func (w *World) Reads() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return slices.Sorted(maps.Keys(w.reads))
}

func (w *World) FS(dir string) *FS { return &FS{w, dir} }

type FS struct {
	W   *World
	Dir string
}

const scheme = "memory://"

func clean(dir, p string) string {
	p = strings.TrimPrefix(p, scheme)
	if !path.IsAbs(p) {
		p = path.Join("/", dir, p)
	}
	return path.Clean(p)
}

func (f *FS) New(p string) storage.File  { return &File{w: f.W, p: clean(f.Dir, p), writing: true} }
func (f *FS) Open(p string) storage.File { return &File{w: f.W, p: clean(f.Dir, p)} }
func (f *FS) Copy(src, dst string) error {
	src, dst = clean(f.Dir, src), clean(f.Dir, dst)
	if err := f.W.enter("copy", dst); err != nil {
		return err
	}
	f.W.mu.Lock()
	defer f.W.mu.Unlock()
	b, ok := f.W.files[src]
	if !ok {
		return fmt.Errorf("copy %s: %w", src, storage.ErrNotFound)
	}
	f.W.files[dst] = b
	return nil
}

type File struct {
	w       *World
	p       string
	mu      sync.Mutex
	writing bool
	buf     bytes.Buffer
	cache   []byte
	loaded  bool
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	f.mu.Lock()
	if f.writing {
		f.mu.Unlock()
		panic("tried to read from a write only file")
	}
	data, ok := f.cache, f.loaded
	f.mu.Unlock()
	if !ok || f.w.Strict {
		f.w.mu.Lock()
		d, have := f.w.files[f.p]
		if f.w.reads != nil {
			f.w.reads[f.p] = true
		}
		f.w.mu.Unlock()
		if !have {
			return 0, fmt.Errorf("reading %s: %w", f.p, storage.ErrNotFound)
		}
		data = d
		f.mu.Lock()
		f.cache, f.loaded = d, true
		f.mu.Unlock()
	}
	return bytes.NewReader(data).ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.writing {
		panic("tried to write to a read only file")
	}
	return f.buf.Write(b)
}

func (f *File) Save() error {
	f.mu.Lock()
	if !f.writing {
		f.mu.Unlock()
		panic("tried to save a read only file")
	}
	f.mu.Unlock()
	if err := f.w.enter("save", f.p); err != nil {
		return err
	}
	f.mu.Lock()
	f.writing = false
	data := slices.Clone(f.buf.Bytes())
	f.mu.Unlock()
	f.w.mu.Lock()
	f.w.files[f.p] = data
	on := f.w.OnOp
	f.w.mu.Unlock()
	if on != nil {
		on("save", f.p)
	}
	return nil
}

func (w *World) del(p string) error {
	w.mu.Lock()
	_, ok := w.files[p]
	delete(w.files, p)
	on := w.OnOp
	w.mu.Unlock()
	if !ok {
		if w.DeleteMissingFails {
			return fmt.Errorf("remove %s: %w", p, os.ErrNotExist)
		}
		return nil
	}
	if on != nil {
		on("delete", p)
	}
	return nil
}

func (f *File) Delete() error {
	f.mu.Lock()
	wr := f.writing
	f.mu.Unlock()
	if wr {
		panic("tried to delete a file being written")
	}
	if err := f.w.enter("delete", f.p); err != nil {
		return err
	}
	return f.w.del(f.p)
}

// runs on the runtime's cleanup goroutine: never held back
func (f *File) CreateDeleteFunc() func() error {
	w, p := f.w, f.p
	return func() error { return w.del(p) }
}

func (f *File) Name() string { return path.Base(f.p) }
func (f *File) URI() string  { return scheme + f.p }
func (f *File) Size() int64  { f.mu.Lock(); defer f.mu.Unlock(); return int64(f.buf.Len()) }

var _ storage.FileSystem = (*FS)(nil)
var _ storage.File = (*File)(nil)
var _ = io.EOF
var ErrInjected = errors.New("injected storage failure")

// Settle lets background goroutines run until they block.
func Settle() {
	for range 25 {
		runtime.Gosched()
	}
}

// CollectGarbage runs the collector and gives cleanups time to run.
func CollectGarbage() {
	for range 2 {
		runtime.GC()
		for range 20 {
			runtime.Gosched()
		}
		time.Sleep(300 * time.Microsecond)
	}
}
