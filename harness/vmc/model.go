package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/internal/vrt"
)

// node is a file, directory or symbolic link of the reference model.
type node struct {
	kind   byte        // 'f', 'd', 'l' or c(har), b(lock), p(ipe), s(ocket), i(rregular)
	mode   fs.FileMode // permission and set-id/sticky bits
	uid    int
	gid    int
	mtime  time.Time
	target string
	data   []byte
}

// tree maps paths to nodes; the root is ".".
type tree map[string]*node

var epoch = time.Unix(0, 0)

func file(data string) *node { return &node{kind: 'f', mode: 0o644, data: []byte(data), mtime: epoch} }
func directory() *node       { return &node{kind: 'd', mode: 0o755, mtime: epoch} }
func link(to string) *node   { return &node{kind: 'l', mode: 0o777, target: to, mtime: epoch} }

func (n *node) typ() fs.FileMode {
	switch n.kind {
	case 'f':
		return 0
	case 'd':
		return fs.ModeDir
	case 'l':
		return fs.ModeSymlink
	case 'c':
		return fs.ModeDevice | fs.ModeCharDevice
	case 'b':
		return fs.ModeDevice
	case 'p':
		return fs.ModeNamedPipe
	case 's':
		return fs.ModeSocket
	}
	return fs.ModeIrregular
}

func kindOf(m fs.FileMode) byte {
	switch m.Type() {
	case 0:
		return 'f'
	case fs.ModeDir:
		return 'd'
	case fs.ModeSymlink:
		return 'l'
	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
		return 'c'
	case fs.ModeDevice:
		return 'b'
	case fs.ModeNamedPipe:
		return 'p'
	case fs.ModeSocket:
		return 's'
	}
	return 'i'
}

const permBits = fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky

// clone copies a tree (but not the data of its files).
func (tr tree) clone() tree {
	out := tree{}
	for p, n := range tr {
		c := *n
		out[p] = &c
	}
	return out
}

func (tr tree) paths() []string {
	var ps []string
	for p := range tr {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// kids returns the names of the children of a directory, sorted.
func (tr tree) kids(dir string) []string {
	var names []string
	for p := range tr {
		if p != "." && path.Dir(p) == dir {
			names = append(names, path.Base(p))
		}
	}
	sort.Strings(names)
	return names
}

func (n *node) String() string {
	s := fmt.Sprintf("%c %v %d:%d", n.kind, n.mode, n.uid, n.gid)
	if !n.mtime.Equal(epoch) {
		s += fmt.Sprintf(" @%d.%09d", n.mtime.Unix(), n.mtime.Nanosecond())
	}
	switch n.kind {
	case 'l':
		s += fmt.Sprintf(" -> %q", trunc(n.target, 80))
	case 'f':
		if len(n.data) > 24 {
			s += fmt.Sprintf(" [%d bytes]", len(n.data))
		} else {
			s += fmt.Sprintf(" %q", n.data)
		}
	}
	return s
}

func (tr tree) String() string {
	var b strings.Builder
	for _, p := range tr.paths() {
		q := p
		if len(q) > 60 {
			q = fmt.Sprintf("%s...(%d)", q[:60], len(q))
		}
		fmt.Fprintf(&b, "%q: %v; ", q, tr[p])
	}
	return b.String()
}

// cmpOpts says what to compare.
type cmpOpts struct {
	noRoot     bool // ignore the metadata of the root
	noMode     bool
	noDirMode  bool // ignore the mode of directories
	noLinkMode bool // ignore the permission bits of symbolic links
	permOnly   bool // ignore set-id and sticky bits
	noOwner    bool
	noTime     bool
	noDirTime  bool
	timeUnit   time.Duration // compare times rounded (to nearest)
	zeroEpoch  bool          // zero times read as the epoch
}

// diff describes the first difference between the trees, "" if there is none.
func diff(want, got tree, o cmpOpts) string {
	for _, p := range want.paths() {
		if got[p] == nil {
			return fmt.Sprintf("%q is missing (have %q)", p, trunc(strings.Join(got.paths(), " "), 400))
		}
	}
	for _, p := range got.paths() {
		if want[p] == nil {
			return fmt.Sprintf("%q should not exist", p)
		}
	}
	for _, p := range want.paths() {
		w, g := want[p], got[p]
		if w.kind != g.kind {
			return fmt.Sprintf("%q has type %c, want %c", p, g.kind, w.kind)
		}
		if p == "." && o.noRoot {
			continue
		}
		mask := permBits
		if o.permOnly {
			mask = fs.ModePerm
		}
		skipMode := o.noMode || (w.kind == 'd' && o.noDirMode) || (w.kind == 'l' && o.noLinkMode)
		if !skipMode && w.mode&mask != g.mode&mask {
			return fmt.Sprintf("%q has mode %v, want %v", p, g.mode&mask, w.mode&mask)
		}
		if !o.noOwner && (w.uid != g.uid || w.gid != g.gid) {
			return fmt.Sprintf("%q has owner %d:%d, want %d:%d", p, g.uid, g.gid, w.uid, w.gid)
		}
		if !o.noTime && !(w.kind == 'd' && o.noDirTime) {
			wt, gt := w.mtime, g.mtime
			if o.zeroEpoch && wt.IsZero() {
				wt = epoch
			}
			if o.timeUnit > 1 {
				wt = wt.Round(o.timeUnit)
			}
			if !wt.Equal(gt) {
				return fmt.Sprintf("%q has modification time %v, want %v", p, gt.UTC(), wt.UTC())
			}
		}
		if w.target != g.target {
			return fmt.Sprintf("%q links to %q, want %q", p, trunc(g.target, 100), trunc(w.target, 100))
		}
		if !bytes.Equal(w.data, g.data) {
			return fmt.Sprintf("%q has wrong contents: %s", p, diffBytes(w.data, g.data))
		}
	}
	return ""
}

func diffBytes(w, g []byte) string {
	i := 0
	for i < len(w) && i < len(g) && w[i] == g[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, want %d, first difference at %d: %q, want %q", len(g), len(w), i, trunc(string(g[min(i, len(g)):]), 40), trunc(string(w[min(i, len(w)):]), 40))
}

// ownerOf returns the owner in what FileInfo.Sys returns.
func ownerOf(sys any) (uid, gid int, ok bool) {
	switch s := sys.(type) {
	case *tar.Header:
		return s.Uid, s.Gid, true
	case *erofs.Inode:
		return int(s.UID()), int(s.GID()), true
	case *arfs.Entry:
		return int(s.Uid), int(s.Gid), true
	case *syscall.Stat_t:
		return int(s.Uid), int(s.Gid), true
	}
	return 0, 0, false
}

// infoNode converts a FileInfo.
func infoNode(fi fs.FileInfo) *node {
	n := &node{kind: kindOf(fi.Mode()), mode: fi.Mode() & permBits, mtime: fi.ModTime()}
	n.uid, n.gid, _ = ownerOf(fi.Sys())
	return n
}

// readCap bounds what is read from any single file.
const readCap = 8 << 20

// readFile reads a file through Open and Read with the given buffer size, and
// checks the size that was reported.
func readFile(fsys fs.FS, name string, bufSize int) ([]byte, error) {
	f, err := fsys.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return readHandle(f, bufSize)
}

// errShort is reported for data that ends cleanly before the reported size.
var errShort = errors.New("clean end of file before the reported size")
var errLong = errors.New("more data than the reported size")
var errNoProgress = errors.New("reading makes no progress")

func readHandle(f fs.File, bufSize int) ([]byte, error) {
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	var out []byte
	buf := make([]byte, bufSize)
	idle := 0
	for {
		n, err := f.Read(buf)
		if n < 0 || n > len(buf) {
			return out, fmt.Errorf("Read returned %d for a buffer of %d bytes", n, len(buf))
		}
		out = append(out, buf[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return out, err
		}
		if int64(len(out)) > readCap {
			return out, nil
		}
		if n == 0 {
			if idle++; idle > 100 {
				return out, errNoProgress
			}
		} else {
			idle = 0
		}
	}
	if int64(len(out)) < fi.Size() {
		return out, errShort
	}
	if int64(len(out)) > fi.Size() {
		return out, errLong
	}
	return out, nil
}

var maxNodes = 20000

// observe walks an opened filesystem through its directory entries and returns
// what it contains. Every file is read.
func observe(fsys fs.FS) (tree, error) {
	got := tree{}
	fi, err := fs.Stat(fsys, ".")
	if err != nil {
		return got, fmt.Errorf("stat of the root: %w", err)
	}
	got["."] = infoNode(fi)
	if !fi.IsDir() {
		return got, errors.New("the root is not a directory")
	}
	todo := []string{"."}
	for len(todo) > 0 {
		dir := todo[0]
		todo = todo[1:]
		entries, err := fs.ReadDir(fsys, dir)
		if err != nil {
			return got, fmt.Errorf("listing %q: %w", dir, err)
		}
		last := ""
		for i, e := range entries {
			name := e.Name()
			if !goodName(name) {
				return got, fmt.Errorf("listing %q has the name %q", dir, name)
			}
			if i > 0 && name <= last {
				return got, fmt.Errorf("listing %q is not sorted or has duplicates: %q after %q", dir, name, last)
			}
			last = name
			p := path.Join(dir, name)
			fi, err := e.Info()
			if err != nil {
				return got, fmt.Errorf("info of %q: %w", p, err)
			}
			n := infoNode(fi)
			if fi.Name() != name {
				return got, fmt.Errorf("entry %q has info for %q", p, fi.Name())
			}
			if k := kindOf(e.Type()); k != n.kind || e.IsDir() != (k == 'd') || fi.IsDir() != e.IsDir() {
				return got, fmt.Errorf("entry %q has type %v, its info mode %v", p, e.Type(), fi.Mode())
			}
			switch n.kind {
			case 'l':
				lfs, ok := fsys.(archivefs.ReadLinkFS)
				if !ok {
					return got, fmt.Errorf("cannot read link %q", p)
				}
				if n.target, err = lfs.ReadLink(p); err != nil {
					return got, fmt.Errorf("reading link %q: %w", p, err)
				}
			case 'f':
				if n.data, err = readFile(fsys, p, 8192); err != nil {
					return got, fmt.Errorf("reading %q: %w", p, err)
				}
				if fi.Size() != int64(len(n.data)) {
					return got, fmt.Errorf("entry %q has size %d, but %d bytes", p, fi.Size(), len(n.data))
				}
			case 'd':
				todo = append(todo, p)
			}
			got[p] = n
			if len(got) > maxNodes {
				return got, errors.New("too many files")
			}
		}
	}
	return got, nil
}

// goodName reports whether a name is a single path element.
func goodName(name string) bool {
	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
}

// ---- paths on a POSIX filesystem ----

var (
	errNotExist = errors.New("does not exist")
	errThrough  = errors.New("leads through what is no directory")
	errLoop     = errors.New("leads through itself")
	errTooMany  = errors.New("needs very many links")
)

// walkPOSIX resolves a path in the model as POSIX does and returns the path of
// the node, without links. The last element is followed if follow is set.
func (tr tree) walkPOSIX(name string, follow bool) (string, error) {
	w := posixWalk{tr: tr}
	return w.from(".", name, follow)
}

const (
	// fewLinks is how many links a lookup must be able to follow.
	fewLinks = 40
	// maxLinks is how many links the model follows.
	maxLinks = 5000
)

// walkLenient is walkPOSIX, the third result tells that so many links have to
// be followed that the implementation may refuse.
func (tr tree) walkLenient(name string, follow bool) (string, error, bool) {
	w := posixWalk{tr: tr}
	p, err := w.from(".", name, follow)
	return p, err, w.links > fewLinks && err != errLoop
}

// posixWalk resolves a path. A link that leads through itself never ends.
type posixWalk struct {
	tr     tree
	links  int
	active []string
}

func (w *posixWalk) from(cur, name string, follow bool) (string, error) {
	if strings.HasPrefix(name, "/") {
		cur = "."
	}
	for len(name) > 0 {
		var e string
		e, name, _ = strings.Cut(name, "/")
		if e == "" {
			continue
		}
		n := w.tr[cur]
		if n == nil || n.kind != 'd' {
			return "", errThrough
		}
		switch e {
		case ".":
			continue
		case "..":
			if cur != "." {
				cur = path.Dir(cur)
			}
			continue
		}
		next := e
		if cur != "." {
			next = cur + "/" + e
		}
		n = w.tr[next]
		if n == nil {
			return "", errNotExist
		}
		if n.kind == 'l' && (follow || strings.Trim(name, "/") != "") {
			for _, a := range w.active {
				if a == next {
					return "", errLoop
				}
			}
			if w.links++; w.links > maxLinks {
				return "", errTooMany
			}
			w.active = append(w.active, next)
			r, err := w.from(cur, n.target, true)
			w.active = w.active[:len(w.active)-1]
			if err != nil {
				return "", err
			}
			// A target with a trailing slash must be a directory.
			if strings.HasSuffix(n.target, "/") && w.tr[r].kind != 'd' {
				return "", errThrough
			}
			cur = r
			continue
		}
		cur = next
	}
	return cur, nil
}

// ---- source filesystems ----

// sourceOpts configure how a tree is presented to Create.
type sourceOpts struct {
	sys       byte // what Sys() returns: 0 nil, 't' *tar.Header, 's' *syscall.Stat_t
	zeroTime  bool // report no modification times
	chunk     int  // maximum number of bytes per Read
	eofWith   bool // io.EOF comes with the last bytes
	noReadDir bool // no ReadDir method, directories are listed through handles
	noLinks   bool // no ReadLink method
	// sizeDelta is added to the number of bytes files deliver.
	sizeDelta map[string]int
	// fault, if set, is asked before every operation.
	fault func(op, path string) error
	// readFault, if set, decides about each Read: bytes to deliver and error.
	readFault func(path string, n int) (int, error)
}

// source is a filesystem that presents a tree.
type source struct {
	tr     tree
	o      sourceOpts
	idx    map[string][]string
	open   int // handles that are open now
	opened int
	ops    int
}

// sourceFS is a source with ReadDir and ReadLink.
type sourceFS struct{ *source }

// sourceNoLinkFS is a source that cannot read links.
type sourceNoLinkFS struct{ *source }

// sourceBareFS is a source with nothing but Open (and ReadLink).
type sourceBareFS struct{ *source }

func newSource(tr tree, o sourceOpts) (fs.FS, *source) {
	s := &source{tr: tr, o: o, idx: map[string][]string{}}
	for p := range tr {
		if p != "." {
			s.idx[path.Dir(p)] = append(s.idx[path.Dir(p)], path.Base(p))
		}
	}
	for _, names := range s.idx {
		sort.Strings(names)
	}
	switch {
	case o.noLinks:
		return sourceNoLinkFS{s}, s
	case o.noReadDir:
		return sourceBareFS{s}, s
	}
	return sourceFS{s}, s
}

func (s *source) ask(op, name string) error {
	vrt.Point()
	s.ops++
	if s.o.fault != nil {
		return s.o.fault(op, name)
	}
	return nil
}

func (s *source) Open(name string) (fs.File, error) {
	if err := s.ask("open", name); err != nil {
		return nil, err
	}
	p, err := s.tr.walkPOSIX(name, true)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	s.open++
	s.opened++
	n := s.tr[p]
	h := &sourceHandle{s: s, p: p, n: n}
	if n.kind == 'd' {
		return &sourceDirHandle{sourceHandle: h}, nil
	}
	d := s.o.sizeDelta[p]
	data := n.data
	if d < 0 {
		data = data[:max(0, len(data)+d)]
	} else if d > 0 {
		data = append(append([]byte{}, data...), bytes.Repeat([]byte{'+'}, d)...)
	}
	h.data = data
	return h, nil
}

func (s *source) readDir(name string) ([]fs.DirEntry, error) {
	if err := s.ask("readdir", name); err != nil {
		return nil, err
	}
	n := s.tr[name]
	if n == nil {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrNotExist}
	}
	if n.kind != 'd' {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errors.New("not a directory")}
	}
	var out []fs.DirEntry
	for _, k := range s.idx[name] {
		p := path.Join(name, k)
		out = append(out, &sourceEntry{s: s, p: p, n: s.tr[p]})
	}
	return out, nil
}

func (s *source) readLink(name string) (string, error) {
	if err := s.ask("readlink", name); err != nil {
		return "", err
	}
	n := s.tr[name]
	if n == nil {
		return "", fs.ErrNotExist
	}
	if n.kind != 'l' {
		return "", fs.ErrInvalid
	}
	return n.target, nil
}

func (s *source) statLink(name string) (fs.FileInfo, error) {
	if err := s.ask("lstat", name); err != nil {
		return nil, err
	}
	n := s.tr[name]
	if n == nil {
		return nil, fs.ErrNotExist
	}
	return s.info(name, n), nil
}

func (s sourceFS) ReadDir(name string) ([]fs.DirEntry, error)       { return s.readDir(name) }
func (s sourceNoLinkFS) ReadDir(name string) ([]fs.DirEntry, error) { return s.readDir(name) }
func (s sourceFS) ReadLink(name string) (string, error)             { return s.readLink(name) }
func (s sourceBareFS) ReadLink(name string) (string, error)         { return s.readLink(name) }
func (s sourceFS) StatLink(name string) (fs.FileInfo, error)        { return s.statLink(name) }
func (s sourceBareFS) StatLink(name string) (fs.FileInfo, error)    { return s.statLink(name) }

func (s *source) info(p string, n *node) fs.FileInfo {
	return &sourceInfo{s, path.Base(p), n}
}

type sourceInfo struct {
	s    *source
	name string
	n    *node
}

func (i *sourceInfo) Name() string { return i.name }
func (i *sourceInfo) Size() int64 {
	switch i.n.kind {
	case 'd':
		return 4096
	case 'l':
		return int64(len(i.n.target))
	}
	return int64(len(i.n.data))
}
func (i *sourceInfo) Mode() fs.FileMode { return i.n.mode | i.n.typ() }
func (i *sourceInfo) ModTime() time.Time {
	if i.s.o.zeroTime {
		return time.Time{}
	}
	return i.n.mtime
}
func (i *sourceInfo) IsDir() bool { return i.n.kind == 'd' }
func (i *sourceInfo) Sys() any {
	switch i.s.o.sys {
	case 't':
		return &tar.Header{Uid: i.n.uid, Gid: i.n.gid}
	case 's':
		return &syscall.Stat_t{Uid: uint32(i.n.uid), Gid: uint32(i.n.gid)}
	}
	return nil
}

type sourceEntry struct {
	s *source
	p string
	n *node
}

func (e *sourceEntry) Name() string      { return path.Base(e.p) }
func (e *sourceEntry) IsDir() bool       { return e.n.kind == 'd' }
func (e *sourceEntry) Type() fs.FileMode { return e.n.typ() }
func (e *sourceEntry) Info() (fs.FileInfo, error) {
	if err := e.s.ask("info", e.p); err != nil {
		return nil, err
	}
	return e.s.info(e.p, e.n), nil
}

type sourceHandle struct {
	s      *source
	p      string
	n      *node
	data   []byte
	off    int
	closed bool
}

func (h *sourceHandle) Stat() (fs.FileInfo, error) {
	if err := h.s.ask("stat", h.p); err != nil {
		return nil, err
	}
	return h.s.info(h.p, h.n), nil
}

func (h *sourceHandle) Read(b []byte) (int, error) {
	if err := h.s.ask("read", h.p); err != nil {
		return 0, err
	}
	if h.closed {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if h.s.o.chunk > 0 {
		n = min(n, h.s.o.chunk)
	}
	if h.s.o.readFault != nil {
		if m, err := h.s.o.readFault(h.p, min(n, len(h.data)-h.off)); err != nil {
			m = copy(b[:m], h.data[h.off:])
			h.off += m
			return m, err
		}
	}
	n = copy(b[:n], h.data[h.off:])
	h.off += n
	if h.off == len(h.data) && (n == 0 || h.s.o.eofWith) {
		return n, io.EOF
	}
	return n, nil
}

func (h *sourceHandle) Close() error {
	if err := h.s.ask("close", h.p); err != nil {
		// Closing releases the handle even if it reports an error.
		if !h.closed {
			h.closed = true
			h.s.open--
		}
		return err
	}
	if h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	h.s.open--
	return nil
}

type sourceDirHandle struct {
	*sourceHandle
	rest []fs.DirEntry
	init bool
}

func (h *sourceDirHandle) Read(b []byte) (int, error) { return 0, errors.New("is a directory") }

func (h *sourceDirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
	if !h.init {
		es, err := h.s.readDir(h.p)
		if err != nil {
			return nil, err
		}
		h.rest, h.init = es, true
	}
	if n <= 0 {
		r := h.rest
		h.rest = nil
		return r, nil
	}
	if len(h.rest) == 0 {
		return nil, io.EOF
	}
	n = min(n, len(h.rest))
	r := h.rest[:n]
	h.rest = h.rest[n:]
	return r, nil
}

// ---- destinations ----

// memFile is an io.WriterAt and io.ReaderAt in memory.
type memFile struct {
	buf   []byte
	fill  byte
	fault func(off int64, n int) (int, error)
	ops   int
}

func (m *memFile) WriteAt(p []byte, off int64) (int, error) {
	vrt.Point()
	m.ops++
	n := len(p)
	var err error
	if m.fault != nil {
		n, err = m.fault(off, len(p))
	}
	if off+int64(n) > 64<<20 {
		return 0, errors.New("file too large")
	}
	if need := int(off) + n; need > len(m.buf) {
		m.buf = append(m.buf, bytes.Repeat([]byte{m.fill}, need-len(m.buf))...)
	}
	copy(m.buf[off:], p[:n])
	return n, err
}

// writer is an io.Writer in memory.
type writer struct {
	buf   []byte
	fault func(n int) (int, error)
	ops   int
}

func (w *writer) Write(p []byte) (int, error) {
	vrt.Point()
	w.ops++
	n := len(p)
	var err error
	if w.fault != nil {
		n, err = w.fault(len(p))
	}
	w.buf = append(w.buf, p[:n]...)
	return n, err
}

// readerAt is storage in memory that can be made to behave in various ways.
type readerAt struct {
	b       []byte
	eagerly bool // return io.EOF together with the last bytes
	ops     int
	read    int64
	fault   func(off int64, n int) (int, error)
}

func (r *readerAt) ReadAt(p []byte, off int64) (int, error) {
	vrt.Point()
	r.ops++
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if r.fault != nil {
		if n, err := r.fault(off, len(p)); err != nil {
			if off < int64(len(r.b)) {
				n = copy(p[:min(n, len(p))], r.b[off:])
			} else {
				n = 0
			}
			return n, err
		}
	}
	if off >= int64(len(r.b)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	r.read += int64(n)
	if n < len(p) || (r.eagerly && off+int64(n) == int64(len(r.b))) {
		return n, io.EOF
	}
	return n, nil
}

func ra(b []byte) *readerAt { return &readerAt{b: b} }
