package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

// inodeFS is a filesystem on top of the lower-level interface of EROFS images:
// everything it shows comes from erofs.Image and erofs.Inode.
type inodeFS struct {
	im   *erofs.Image
	root *erofs.Inode // shared by all operations
}

func openInodes(r io.ReaderAt) (*inodeFS, error) {
	im, err := erofs.OpenImage(r)
	if err != nil {
		return nil, err
	}
	root, err := im.Inode(im.RootNid())
	if err != nil {
		return nil, err
	}
	return &inodeFS{im, &root}, nil
}

var errNotDir = errors.New("not a directory")

// walk finds the inode of a path.
func (f *inodeFS) walk(name string, follow bool) (*erofs.Inode, error) {
	hops := 0
	todo := strings.Split(name, "/")
	var at []*erofs.Inode // the directories above
	cur := f.root
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if k == "" || k == "." {
			continue
		}
		if !cur.IsDir() {
			return nil, errNotDir
		}
		if k == ".." {
			if n := len(at); n > 0 {
				cur, at = at[n-1], at[:n-1]
			}
			continue
		}
		d, err := cur.Lookup(k)
		if err != nil {
			return nil, err
		}
		next, err := f.im.Inode(d.Nid)
		if err != nil {
			return nil, err
		}
		if next.IsSymlink() && (follow || len(todo) > 0) {
			if hops++; hops > 40 {
				return nil, errors.New("too many links")
			}
			target, err := next.Readlink()
			if err != nil {
				return nil, err
			}
			if len(target) > 1<<16 || len(todo) > 1<<12 {
				return nil, errTooLong
			}
			if strings.HasPrefix(target, "/") {
				cur, at = f.root, nil
			}
			todo = append(strings.Split(target, "/"), todo...)
			continue
		}
		at = append(at, cur)
		cur = &next
	}
	return cur, nil
}

type inodeInfo struct {
	name string
	*erofs.Inode
}

func (i inodeInfo) Name() string { return i.name }
func (i inodeInfo) Size() int64  { return int64(i.Inode.Size()) }
func (i inodeInfo) Mode() fs.FileMode {
	return i.Inode.Mode()
}
func (i inodeInfo) ModTime() time.Time { return time.Unix(int64(i.Mtime()), int64(i.MtimeNsec())) }
func (i inodeInfo) Sys() any           { return i.Inode }

type inodeEntry struct {
	f    *inodeFS
	name string
	nid  uint64
	typ  uint8
}

func (e *inodeEntry) Name() string { return e.name }
func (e *inodeEntry) IsDir() bool  { return e.Type() == fs.ModeDir }
func (e *inodeEntry) Type() fs.FileMode {
	switch e.typ {
	case 0:
		// The inode knows.
		if ino, err := e.f.im.Inode(e.nid); err == nil {
			return ino.Mode().Type()
		}
	case 1:
		return 0
	case 2:
		return fs.ModeDir
	case 3:
		return fs.ModeDevice | fs.ModeCharDevice
	case 4:
		return fs.ModeDevice
	case 5:
		return fs.ModeNamedPipe
	case 6:
		return fs.ModeSocket
	case 7:
		return fs.ModeSymlink
	}
	return fs.ModeIrregular
}
func (e *inodeEntry) Info() (fs.FileInfo, error) {
	ino, err := e.f.im.Inode(e.nid)
	if err != nil {
		return nil, err
	}
	return inodeInfo{e.name, &ino}, nil
}

func (f *inodeFS) list(ino *erofs.Inode) ([]fs.DirEntry, error) {
	var out []fs.DirEntry
	err := ino.IterDirents(func(name string, typ uint8, nid uint64) error {
		if name != "." && name != ".." {
			out = append(out, &inodeEntry{f, name, nid, typ})
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (f *inodeFS) ReadDir(name string) ([]fs.DirEntry, error) {
	ino, err := f.walk(name, true)
	if err != nil {
		return nil, err
	}
	return f.list(ino)
}

func (f *inodeFS) stat(name string, follow bool) (fs.FileInfo, error) {
	ino, err := f.walk(name, follow)
	if err != nil {
		return nil, err
	}
	return inodeInfo{path.Base(name), ino}, nil
}

func (f *inodeFS) Stat(name string) (fs.FileInfo, error)     { return f.stat(name, true) }
func (f *inodeFS) StatLink(name string) (fs.FileInfo, error) { return f.stat(name, false) }

func (f *inodeFS) ReadLink(name string) (string, error) {
	ino, err := f.walk(name, false)
	if err != nil {
		return "", err
	}
	return ino.Readlink()
}

type inodeFile struct {
	inodeInfo
	r io.Reader
}

func (h *inodeFile) Stat() (fs.FileInfo, error) { return h.inodeInfo, nil }
func (h *inodeFile) Read(p []byte) (int, error) { return h.r.Read(p) }
func (h *inodeFile) Close() error               { return nil }

type inodeDir struct {
	inodeFile
	f   *inodeFS
	es  []fs.DirEntry
	got bool
}

func (h *inodeDir) ReadDir(n int) ([]fs.DirEntry, error) {
	if !h.got {
		es, err := h.f.list(h.Inode)
		if err != nil {
			return nil, err
		}
		h.es, h.got = es, true
	}
	out := h.es
	if n > 0 {
		if len(out) == 0 {
			return nil, io.EOF
		}
		out = out[:min(n, len(out))]
	}
	h.es = h.es[len(out):]
	return out, nil
}

type noReader struct{}

func (noReader) Read([]byte) (int, error) { return 0, errors.New("is a directory") }

func (f *inodeFS) Open(name string) (fs.File, error) {
	ino, err := f.walk(name, true)
	if err != nil {
		return nil, err
	}
	info := inodeInfo{path.Base(name), ino}
	if ino.IsDir() {
		return &inodeDir{inodeFile: inodeFile{info, noReader{}}, f: f}, nil
	}
	r, err := ino.Data()
	if err != nil {
		return nil, err
	}
	return &inodeFile{info, r}, nil
}

// rawInode is what the bytes of an inode say.
func rawInode(r io.ReaderAt, nid uint64) (string, error) {
	sb := make([]byte, 128)
	if _, err := r.ReadAt(sb, 1024); err != nil {
		return "", err
	}
	b := make([]byte, 64)
	if n, err := r.ReadAt(b, int64(le.Uint32(sb[40:]))<<sb[12]+int64(nid)*32); n < 32 {
		return "", err
	}
	f := le.Uint16(b)
	mode := le.Uint16(b[4:])
	is := ""
	for _, t := range []uint16{sIFREG, sIFDIR, sIFCHR, sIFBLK, sIFIFO, sIFSOC, sIFLNK} {
		is += fmt.Sprintf("%v ", mode&sIFMT == t)
	}
	if f&1 == 0 {
		return fmt.Sprintf("nid %d layout 0 data %d %sperm %o size %d nlink %d uid %d gid %d mtime %d.%09d", nid, f>>1&7, is, mode&0o777,
			le.Uint32(b[8:]), le.Uint16(b[6:]), le.Uint16(b[24:]), le.Uint16(b[26:]), le.Uint64(sb[24:]), le.Uint32(sb[32:])), nil
	}
	return fmt.Sprintf("nid %d layout 1 data %d %sperm %o size %d nlink %d uid %d gid %d mtime %d.%09d", nid, f>>1&7, is, mode&0o777,
		le.Uint64(b[8:]), le.Uint32(b[44:]), le.Uint32(b[24:]), le.Uint32(b[28:]), le.Uint64(b[32:]), le.Uint32(b[40:])), nil
}

// seenInode is what the inode says of itself.
func seenInode(i *erofs.Inode) string {
	return fmt.Sprintf("nid %d layout %d data %d %v %v %v %v %v %v %v perm %o size %d nlink %d uid %d gid %d mtime %d.%09d", i.Nid(), i.Layout(), i.DataLayout(),
		i.IsRegular(), i.IsDir(), i.IsCharDev(), i.IsBlockDev(), i.IsFIFO(), i.IsSocket(), i.IsSymlink(), i.Mode()&0o777,
		i.Size(), i.Nlink(), i.UID(), i.GID(), i.Mtime(), i.MtimeNsec())
}

var errStop = errors.New("stop")

// checkInodes checks the lower-level interface.
func checkInodes(t *t, src func() io.ReaderAt, want tree, nids map[string]uint64) {
	r := src()
	f, err := openInodes(r)
	if err != nil {
		t.fatal("inodes", "opening a valid image fails: %v", err)
	}
	got, err := observe(f)
	if err != nil {
		t.fatal("inodes", "%v", err)
	}
	if d := diff(want, got, cmpOpts{}); d != "" {
		t.fatal("inodes", "%s", d)
	}
	// The superblock.
	b := make([]byte, 128)
	if _, err := r.ReadAt(b, 1024); err != nil {
		t.fatal("inodes", "%v", err)
	}
	bits := b[12]
	sb := f.im.SuperBlock()
	if f.im.BlockSize() != 1<<bits || sb.BlockSize() != 1<<bits || f.im.Blocks() != le.Uint32(b[36:]) || f.im.RootNid() != uint64(le.Uint16(b[14:])) ||
		sb.MetaOffset() != int64(le.Uint32(b[40:]))<<bits || sb.Inodes != le.Uint64(b[16:]) || sb.Blocks != f.im.Blocks() {
		t.fatal("superblock", "the superblock is %+v of %x", sb, b)
	}
	for _, k := range []uint32{0, 1, 1<<16 + 1, 1<<32 - 1} {
		if g := sb.BlockAddrToOffset(k); g != int64(k)<<bits {
			t.fatal("superblock", "block %d is at %d", k, g)
		}
		if g := sb.NidToOffset(uint64(k)); g != sb.MetaOffset()+int64(k)*32 {
			t.fatal("superblock", "inode %d is at %d", k, g)
		}
	}
	for p, n := range want {
		nid := nids[p]
		ino, err := f.im.Inode(nid)
		if err != nil {
			t.fatal("inode", "Inode(%d) of %q: %v", nid, p, err)
		}
		t.step(1)
		w, err := rawInode(r, nid)
		if err != nil {
			t.fatal("inode", "%v", err)
		}
		if g := seenInode(&ino); g != w {
			t.fatal("inode", "inode of %q: %s, want %s", p, g, w)
		}
		// Operations on another kind of file, and an iteration that is stopped.
		if n.kind == 'd' {
			for stop := 1; stop <= 14; stop++ {
				k := 0
				err := ino.IterDirents(func(string, uint8, uint64) error {
					if k++; k == stop {
						return errStop
					}
					return nil
				})
				if k > stop || k == stop && err != errStop || k < stop && err != nil {
					t.fatal("stop", "iterating over %q until entry %d: %d entries, %v", p, stop, k, err)
				}
			}
		} else {
			if _, err := ino.Lookup("a"); err == nil || errors.Is(err, fs.ErrNotExist) {
				t.fatal("kind", "Lookup in %q gives %v", p, err)
			}
			if err := ino.IterDirents(func(string, uint8, uint64) error { return nil }); err == nil {
				t.fatal("kind", "IterDirents of %q succeeds", p)
			}
		}
		if n.kind != 'l' {
			if s, err := ino.Readlink(); err == nil {
				t.fatal("kind", "Readlink of %q gives %q", p, s)
			}
		}
		if n.kind != 'f' && n.kind != 'l' || ino.Size() > 1<<20 {
			continue
		}
		// Two readers of the data do not disturb each other.
		data := n.data
		if n.kind == 'l' {
			data = []byte(n.target)
		}
		r1, err1 := ino.Data()
		r2, err2 := ino.Data()
		if err1 != nil || err2 != nil {
			t.fatal("data", "Data of %q: %v, %v", p, err1, err2)
		}
		half := make([]byte, len(data)/2)
		if _, err := io.ReadFull(r1, half); err != nil {
			t.fatal("data", "reading %q: %v", p, err)
		}
		d2, err2 := io.ReadAll(r2)
		d1, err1 := io.ReadAll(r1)
		if d1 = append(half, d1...); err1 != nil || err2 != nil || !bytes.Equal(d1, data) || !bytes.Equal(d2, data) {
			t.fatal("data", "Data of %q: %v, %v, %s, %s", p, err1, err2, diffBytes(data, d1), diffBytes(data, d2))
		}
	}
}
