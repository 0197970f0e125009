package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// Files of more than 4 GiB: zeros, except for marks in places where offsets
// that have lost their upper bits would be noticed.

type hugeFile struct {
	name   string
	size   int64
	noTime bool
}

func hugeMarks(size int64) []int64 {
	var out []int64
	for _, m := range []int64{0, 1000, 1<<31 - 4, 1<<32 - 4, 1<<32 + 4000, 1<<33 - 4, size - 8} {
		if m >= 0 && m+8 <= size {
			out = append(out, m)
		}
	}
	return out
}

// fill writes the contents of the file from off.
func (f hugeFile) fill(b []byte, off int64) {
	clear(b)
	for i, m := range hugeMarks(f.size) {
		for k := int64(0); k < 8; k++ {
			if o := m + k - off; o >= 0 && o < int64(len(b)) {
				b[o] = f.name[0] + byte(i)*16 + byte(k) | 1
			}
		}
	}
}

// hugeFS is a flat filesystem of such files.
type hugeFS []hugeFile

type hugeHandle struct {
	f   hugeFile
	off int64
}

func (f hugeFile) Name() string      { return f.name }
func (f hugeFile) Size() int64       { return f.size }
func (f hugeFile) Mode() fs.FileMode { return 0o644 }
func (f hugeFile) ModTime() time.Time {
	if f.noTime {
		return time.Time{}
	}
	return time.Unix(1e9, 0)
}
func (f hugeFile) IsDir() bool { return false }
func (f hugeFile) Sys() any    { return nil }

func (h *hugeHandle) Stat() (fs.FileInfo, error) { return h.f, nil }
func (h *hugeHandle) Close() error               { return nil }
func (h *hugeHandle) Read(b []byte) (int, error) {
	if h.off == h.f.size {
		return 0, io.EOF
	}
	if n := h.f.size - h.off; int64(len(b)) > n {
		b = b[:n]
	}
	h.f.fill(b, h.off)
	h.off += int64(len(b))
	return len(b), nil
}

func (s hugeFS) root() (fs.FS, tree) {
	tr := tree{".": directory()}
	for _, f := range s {
		tr[f.name] = file("")
	}
	src, _ := newSource(tr, sourceOpts{})
	return src, tr
}

func (s hugeFS) Open(name string) (fs.File, error) {
	for _, f := range s {
		if f.name == name {
			return &hugeHandle{f: f}, nil
		}
	}
	r, _ := s.root()
	return r.Open(name)
}

func (s hugeFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if name != "." {
		return nil, fs.ErrNotExist
	}
	var out []fs.DirEntry
	for _, f := range s {
		out = append(out, fs.FileInfoToDirEntry(f))
	}
	return out, nil
}

func (s hugeFS) Stat(name string) (fs.FileInfo, error) {
	for _, f := range s {
		if f.name == name {
			return f, nil
		}
	}
	r, _ := s.root()
	return fs.Stat(r, name)
}

// sparseDest is a destination that keeps only what is not zero.
type sparseDest struct {
	pages map[int64][]byte
	off   int64 // for Write
	size  int64
}

const destPage = 1 << 12

var zeroPage [1 << 16]byte

func (d *sparseDest) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if d.pages == nil {
		d.pages = map[int64][]byte{}
	}
	for done := 0; done < len(p); {
		o := off + int64(done)
		n := min(len(p)-done, destPage-int(o%destPage))
		b := p[done : done+n]
		if g := d.pages[o/destPage]; g != nil {
			copy(g[o%destPage:], b)
		} else if !bytes.Equal(b, zeroPage[:n]) {
			g = make([]byte, destPage)
			copy(g[o%destPage:], b)
			d.pages[o/destPage] = g
		}
		done += n
	}
	d.size = max(d.size, off+int64(len(p)))
	return len(p), nil
}

func (d *sparseDest) Write(p []byte) (int, error) {
	n, err := d.WriteAt(p, d.off)
	d.off += int64(n)
	return n, err
}

// image is what has been written.
func (d *sparseDest) image() *sparseImg {
	img := &sparseImg{size: d.size}
	for k, b := range d.pages {
		img.segs = append(img.segs, seg{k * destPage, b})
	}
	sort.Slice(img.segs, func(i, j int) bool { return img.segs[i].off < img.segs[j].off })
	return img
}

// checkHuge compares a filesystem with the files it should have.
func checkHuge(t *t, fsys fs.FS, s hugeFS) {
	es, err := fs.ReadDir(fsys, ".")
	if err != nil || len(es) != len(s) {
		t.fatal("huge-list", "%d entries, %v", len(es), err)
	}
	got, want := make([]byte, 1<<20), make([]byte, 1<<20)
	for i, f := range s {
		if es[i].Name() != f.name {
			t.fatal("huge-list", "entry %q, want %q", es[i].Name(), f.name)
		}
		for _, st := range []func() (fs.FileInfo, error){es[i].Info, func() (fs.FileInfo, error) { return fs.Stat(fsys, f.name) }} {
			fi, err := st()
			if err != nil || fi.Size() != f.size {
				t.fatal("huge-size", "%q: %v, %v, want size %d", f.name, fi, err, f.size)
			}
		}
		h, err := fsys.Open(f.name)
		if err != nil {
			t.fatal("huge-open", "Open(%q): %v", f.name, err)
		}
		for off := int64(0); ; {
			n, err := io.ReadFull(h, got)
			f.fill(want[:min(int64(n), f.size-off)], off)
			if off+int64(n) > f.size || !bytes.Equal(got[:n], want[:n]) {
				t.fatal("huge-data", "%q is wrong in [%d,%d)", f.name, off, off+int64(n))
			}
			off += int64(n)
			t.step(1)
			if err == nil {
				continue
			}
			if err != io.EOF && err != io.ErrUnexpectedEOF || off != f.size {
				t.fatal("huge-data", "reading %q ends at %d of %d: %v", f.name, off, f.size, err)
			}
			break
		}
		_ = h.Close()
	}
}

// hugeSizes are the sizes of the large file.
func hugeSizes(c *ctx) []int64 {
	if c.thorough {
		return []int64{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 4097, 1<<33 - 1, 1 << 33, 1<<33 + 513}
	}
	return []int64{1<<32 + 4097}
}

// runHugeCreate creates archives of large files and reads them back.
func runHugeCreate(c *ctx, format byte) {
	for i, n := range append(hugeSizes(c), hugeSizes(c)...) {
		// Without a time, EROFS may choose the smaller kind of inode.
		noTime := i >= len(hugeSizes(c))
		if noTime && format != 'e' {
			break
		}
		s := hugeFS{{name: "a", size: 700}, {name: "h", size: n, noTime: noTime}, {name: "z", size: 5000}}
		c.each("huge-files", func() string {
			return fmt.Sprintf("files of 700, %d and 5000 bytes, the second without a time: %v", n, noTime)
		}, func(t *t) {
			t.state("huge", n, noTime)
			var d sparseDest
			var err error
			switch format {
			case 't':
				err = tarfs.Create(&d, s)
			case 'e':
				err = erofs.Create(&d, s)
			case 'a':
				err = arfs.Create(&d, s)
			}
			if err != nil {
				t.fatal("huge-create", "%v", err)
			}
			img := d.image()
			if format == 'e' {
				if img.size%4096 != 0 {
					img.size = roundTo(img.size, 4096)
				}
				sb := make([]byte, 128)
				_, _ = img.ReadAt(sb, 1024)
				if blocks := int64(le.Uint32(sb[36:])); blocks*4096 < n || blocks*4096 > n+1<<20 {
					t.fatal("huge-blocks", "the image has %d blocks", blocks)
				}
			}
			fsys, err := openArchive(format, img)
			if err != nil {
				t.fatal("huge-open", "%v", err)
			}
			checkHuge(t, fsys, s)
		})
	}
	if format == 'a' {
		// The size field has ten digits.
		s := hugeFS{{name: "h", size: 1e10}}
		c.each("huge-files", func() string { return "a file of 10^10 bytes" }, func(t *t) {
			t.state("huge", "1e10")
			var d sparseDest
			if err := arfs.Create(&d, s); err == nil {
				t.fatal("huge-create", "a file whose size does not fit its field is recorded")
			}
		})
	}
}

// runHugeOpen opens archives with large files that other tools wrote.
func runHugeOpen(c *ctx, format byte) {
	for _, n := range hugeSizes(c) {
		for _, f := range []byte("upg") {
			if format == 'a' && f != 'u' || f == 'u' && format == 't' && n >= 1<<33 {
				continue
			}
			s := hugeFS{{name: "a", size: 700}, {name: "h", size: n}, {name: "z", size: 5000}}
			c.each("huge-files", func() string { return fmt.Sprintf("%c: files of 700, %d and 5000 bytes", f, n) }, func(t *t) {
				t.state("huge", n, f)
				img := &sparseImg{}
				put := func(b []byte) {
					img.segs = append(img.segs, seg{img.size, b})
					img.size += int64(len(b))
				}
				if format == 'a' {
					put([]byte("!<arch>\n"))
				}
				for _, h := range s {
					if format == 'a' {
						put(arBytes(arec{name: h.name, mtime: "1", uid: "0", gid: "0", mode: "100644", size: fmt.Sprint(h.size)})[8:])
					} else {
						put(hugeTarHeader(h, f))
					}
					for _, m := range hugeMarks(h.size) {
						b := make([]byte, 8)
						h.fill(b, m)
						img.segs = append(img.segs, seg{img.size + m, b})
					}
					img.size += h.size
					if format == 'a' {
						if h.size%2 == 1 {
							put([]byte("\n"))
						}
					} else {
						img.size = roundTo(img.size, 512)
					}
				}
				if format == 't' {
					put(make([]byte, 1024))
				}
				fsys, err := openArchive(format, img)
				if err != nil {
					t.fatal("huge-open", "%v", err)
				}
				checkHuge(t, fsys, s)
			})
		}
	}
}

// hugeTarHeader encodes the header of a file, without its data.
func hugeTarHeader(h hugeFile, format byte) []byte {
	r := trec{name: h.name, typ: '0', mode: 0o644, mtime: 1, format: format}
	if format == 'p' {
		// The size in the header itself is not to be used.
		r.pax = map[string]string{"size": fmt.Sprint(h.size)}
	}
	b := tarBytes(r)
	b = b[:len(b)-1024]
	hdr := b[len(b)-512:]
	switch {
	case format == 'g':
		for i := 0; i < 8; i++ {
			hdr[135-i] = byte(h.size >> (8 * i))
		}
		hdr[124], hdr[125], hdr[126], hdr[127] = 0x80, 0, 0, 0
	case format == 'u':
		copy(hdr[124:136], fmt.Sprintf("%011o\x00", h.size))
	}
	copy(hdr[148:156], "        ")
	sum := 0
	for _, c := range hdr {
		sum += int(c)
	}
	copy(hdr[148:156], fmt.Sprintf("%06o\x00 ", sum))
	return b
}
