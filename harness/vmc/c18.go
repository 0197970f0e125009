package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"path"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&check{
		id:    "C18",
		level: "model_checking",
		rule:  "a state is a distinct filesystem with a path, or a sequence of pages or reads with where its handles have got to; transitions are the calls compared with the io/fs contract",
		bounds: []string{
			"views: all trees of up to 4 nodes (thorough: 5) over 3 sets of 3 names in tar, EROFS, memory (and flat ones in ar), and the corpus of archives; every path, every absent path that differs a little from a present one",
			"names: all sets of up to 3 of 69 names that some orders and comparisons put elsewhere or take for each other (numbers, both cases, letters that fold or are composed, bytes that are no text)",
			"paging: directories of 0..6 (thorough: 8) entries, every sequence of 4 page sizes out of 6, two handles interleaved",
			"large directories: 7..40 and around 12 sizes up to 1025 entries, by pages of 26 sizes; large files: around 6 sizes up to 1 MiB, by buffers of 9 sizes",
			"reading: files of 0..9 bytes and around block boundaries, every sequence of 4 (thorough: 5) operations out of 9 on two handles",
		},
		run:    runC18,
		budget: 20_000_000,
	})
}

// shown is a filesystem with the tree it should show.
type shown struct {
	what string
	fsys fs.FS
	tr   tree
	mem  bool
}

// toTar records a tree in a tar archive.
func toTar(tr tree) []trec {
	var recs []trec
	for _, p := range tr.paths() {
		n := tr[p]
		r := trec{name: p, mode: tarModeOf(n.mode), uid: n.uid, gid: n.gid, mtime: n.mtime.Unix(), format: 'u'}
		switch n.kind {
		case 'd':
			r.typ, r.name = '5', p+"/"
		case 'l':
			r.typ, r.link = '2', n.target
		default:
			r.typ, r.data = '0', n.data
		}
		if p == "." {
			continue
		}
		recs = append(recs, r)
	}
	return recs
}

// tarModeOf is the mode as archives record it.
func tarModeOf(m fs.FileMode) int64 {
	out := int64(m.Perm())
	if m&fs.ModeSetuid != 0 {
		out |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		out |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		out |= 0o1000
	}
	return out
}

// inAll presents a tree through every filesystem that can hold it.
func inAll(tr tree, which string) []shown {
	var out []shown
	links, flat, valid := false, true, true
	for p, n := range tr {
		if n.kind == 'l' {
			links = true
		}
		if !fs.ValidPath(p) {
			valid = false
		}
		if p != "." && (n.kind != 'f' || strings.Contains(p, "/") || len(p) > 15) {
			flat = false
		}
	}
	must := func(what string, fsys fs.FS, err error) fs.FS {
		if err != nil {
			panic(what + ": " + err.Error())
		}
		return fsys
	}
	secs := tr.clone()
	for _, n := range secs {
		n.mtime = time.Unix(n.mtime.Unix(), 0)
	}
	if strings.Contains(which, "t") {
		fsys, err := openArchive('t', ra(tarBytes(toTar(tr)...)))
		out = append(out, shown{"tar", must("tar", fsys, err), secs, false})
	}
	if strings.Contains(which, "e") {
		img, _, err := buildErofs(tr, eopts{bits: 12, inline: func(p string) bool { return len(p)%2 == 1 }, compact: never})
		if err != nil {
			panic(err)
		}
		fsys, err := openArchive('e', ra(img))
		out = append(out, shown{"erofs", must("erofs", fsys, err), tr, false})
	}
	if !links && valid && strings.Contains(which, "m") {
		zero := tr.clone()
		for _, n := range zero {
			n.mtime = time.Time{}
			n.uid, n.gid = 0, 0
		}
		out = append(out, shown{"memfs", memOf(zero), zero, true})
	}
	if flat && strings.Contains(which, "a") {
		var recs []arec
		for _, p := range tr.paths() {
			if n := tr[p]; p != "." {
				recs = append(recs, arec{name: p, mtime: fmt.Sprint(n.mtime.Unix()), uid: fmt.Sprint(n.uid), gid: fmt.Sprint(n.gid), mode: fmt.Sprintf("%o", tarModeOf(n.mode)), data: n.data})
			}
		}
		fsys, err := openArchive('a', ra(arBytes(recs...)))
		out = append(out, shown{"ar", must("ar", fsys, err), secs, false})
	}
	return out
}

func runC18(c *ctx) {
	// Views.
	depth := 4
	if c.thorough {
		depth = 5
	}
	for n := 0; n <= depth; n++ {
		for _, names := range [][]string{{"a", "a-b", "b"}, {".x", "é", "z z"}, {"B", "_", "a"}} {
			if n > 3 && names[0] != "a" && !c.thorough {
				continue
			}
			eachTree(n, names, "fdl", func(tr tree) {
				c.each("views", func() string { return tr.String() }, func(t *t) {
					t.state(tr)
					for _, s := range inAll(tr, "tema") {
						contract(t, s)
						if len(tr) <= depth || names[0] != "a" {
							standard(t, s)
						}
					}
				})
			})
		}
	}
	// Names that some orders and comparisons take for each other or put
	// elsewhere: numbers, letters of both cases, letters that fold or are
	// composed, bytes that are no text. Every set of up to 3 of them.
	for i, a := range trickyNames {
		for j := i + 1; j < len(trickyNames); j++ {
			for k := j; k < len(trickyNames); k++ {
				tr := tree{".": directory(), a: file("1"), trickyNames[j]: file("22")}
				if k > j {
					tr[trickyNames[k]] = file("333")
				}
				c.each("names", func() string { return tr.String() }, func(t *t) {
					t.state(tr)
					for _, s := range inAll(tr, "tema") {
						contract(t, s)
					}
					if k > j {
						return
					}
					for _, kinds := range []string{"df", "fd", "dd"} {
						sub := tree{".": directory()}
						for x, name := range []string{a, trickyNames[j]} {
							if sub[name] = file("x"); kinds[x] == 'd' {
								sub[name] = directory()
								sub[name+"/"+a], sub[name+"/"+trickyNames[j]] = file("y"), file("zz")
							}
						}
						for _, s := range inAll(sub, "tem") {
							contract(t, s)
						}
					}
				})
			}
		}
	}
	// Other kinds of files (tar archives with them are refused).
	for n := 1; n <= depth-1; n++ {
		eachTree(n, []string{"a", "b"}, "fdlcbps", func(tr tree) {
			c.each("kinds", func() string { return tr.String() }, func(t *t) {
				t.state(tr)
				for _, s := range inAll(tr, "e") {
					contract(t, s)
					standard(t, s)
				}
			})
		})
	}
	// Members of ar archives whose mode is not that of a regular file: however
	// they are shown, all views agree.
	for typ := 0; typ < 16; typ++ {
		for _, perm := range []int{0, 0o644, 0o7777} {
			c.each("types", func() string { return fmt.Sprintf("ar: mode %o", typ<<12|perm) }, func(t *t) {
				b := arBytes(arAlphabet[2], arec{name: "m", mtime: "1", uid: "2", gid: "3", mode: fmt.Sprintf("%o", typ<<12|perm), data: []byte("xyz")})
				t.state(b)
				fsys, err := openArchive('a', ra(b))
				if err != nil {
					return
				}
				es, err := fs.ReadDir(fsys, ".")
				if err != nil {
					t.fatal("contract", "%v", err)
				}
				for _, e := range es {
					ei, err1 := e.Info()
					fi, err2 := fs.Stat(fsys, e.Name())
					f, err3 := fsys.Open(e.Name())
					if err1 != nil || err2 != nil || err3 != nil {
						t.fatal("contract", "%q: %v, %v, %v", e.Name(), err1, err2, err3)
					}
					hi, err := f.Stat()
					if err != nil {
						t.fatal("contract", "%v", err)
					}
					for _, i := range []fs.FileInfo{ei, hi} {
						if d := sameInfo(fi, i, true); d != "" {
							t.fatal("contract", "%q: %s", e.Name(), d)
						}
					}
					if e.Type() != fi.Mode().Type() || e.IsDir() != fi.IsDir() || fi.IsDir() != fi.Mode().IsDir() {
						t.fatal("contract", "%q: the entry has type %v, its info mode %v", e.Name(), e.Type(), fi.Mode())
					}
				}
			})
		}
	}
	for _, a := range corpus() {
		c.each("corpus", func() string { return a.name }, func(t *t) {
			t.state(a.b)
			fsys, err := openArchive(a.how(), ra(a.b))
			if err != nil {
				t.fatal("open", "%v", err)
			}
			contract(t, shown{a.name, fsys, a.tr, false})
			standard(t, shown{a.name, fsys, a.tr, false})
		})
	}

	// Paging.
	max := 6
	if c.thorough {
		max = 8
	}
	for n := 0; n <= max; n++ {
		for v := 0; v < 3; v++ {
			flat := tree{".": directory()}
			tr := tree{".": directory(), "d": directory()}
			for i := 0; i < n; i++ {
				name := numName(i*7%n, 3+i%2)
				if v > 0 {
					name = []string{"b", "C", "_d", "E", "f", ".G", "é", "=h"}[i]
				}
				switch (i + v) % 3 {
				case 0:
					tr["d/"+name] = file("x")
				case 1:
					tr["d/"+name] = directory()
				case 2:
					tr["d/"+name] = file("")
				}
				flat[name] = file("y")
			}
			sets := [][]shown{inAll(tr, "tem"), inAll(flat, "tema")}
			for si, set := range sets {
				dir := []string{"d", "."}[si]
				for _, s := range set {
					eachSeq(len(pageSizes), 4, func(idx []int) {
						var pages []int
						for _, i := range idx {
							pages = append(pages, pageSizes[i])
						}
						c.each("paging", func() string { return fmt.Sprintf("%s: %v of %q in %v", s.what, pages, dir, s.tr) }, func(t *t) {
							paging(t, s, dir, pages)
						})
					})
				}
			}
		}
	}

	// Large directories.
	var counts []int
	for n := max + 1; n <= 40; n++ {
		counts = append(counts, n)
	}
	for _, n := range []int{50, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024} {
		counts = append(counts, n-1, n, n+1)
	}
	for _, n := range counts {
		flat, tr := tree{".": directory()}, tree{".": directory(), "d": directory()}
		for i := 0; i < n; i++ {
			name := numName(i, 4+i%5)
			flat[name] = file("y")
			tr["d/"+name] = flat[name]
			if i%5 == 3 {
				tr["d/"+name] = directory()
			}
		}
		for si, set := range [][]shown{inAll(tr, "tem"), inAll(flat, "tema")} {
			dir := []string{"d", "."}[si]
			for _, s := range set {
				for _, k := range []int{1, 3, 7, 8, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000} {
					if k > n+1 || n/k > 60 {
						continue
					}
					for _, last := range []int{k, -1} {
						var pages []int
						for i := 0; i < n && (last == k || i < 3*k); i += k {
							pages = append(pages, k)
						}
						pages = append(pages, last, last)
						c.each("large-directories", func() string { return fmt.Sprintf("%s: %d entries in %q by %v", s.what, n, dir, pages) }, func(t *t) {
							paging(t, s, dir, pages)
						})
					}
				}
				if n > 257 {
					continue // lookups in EROFS images are linear
				}
				c.each("large-directories", func() string { return fmt.Sprintf("%s: %d entries in %q", s.what, n, dir) }, func(t *t) {
					contract(t, s)
				})
			}
		}
	}

	// Large files.
	for _, size := range []int{16384, 32768, 65536, 100000, 131072, 1 << 20} {
		for n := size - 1; n <= size+1; n++ {
			tr := tree{".": directory(), "f": file(""), "g": file("g")}
			tr["f"].data = pattern(n, 3)
			for _, s := range inAll(tr, "tema") {
				c.each("large-files", func() string { return fmt.Sprintf("%s: %d bytes", s.what, n) }, func(t *t) {
					contract(t, s)
				})
				for _, k := range []int{1000, 4096, 4097, 30000, 32768, 65536, 70000, 1 << 20, 2 << 20} {
					c.each("large-files", func() string { return fmt.Sprintf("%s: %d bytes by %d", s.what, n, k) }, func(t *t) {
						readingChunks(t, s, "f", k)
					})
				}
			}
		}
	}

	// Reading.
	ops := 4
	if c.thorough {
		ops = 5
	}
	sizes := []int{0, 1, 2, 3, 9, 511, 512, 513, 4095, 4096, 4097, 8192}
	tr := tree{".": directory()}
	for _, n := range sizes {
		f := file("")
		f.data = pattern(n, byte(n))
		tr[fmt.Sprintf("f%d", n)] = f
	}
	for _, s := range inAll(tr, "tema") {
		for _, n := range sizes {
			p := fmt.Sprintf("f%d", n)
			if n > 9 && !c.thorough && n != 512 && n != 4097 {
				ops = 3
			} else if !c.thorough {
				ops = 4
			}
			eachSeq(10, ops, func(idx []int) {
				c.each("reading", func() string { return fmt.Sprintf("%s: %v on %q", s.what, idx, p) }, func(t *t) {
					reading(t, s, p, idx)
				})
			})
		}
	}
}

func sameInfo(a, b fs.FileInfo, name bool) string {
	switch {
	case name && a.Name() != b.Name():
		return fmt.Sprintf("names %q and %q", a.Name(), b.Name())
	case a.Mode() != b.Mode():
		return fmt.Sprintf("modes %v and %v", a.Mode(), b.Mode())
	case a.Size() != b.Size():
		return fmt.Sprintf("sizes %d and %d", a.Size(), b.Size())
	case !a.ModTime().Equal(b.ModTime()):
		return fmt.Sprintf("times %v and %v", a.ModTime(), b.ModTime())
	case a.IsDir() != b.IsDir() || a.IsDir() != a.Mode().IsDir():
		return "about being a directory"
	}
	return ""
}

// optional checks the other ways to read a file that its handle may offer.
func optional(fsys fs.FS, p string, data []byte, bad func(format string, args ...any)) {
	for _, skip := range []int{0, 1, len(data) / 2, len(data)} {
		if skip > len(data) {
			continue
		}
		at := func() fs.File {
			f, err := fsys.Open(p)
			if err != nil {
				bad("Open(%q): %v", p, err)
				return nil
			}
			if _, err := io.ReadFull(f, make([]byte, skip)); err != nil {
				bad("%q: reading %d bytes: %v", p, skip, err)
				return nil
			}
			return f
		}
		rest := func(what string, f io.Reader, want []byte) {
			if b, err := io.ReadAll(f); err != nil || !bytes.Equal(b, want) {
				bad("%q: %s gives %q, %v, want %q", p, what, trunc(string(b), 50), err, trunc(string(want), 50))
			}
		}
		f := at()
		if f == nil {
			return
		}
		var b bytes.Buffer
		if n, err := io.Copy(&b, f); err != nil || n != int64(b.Len()) || !bytes.Equal(b.Bytes(), data[skip:]) {
			bad("%q: copying after %d bytes gives %d bytes %q, %v", p, skip, n, trunc(b.String(), 50), err)
		}
		rest("reading after copying", f, nil)
		if _, ok := f.(io.WriterTo); ok {
			b.Reset()
			if n, err := f.(io.WriterTo).WriteTo(&b); n != 0 || err != nil || b.Len() != 0 {
				bad("%q: WriteTo at the end gives %d bytes, %v", p, n, err)
			}
		}
		f.Close()
		if _, ok := f.(io.ReaderAt); ok {
			f := at()
			for off := 0; off <= len(data)+1; off++ {
				for _, n := range []int{0, 1, 7, len(data)} {
					buf := make([]byte, n)
					var want []byte
					if off < len(data) {
						want = data[off:min(len(data), off+n)]
					}
					if k, err := f.(io.ReaderAt).ReadAt(buf, int64(off)); k != len(want) || !bytes.Equal(buf[:k], want) || k < n && err != io.EOF || k == n && err != nil && (err != io.EOF || off+n < len(data)) {
						bad("%q: ReadAt of %d bytes at %d gives %d bytes, %v", p, n, off, k, err)
					}
				}
				if off > 20 && off < len(data)-20 {
					off += len(data) / 10
				}
			}
			if _, err := f.(io.ReaderAt).ReadAt(make([]byte, 1), -1); err == nil {
				bad("%q: ReadAt at -1 succeeds", p)
			}
			rest("reading after ReadAt", f, data[skip:])
			f.Close()
		}
		if _, ok := f.(io.Seeker); ok {
			for _, off := range []int64{0, 1, int64(len(data)), int64(len(data) / 2)} {
				for whence, base := range []int64{0, int64(skip), int64(len(data))} {
					if off > int64(len(data)) {
						continue
					}
					f := at()
					if got, err := f.(io.Seeker).Seek(off-base, whence); got != off || err != nil {
						bad("%q: Seek(%d, %d) gives %d, %v, want %d", p, off-base, whence, got, err, off)
						continue
					}
					rest("reading after Seek", f, data[off:])
					f.Close()
				}
			}
		}
		if _, ok := f.(io.ByteReader); ok {
			f := at()
			var got []byte
			for len(got) <= len(data) {
				c, err := f.(io.ByteReader).ReadByte()
				if err != nil {
					break
				}
				got = append(got, c)
			}
			if !bytes.Equal(got, data[skip:]) {
				bad("%q: ReadByte gives %q", p, trunc(string(got), 50))
			}
			f.Close()
		}
	}
}

// contract checks what io/fs demands of a filesystem that shows the tree.
func contract(t *t, s shown) {
	fsys, tr := s.fsys, s.tr
	lfs, hasLinks := fsys.(archivefs.ReadLinkFS)
	bad := func(format string, args ...any) { t.fail("contract", s.what+": "+format, args...) }

	var absent []string
	for _, p := range tr.paths() {
		n := tr[p]
		t.step(1)
		target := n
		tp := p
		if n.kind == 'l' {
			target = nil
			if q, err, _ := tr.walkLenient(p, true); err == nil {
				target, tp = tr[q], q
			}
		}
		fi, err := fs.Stat(fsys, p)
		f, oerr := fsys.Open(p)
		if target == nil {
			if err == nil || oerr == nil {
				bad("%q leads nowhere, but Stat gives %v and Open %v", p, err, oerr)
			}
		} else {
			if err != nil || oerr != nil {
				bad("Stat(%q): %v, Open: %v", p, err, oerr)
				continue
			}
			hi, err := f.Stat()
			if err != nil {
				bad("%q: Stat of the handle: %v", p, err)
				continue
			}
			if d := sameInfo(fi, hi, true); d != "" {
				bad("%q: Stat and the handle disagree: %s", p, d)
			}
			if kindOf(fi.Mode()) != target.kind {
				bad("Stat(%q) has mode %v, want %v", p, fi.Mode(), target)
			}
			// Through a link, an EROFS image gives the name of what it leads to
			// (the existing tests demand it).
			if fi.Name() != path.Base(p) && (n.kind != 'l' || !strings.HasPrefix(s.what, "erofs") || fi.Name() != path.Base(tp)) {
				bad("Stat(%q) has name %q", p, fi.Name())
			}
			if target.kind == 'f' && fi.Size() != int64(len(target.data)) {
				bad("Stat(%q) has size %d, want %d", p, fi.Size(), len(target.data))
			}
			switch target.kind {
			case 'f':
				if b, err := fs.ReadFile(fsys, p); err != nil || !bytes.Equal(b, target.data) {
					bad("ReadFile(%q) gives %q, %v", p, trunc(string(b), 50), err)
				}
				if b, err := io.ReadAll(f); err != nil || !bytes.Equal(b, target.data) {
					bad("ReadAll(%q) gives %q, %v", p, trunc(string(b), 50), err)
				}
				optional(fsys, p, target.data, bad)
				if es, err := fs.ReadDir(fsys, p); err == nil || len(es) > 0 || errors.Is(err, fs.ErrNotExist) {
					bad("ReadDir(%q) of a file gives %d entries, %v", p, len(es), err)
				}
				if d, ok := f.(fs.ReadDirFile); ok {
					if es, err := d.ReadDir(-1); err == nil || len(es) > 0 {
						bad("%q: ReadDir of the handle of a file gives %d entries, %v", p, len(es), err)
					}
				}
				if fi2, err := f.Stat(); err != nil || sameInfo(fi, fi2, true) != "" {
					bad("%q: Stat of the handle changes: %v", p, err)
				}
			case 'd':
				es, err := fs.ReadDir(fsys, p)
				var names []string
				for _, e := range es {
					names = append(names, e.Name())
				}
				if err != nil || fmt.Sprint(names) != fmt.Sprint(tr.kids(tp)) {
					bad("ReadDir(%q) gives %q, %v, want %q", p, names, err, tr.kids(tp))
				}
				if !sort.StringsAreSorted(names) {
					bad("ReadDir(%q) is not sorted: %q", p, names)
				}
				if k, err := f.Read(make([]byte, 10)); k != 0 || err == nil {
					bad("%q: reading a directory gives %d bytes, %v", p, k, err)
				}
				if b, _ := fs.ReadFile(fsys, p); len(b) > 0 {
					bad("ReadFile(%q) of a directory gives %q", p, b)
				}
				if _, ok := f.(fs.ReadDirFile); !ok {
					bad("%q: the handle of a directory cannot be listed", p)
				}
				for _, e := range es {
					cp := path.Join(p, e.Name())
					ei, err := e.Info()
					if err != nil {
						bad("%q: Info: %v", cp, err)
						continue
					}
					if ei.Name() != e.Name() || kindOf(ei.Mode()) != kindOf(e.Type()) || e.IsDir() != ei.IsDir() || ei.IsDir() != ei.Mode().IsDir() {
						bad("%q: the entry %q %v disagrees with its info %q %v", cp, e.Name(), e.Type(), ei.Name(), ei.Mode())
					}
					// Type has only type bits, except in EROFS images (the existing
					// tests demand the permissions there).
					if !strings.HasPrefix(s.what, "erofs") && e.Type() != ei.Mode().Type() {
						bad("%q: the entry has type %v, its info mode %v", cp, e.Type(), ei.Mode())
					}
					child := tr[path.Join(tp, e.Name())]
					if child == nil {
						continue
					}
					var other fs.FileInfo
					if child.kind == 'l' {
						if hasLinks {
							other, err = lfs.StatLink(cp)
						}
					} else {
						other, err = fs.Stat(fsys, cp)
					}
					if err != nil || other == nil {
						bad("%q: %v", cp, err)
						continue
					}
					if d := sameInfo(ei, other, true); d != "" {
						bad("%q: listing and lookup disagree: %s", cp, d)
					}
				}
				// The parent, and names of children that don't exist.
				have := map[string]bool{}
				for _, k := range tr.kids(tp) {
					have[k] = true
				}
				for _, k := range append(tr.kids(tp), "x") {
					for _, q := range []string{k + "x", "x" + k, k[:len(k)-1], k[1:], strings.ToUpper(k), k + " ", " " + k, k + "\x00", k + "-", k + "."} {
						if goodName(q) && !have[q] && fs.ValidPath(q) {
							absent = append(absent, path.Join(p, q))
						}
					}
				}
			}
			if err := f.Close(); err != nil {
				bad("%q: Close: %v", p, err)
			}
		}
		if n.kind == 'l' {
			if to, err := lfs.ReadLink(p); err != nil || to != n.target {
				bad("ReadLink(%q) gives %q, %v, want %q", p, to, err, n.target)
			}
			li, err := lfs.StatLink(p)
			if err != nil || kindOf(li.Mode()) != 'l' || li.Name() != path.Base(p) {
				bad("StatLink(%q): %v", p, err)
			}
		} else if hasLinks {
			if to, err := lfs.ReadLink(p); err == nil {
				bad("ReadLink(%q) of a %c gives %q", p, n.kind, to)
			}
			li, err := lfs.StatLink(p)
			if err != nil || fi == nil || sameInfo(li, fi, true) != "" {
				bad("StatLink(%q): %v, %v and %v", p, err, li, fi)
			}
		}
		if n.kind == 'f' {
			for _, q := range []string{p + "/x", p + "/x/y"} {
				if _, err := fsys.Open(q); err == nil {
					bad("Open(%q) leads through a file", q)
				}
				if _, err := fs.Stat(fsys, q); err == nil {
					bad("Stat(%q) leads through a file", q)
				}
			}
		}
	}
	for _, q := range absent {
		t.step(1)
		for i, err := range []error{
			second(fsys.Open(q)), second(fs.Stat(fsys, q)), second(fs.ReadDir(fsys, q)), second(fs.ReadFile(fsys, q)),
			func() error {
				if !hasLinks {
					return fs.ErrNotExist
				}
				return second(lfs.StatLink(q))
			}(),
			func() error {
				if !hasLinks {
					return fs.ErrNotExist
				}
				return second(lfs.ReadLink(q))
			}(),
		} {
			if !errors.Is(err, fs.ErrNotExist) {
				bad("%s(%q) of a path that does not exist: %v", []string{"Open", "Stat", "ReadDir", "ReadFile", "StatLink", "ReadLink"}[i], q, err)
			}
		}
	}

	// The standard library's walk.
	var walked []string
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		walked = append(walked, p)
		return nil
	})
	want := tr.paths()
	sort.Strings(walked)
	if err != nil || fmt.Sprint(walked) != fmt.Sprint(want) {
		bad("WalkDir gives %q, %v, want %q", walked, err, want)
	}
	if ms, err := fs.Glob(fsys, "*"); err != nil || fmt.Sprint(ms) != fmt.Sprint(tr.kids(".")) {
		bad("Glob gives %q, %v, want %q", ms, err, tr.kids("."))
	}
	for _, p := range tr.paths() {
		if tr[p].kind != 'd' {
			continue
		}
		if !fs.ValidPath(p) {
			continue // fs.Sub refuses it.
		}
		sub, err := fs.Sub(fsys, p)
		if err != nil {
			bad("Sub(%q): %v", p, err)
			continue
		}
		es, err := fs.ReadDir(sub, ".")
		if err != nil || len(es) != len(tr.kids(p)) {
			bad("Sub(%q) lists %d entries, %v", p, len(es), err)
		}
	}
}

func second[T any](_ T, err error) error { return err }

var pageSizes = []int{1, 2, 3, 100, 0, -1, -2}

// paging lists a directory in pages, through two handles.
func paging(t *t, s shown, dir string, pages []int) {
	want := s.tr.kids(dir)
	type handle struct {
		f   fs.ReadDirFile
		got []string
	}
	open := func() *handle {
		f, err := s.fsys.Open(dir)
		if err != nil {
			t.fatal("open", "%v", err)
		}
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			t.fatal("paging", "the handle of a directory cannot be listed")
		}
		return &handle{f: d}
	}
	page := func(h *handle, n int) {
		t.step(1)
		es, err := h.f.ReadDir(n)
		left := len(want) - len(h.got)
		for _, e := range es {
			h.got = append(h.got, e.Name())
		}
		switch {
		case n <= 0 && (err != nil || len(es) != left):
			t.fatal("paging", "ReadDir(%d) with %d entries left gives %d entries, %v", n, left, len(es), err)
		case n > 0 && left == 0 && (err != io.EOF || len(es) != 0):
			t.fatal("paging", "ReadDir(%d) at the end gives %d entries, %v", n, len(es), err)
		case n > 0 && left > 0 && (len(es) == 0 || len(es) > n || err != nil):
			t.fatal("paging", "ReadDir(%d) with %d entries left gives %d entries, %v", n, left, len(es), err)
		}
		if len(h.got) > len(want) || !slices.Equal(h.got, want[:len(h.got)]) {
			t.fatal("paging", "pages give %q, want %q", h.got, want)
		}
	}
	t.state(s.what, s.tr, dir, fmt.Sprint(pages))
	h1, h2 := open(), open()
	for i, n := range pages {
		page(h1, n)
		if i%2 == 1 {
			page(h2, pages[(i+1)%len(pages)])
		}
		// Other operations have no influence.
		if _, err := h1.f.Stat(); err != nil {
			t.fatal("stat", "%v", err)
		}
		if es, err := fs.ReadDir(s.fsys, dir); err != nil || len(es) != len(want) {
			t.fatal("readdir", "%d entries, %v", len(es), err)
		}
	}
	for _, h := range []*handle{h2, h1} {
		for i := 0; len(h.got) < len(want); i++ {
			page(h, 2)
		}
		page(h, 1)
		page(h, 3)
		page(h, -1)
		page(h, math.MinInt)
		page(h, math.MaxInt)
		page(h, 1)
		if err := h.f.Close(); err != nil {
			t.fatal("close", "%v", err)
		}
	}
}

// readingChunks reads a file through two handles at once, with buffers of k and
// k/2+1 bytes.
func readingChunks(t *t, s shown, p string, k int) {
	want := s.tr[p].data
	t.state(s.what, len(want), k)
	type handle struct {
		f    fs.File
		buf  []byte
		off  int
		done bool
	}
	var hs [2]*handle
	for i := range hs {
		f, err := s.fsys.Open(p)
		if err != nil {
			t.fatal("open", "%v", err)
		}
		hs[i] = &handle{f: f, buf: make([]byte, k/(i+1)+i)}
	}
	for !hs[0].done || !hs[1].done {
		for i, h := range hs {
			if h.done {
				continue
			}
			n, err := h.f.Read(h.buf)
			t.step(1)
			if n < 0 || n > len(h.buf) || h.off+n > len(want) || !bytes.Equal(h.buf[:n], want[h.off:h.off+n]) || err != nil && err != io.EOF || err == io.EOF && h.off+n < len(want) || err == nil && n == 0 {
				t.fatal("read", "handle %d: Read(%d) at %d of %d bytes gives %d bytes, %v", i, len(h.buf), h.off, len(want), n, err)
			}
			h.off += n
			h.done = err == io.EOF
		}
	}
	for _, h := range hs {
		if err := h.f.Close(); err != nil {
			t.fatal("close", "%v", err)
		}
	}
}

// reading performs a sequence of operations on two handles of a file.
func reading(t *t, s shown, p string, idx []int) {
	want := s.tr[p].data
	type handle struct {
		f   fs.File
		off int
		eof bool
	}
	var hs [2]*handle
	for i := range hs {
		f, err := s.fsys.Open(p)
		if err != nil {
			t.fatal("open", "%v", err)
		}
		hs[i] = &handle{f: f}
	}
	read := func(h *handle, n int) {
		t.step(1)
		buf := bytes.Repeat([]byte{0xcc}, n)
		k, err := h.f.Read(buf)
		switch {
		case k < 0 || k > n || h.off+k > len(want) || !bytes.Equal(buf[:k], want[h.off:h.off+k]):
			t.fatal("read", "Read(%d) at %d of %d bytes gives %d bytes, %v", n, h.off, len(want), k, err)
		case err != nil && err != io.EOF:
			t.fatal("read", "Read(%d) at %d of %d bytes: %v", n, h.off, len(want), err)
		case err == io.EOF && h.off+k < len(want):
			t.fatal("read", "Read(%d) at %d of %d bytes gives %d bytes and io.EOF", n, h.off, len(want), k)
		case h.eof && n > 0 && err != io.EOF:
			t.fatal("read", "Read(%d) after io.EOF gives %d bytes, %v", n, k, err)
		case n > 0 && k == 0 && err == nil:
			t.fatal("read", "Read(%d) at %d of %d bytes gives nothing", n, h.off, len(want))
		case n > 0 && h.off == len(want) && err != io.EOF:
			t.fatal("read", "Read(%d) at the end gives %d bytes, %v", n, k, err)
		}
		for _, b := range buf[k:] {
			// "Even if Read returns n < len(p), it may use all of p as scratch space".
			_ = b
		}
		h.off += k
		h.eof = err == io.EOF && n > 0
	}
	stat := func(h *handle) {
		t.step(1)
		fi, err := h.f.Stat()
		if err != nil || fi.Size() != int64(len(want)) || fi.IsDir() || fi.Name() != p || !fi.Mode().IsRegular() {
			t.fatal("stat", "Stat of a handle at %d: %v, %v", h.off, fi, err)
		}
	}
	for _, o := range idx {
		switch o {
		case 0:
			read(hs[0], 1)
		case 1:
			read(hs[0], 2)
		case 2:
			read(hs[0], 512)
		case 3:
			read(hs[0], 0)
		case 4:
			read(hs[1], 1)
		case 5:
			read(hs[1], 4096)
		case 6:
			stat(hs[0])
			stat(hs[1])
		case 7:
			if b, err := fs.ReadFile(s.fsys, p); err != nil || !bytes.Equal(b, want) {
				t.fatal("readfile", "ReadFile gives %d bytes, %v", len(b), err)
			}
			fi, err := fs.Stat(s.fsys, p)
			if err != nil || fi.Size() != int64(len(want)) {
				t.fatal("stat", "%v, %v", fi, err)
			}
		case 8:
			// A new handle in place of one that is closed.
			if err := hs[1].f.Close(); err != nil {
				t.fatal("close", "%v", err)
			}
			f, err := s.fsys.Open(p)
			if err != nil {
				t.fatal("open", "%v", err)
			}
			hs[1] = &handle{f: f}
		case 9:
			read(hs[0], 3)
			read(hs[1], 513)
		}
	}
	t.state(s.what, p, hs[0].off, hs[1].off, hs[0].eof, hs[1].eof)
	for _, h := range hs {
		for i := 0; h.off < len(want) && i < 200; i++ {
			read(h, 1000)
		}
		read(h, 1)
		read(h, 5)
		stat(h)
		if err := h.f.Close(); err != nil {
			t.fatal("close", "%v", err)
		}
	}
}

var _ = memfs.New
