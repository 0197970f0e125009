package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/internal/vrt"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	common := []string{
		"profiles: all sequences of up to 4 (EROFS: 3, thorough: 4) files, each with something particular: 18 (ar: 13) kinds of name, type, owner, time, mode, data",
		"all trees of up to 5 nodes (thorough: 6) over 3 types and 4 names, with rotating source behaviours",
		"all file sizes up to a bound, all sequences of 5 (thorough: 6) boundary sizes; all 4096 modes of files, directories, links and the root",
		"owners at field boundaries, all pairs x how they are reported; times at boundaries with fractions",
		"every byte in a name; all name lengths; pairs and triples of names that sort around '.', '..' and each other; link targets of all lengths",
		"names: every pair and set of 3 of 69 names that some orders and comparisons put elsewhere or take for each other (numbers, both cases, letters that fold or are composed, bytes that are no text)",
		"types that cannot be recorded",
		"real directories (os.DirFS): all trees of up to 4 nodes (thorough: 5) x 7 assignments of modes, owners, times and hard links",
	}
	register(&check{
		id:     "C03",
		level:  "model_checking",
		rule:   "a state is a distinct source tree; transitions are the paths compared after reading the archive back with this library and with an independent reader",
		bounds: append(append([]string{}, common...), "a file of more than 4 GiB (thorough: 9 sizes around powers of two)"),
		run:    runC03,
		budget: 100_000_000,
	})
	register(&check{
		id:    "C04",
		level: "model_checking",
		rule:  "a state is a distinct source tree; transitions are the paths compared after reading the image back",
		bounds: append(append([]string{}, common...),
			"directories with every number of entries around the ends of blocks x name lengths, exact fits",
			"every fill level of a metadata block x inode kind x boundary size",
			"a file of more than 4 GiB (thorough: 9 sizes around powers of two)",
			"destinations that are empty, hold other data, or are filled with garbage"),
		run:    runC04,
		budget: 100_000_000,
	})
	register(&check{
		id:    "C05",
		level: "model_checking",
		rule:  "a state is a distinct source tree; every image is decoded and validated by an independent decoder of the on-disk format and compared with the tree; transitions are the inodes validated",
		bounds: append(append([]string{}, common...),
			"directories with every number of entries around the ends of blocks x name lengths, exact fits",
			"every fill level of a metadata block x inode kind x boundary size",
			"real destination files that are empty, shorter and longer than the image"),
		run: runC05,
	})
	register(&check{
		id:    "C10",
		level: "model_checking",
		rule:  "a state is a distinct source tree; transitions are the members compared after reading the archive back with this library and with an independent reader",
		bounds: []string{
			"profiles: all sequences of up to 4 (EROFS: 3, thorough: 4) files, each with something particular: 18 (ar: 13) kinds of name, type, owner, time, mode, data",
			"all directories of up to 5 files over 5 names x how owners are reported; all sizes 0..1100; all sequences of 5 boundary sizes",
			"all 4096 modes; owners and times at the boundaries of their fields; every byte in a name, all name lengths",
			"names: every pair and set of 3 of 69 names that some orders and comparisons put elsewhere or take for each other (numbers, both cases, letters that fold or are composed, bytes that are no text)",
			"a file of more than 4 GiB (thorough: 9 sizes around powers of two), one of 10^10 bytes",
			"real directories (os.DirFS) of up to 2 files x 7 assignments of attributes",
			"everything that cannot be recorded: types, long names, names with blanks, wide fields",
		},
		run:    runC10,
		budget: 100_000_000,
	})
}

func srcDesc(tr tree, o sourceOpts) func() string {
	return func() string { return optsString(o) + "\n" + tr.String() }
}

// ---- tar ----

// tarRecords reads the records of an archive with the standard library.
func tarRecords(b []byte) ([]*tar.Header, [][]byte, error) {
	tr := tar.NewReader(bytes.NewReader(b))
	var hs []*tar.Header
	var data [][]byte
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return hs, data, nil
		}
		if err != nil {
			return nil, nil, err
		}
		d, err := io.ReadAll(tr)
		if err != nil {
			return nil, nil, err
		}
		hs = append(hs, h)
		data = append(data, d)
	}
}

func checkTarCreated(t *t, b []byte, want tree) {
	// The archive as such.
	if len(b)%512 != 0 || len(b) < 1024 || !bytes.Equal(b[len(b)-1024:], make([]byte, 1024)) {
		t.fatal("end-marker", "the archive of %d bytes does not end with a proper marker", len(b))
	}
	hs, data, err := tarRecords(b)
	if err != nil {
		t.fatal("malformed", "an independent reader fails: %v", err)
	}
	seen := tree{".": want["."]}
	for i, h := range hs {
		p := strings.TrimSuffix(h.Name, "/")
		if p == "" || p == "." {
			t.fatal("root-recorded", "the root is recorded: %q", h.Name)
		}
		if seen[p] != nil {
			t.fatal("duplicate", "%q is recorded twice", p)
		}
		if d := seen[path.Dir(p)]; d == nil || d.kind != 'd' {
			t.fatal("order", "%q is recorded before its directory", p)
		}
		n := infoNode(h.FileInfo())
		n.uid, n.gid = h.Uid, h.Gid
		switch h.Typeflag {
		case tar.TypeReg:
			n.data = data[i]
		case tar.TypeSymlink:
			n.target = h.Linkname
		case tar.TypeDir, tar.TypeChar, tar.TypeBlock, tar.TypeFifo:
		default:
			t.fatal("type", "%q has type %c", p, h.Typeflag)
		}
		seen[p] = n
	}
	if d := diff(want, seen, cmpOpts{noRoot: true, timeUnit: time.Second}); d != "" {
		t.fatal("records", "independent reader: %s", d)
	}
}

func readBackTar(t *t, b []byte, want tree) {
	fsys, err := tarfs.Open(ra(b))
	if err != nil {
		t.fatal("open", "opening the created archive fails: %v", err)
	}
	got, err := observe(fsys)
	if err != nil {
		t.fatal("observe", "%v", err)
	}
	if d := diff(want, got, cmpOpts{noRoot: true, timeUnit: time.Second}); d != "" {
		t.fatal("diff", "%s", d)
	}
}

func runC03(c *ctx) {
	runHugeCreate(c, 't')
	eachReal(c, realDepth(c), "fd", func(t *t, src fs.FS, want tree) {
		w := &writer{}
		if err := tarfs.Create(w, src); err != nil {
			t.fatal("create", "creation fails: %v", err)
		}
		checkTarCreated(t, w.buf, want)
		readBackTar(t, w.buf, want)
	})
	sourceSpaces(c, 't', func(space string, tr tree, o sourceOpts) {
		c.each(space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			src, _ := newSource(tr, o)
			w := &writer{}
			if err := tarfs.Create(w, src); err != nil {
				t.fatal("create", "creation fails: %v", err)
			}
			want := recorded(tr, o)
			checkTarCreated(t, w.buf, want)
			readBackTar(t, w.buf, want)
			t.step(2 * len(tr))
		})
	})
	rejects(func(space string, kind byte, tr tree, o sourceOpts) {
		c.each("reject-"+space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			t.step(1)
			src, _ := newSource(tr, o)
			w := &writer{}
			err := tarfs.Create(w, src)
			switch kind {
			case 's', 'i', 'l':
				if err == nil {
					t.fatal("recorded", "creation succeeds although a %c cannot be recorded", kind)
				}
			default:
				if err == nil {
					// If recorded, it must be recorded as what it is, without data.
					want := recorded(tr, o)
					for _, n := range want {
						if n.kind == kind {
							n.data = nil
						}
					}
					checkTarCreated(t, w.buf, want)
				}
			}
		})
	})
}

// ---- erofs ----

// destinations for images.
func erofsDest(i int, size int) *memFile {
	switch i % 4 {
	case 1:
		return &memFile{fill: 0xaa}
	case 2:
		return &memFile{fill: 0x01, buf: bytes.Repeat([]byte{0x55}, size)}
	case 3:
		return &memFile{fill: 0xff, buf: bytes.Repeat([]byte{0xff}, 1)}
	}
	return &memFile{}
}

func runC04(c *ctx) {
	runHugeCreate(c, 'e')
	eachReal(c, realDepth(c), "fdl", func(t *t, src fs.FS, want tree) {
		dst := erofsDest(len(want), 20000)
		if err := erofs.Create(dst, src); err != nil {
			t.fatal("create", "creation fails: %v", err)
		}
		readBackErofs(t, dst.buf, want)
	})
	i := 0
	sourceSpaces(c, 'e', func(space string, tr tree, o sourceOpts) {
		i++
		i := i
		c.each(space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			src, _ := newSource(tr, o)
			dst := erofsDest(i, 20000)
			if err := erofs.Create(dst, src); err != nil {
				t.fatal("create", "creation fails: %v", err)
			}
			readBackErofs(t, dst.buf, recorded(tr, o))
			t.step(len(tr))
		})
	})
	rejects(func(space string, kind byte, tr tree, o sourceOpts) {
		c.each("reject-"+space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			t.step(1)
			src, _ := newSource(tr, o)
			dst := &memFile{}
			if err := erofs.Create(dst, src); err == nil {
				readBackErofs(t, dst.buf, recorded(tr, o))
			}
		})
	})
	faithful := func(space string, tr tree, o sourceOpts) {
		c.each(space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			t.step(1)
			src, _ := newSource(tr, o)
			dst := &memFile{}
			if err := erofs.Create(dst, src); err == nil {
				readBackErofs(t, dst.buf, recorded(tr, o))
			}
		})
	}
	for n := 256; n <= 400; n++ {
		name := strings.Repeat("n", n)
		faithful("faithful-names", tree{".": directory(), name: file("x"), "z": file("z")}, sourceOpts{})
		faithful("faithful-names", tree{".": directory(), "d": directory(), "d/" + name: directory(), "z": link("x")}, sourceOpts{})
	}
	for n := 4090; n <= 4200; n++ {
		faithful("faithful-links", tree{".": directory(), "l": link(string(pattern2(n))), "z": file("z")}, sourceOpts{})
	}
	for _, n := range []int{8191, 8192, 8193, 12287, 12288, 65535, 65536} {
		faithful("faithful-links", tree{".": directory(), "l": link(string(pattern2(n))), "z": file("z")}, sourceOpts{})
	}
	for _, id := range []int{-1, -2, 1 << 32, 1<<32 + 1, 1 << 40, -1 << 33} {
		for _, zt := range []bool{false, true} {
			a := tree{".": directory(), "f": file("x")}
			a["f"].uid = id
			faithful("faithful-owners", a, sourceOpts{sys: 't', zeroTime: zt})
			b := tree{".": directory(), "f": directory()}
			b["f"].gid = id
			faithful("faithful-owners", b, sourceOpts{sys: 't', zeroTime: zt})
		}
	}
	if c.thorough {
		// More entries than a 16-bit link count holds.
		for _, n := range []int{65532, 65533, 65534, 65535, 65536} {
			c.each("many-entries", func() string { return fmt.Sprint(n) }, func(t *t) {
				tr := tree{".": directory()}
				for i := 0; i < n; i++ {
					tr[fmt.Sprintf("%d", i)] = &node{kind: 'f', mode: 0o644, mtime: epoch}
				}
				checkManyEntries(t, tr)
			})
		}
	}
}

func checkManyEntries(t *t, tr tree) {
	t.state(len(tr))
	vrt.SetBudget(1 << 62)
	src, _ := newSource(tr, sourceOpts{zeroTime: true})
	dst := &memFile{}
	if err := erofs.Create(dst, src); err != nil {
		t.fatal("create", "creation fails: %v", err)
	}
	fsys, err := erofs.Open(ra(dst.buf))
	if err != nil {
		t.fatal("open", "%v", err)
	}
	es, err := fsys.ReadDir(".")
	if err != nil || len(es) != len(tr)-1 {
		t.fatal("readdir", "%d entries, %v, want %d", len(es), err, len(tr)-1)
	}
	for _, e := range es {
		if tr[e.Name()] == nil {
			t.fatal("readdir", "extra entry %q", e.Name())
		}
	}
	t.step(len(es))
}

func readBackErofs(t *t, b []byte, want tree) {
	fsys, err := erofs.Open(ra(b))
	if err != nil {
		t.fatal("open", "opening the created image fails: %v", err)
	}
	got, err := observe(fsys)
	if err != nil {
		t.fatal("observe", "%v", err)
	}
	if d := diff(want, got, cmpOpts{}); d != "" {
		t.fatal("diff", "%s", d)
	}
	// Every path can be looked up.
	for p, n := range want {
		fi, err := fsys.StatLink(p)
		if err != nil {
			t.fatal("lookup", "StatLink(%q): %v", trunc(p, 300), err)
		}
		if kindOf(fi.Mode()) != n.kind {
			t.fatal("lookup", "StatLink(%q) has type %c", trunc(p, 300), kindOf(fi.Mode()))
		}
	}
}

func runC05(c *ctx) {
	check := func(t *t, b []byte, padded bool, want tree) {
		got, err := decodeErofs(b, padded)
		if err != nil {
			t.fatal("malformed", "%v", err)
		}
		if d := diff(want, got, cmpOpts{}); d != "" {
			t.fatal("diff", "independent decoder: %s", d)
		}
		t.step(len(got))
	}
	i := 0
	dir, err := os.MkdirTemp("", "c05.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	eachReal(c, realDepth(c), "fdl", func(t *t, src fs.FS, want tree) {
		dst := erofsDest(len(want), 0)
		if err := erofs.Create(dst, src); err != nil {
			t.fatal("create", "creation fails: %v", err)
		}
		check(t, dst.buf, false, want)
	})
	sourceSpaces(c, 'e', func(space string, tr tree, o sourceOpts) {
		i++
		i := i
		c.each(space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			src, _ := newSource(tr, o)
			want := recorded(tr, o)
			if i%8 != 7 {
				dst := erofsDest(i, 0)
				if err := erofs.Create(dst, src); err != nil {
					t.fatal("create", "creation fails: %v", err)
				}
				check(t, dst.buf, false, want)
				return
			}
			// A real file, possibly with other contents.
			name := filepath.Join(dir, "img")
			if n := []int{0, 1, 4096, 5000, 40960, 100000}[i/8%6]; n > 0 || i/8%2 == 0 {
				if err := os.WriteFile(name, bytes.Repeat([]byte{0xee}, n), 0o600); err != nil {
					panic(err)
				}
			}
			f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o600)
			if err != nil {
				panic(err)
			}
			defer f.Close()
			if err := erofs.Create(f, src); err != nil {
				t.fatal("create", "creation fails: %v", err)
			}
			b, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			check(t, b, true, want)
		})
	})
	for _, n := range []int{65532, 65533, 65534, 65535, 65536} {
		if !c.thorough && n != 65534 {
			continue
		}
		for _, zt := range []bool{false, true} {
			c.each("many-entries", func() string { return fmt.Sprint(n, zt) }, func(t *t) {
				tr := tree{".": directory()}
				for i := 0; i < n; i++ {
					tr[fmt.Sprintf("%d", i)] = file("")
				}
				o := sourceOpts{zeroTime: zt}
				t.state(n)
				vrt.SetBudget(1 << 62)
				src, _ := newSource(tr, o)
				dst := &memFile{}
				if err := erofs.Create(dst, src); err != nil {
					t.fatal("create", "creation fails: %v", err)
				}
				check(t, dst.buf, false, recorded(tr, o))
			})
		}
	}
}

// ---- ar ----

// decodeAr reads an archive strictly.
func decodeAr(b []byte) (tree, []string, error) {
	if !bytes.HasPrefix(b, []byte("!<arch>\n")) {
		return nil, nil, fmt.Errorf("no signature")
	}
	out := tree{".": directory()}
	var order []string
	off := 8
	for off < len(b) {
		if off%2 != 0 {
			return nil, nil, fmt.Errorf("member at odd offset %d", off)
		}
		if len(b)-off < 60 {
			return nil, nil, fmt.Errorf("header of %d bytes at %d", len(b)-off, off)
		}
		h := b[off : off+60]
		if string(h[58:]) != "`\n" {
			return nil, nil, fmt.Errorf("no terminator at %d: %q", off, h)
		}
		num := func(s []byte, base int64) (int64, error) {
			t := strings.TrimRight(string(s), " ")
			if t == "" {
				return 0, fmt.Errorf("empty number in %q", h)
			}
			v, neg := int64(0), false
			for i, c := range t {
				if c == '-' && i == 0 && len(t) > 1 {
					neg = true
					continue
				}
				if c < '0' || int64(c-'0') >= base {
					return 0, fmt.Errorf("bad number %q in %q", t, h)
				}
				v = v*base + int64(c-'0')
			}
			if neg {
				v = -v
			}
			return v, nil
		}
		name := strings.TrimRight(string(h[:16]), " ")
		mtime, e1 := num(h[16:28], 10)
		uid, e2 := num(h[28:34], 10)
		gid, e3 := num(h[34:40], 10)
		mode, e4 := num(h[40:48], 8)
		size, e5 := num(h[48:58], 10)
		for _, e := range []error{e1, e2, e3, e4, e5} {
			if e != nil {
				return nil, nil, e
			}
		}
		if size < 0 || size > int64(len(b)-off-60) {
			return nil, nil, fmt.Errorf("size %d at %d of %d", size, off, len(b))
		}
		data := b[off+60 : off+60+int(size)]
		off += 60 + int(size)
		if size%2 == 1 {
			if off >= len(b) {
				return nil, nil, fmt.Errorf("the padding of %q is missing", name)
			}
			if b[off] != '\n' {
				return nil, nil, fmt.Errorf("the padding of %q is %q", name, b[off])
			}
			off++
		}
		if out[name] != nil {
			return nil, nil, fmt.Errorf("%q is recorded twice", name)
		}
		out[name] = &node{kind: 'f', mode: tarMode(mode), uid: int(uid), gid: int(gid), mtime: time.Unix(mtime, 0), data: data}
		order = append(order, name)
	}
	return out, order, nil
}

func runC10(c *ctx) {
	runHugeCreate(c, 'a')
	check := func(t *t, b []byte, want tree) {
		want = want.clone()
		for _, n := range want {
			// To the second.
			n.mtime = time.Unix(n.mtime.Unix(), 0)
		}
		// Files without a time may be recorded with the zero time.
		noTimes := func(tr tree) {
			for _, n := range tr {
				if n.mtime.IsZero() {
					n.mtime = epoch
				}
			}
		}
		got, _, err := decodeAr(b)
		if err != nil {
			t.fatal("malformed", "%v", err)
		}
		noTimes(want)
		noTimes(got)
		if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
			t.fatal("diff", "independent reader: %s", d)
		}
		fsys, err := arfs.Open(ra(b))
		if err != nil {
			t.fatal("open", "opening the created archive fails: %v", err)
		}
		if got, err = observe(fsys); err != nil {
			t.fatal("observe", "%v", err)
		}
		noTimes(got)
		if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
			t.fatal("diff", "%s", d)
		}
		t.step(2 * len(want))
	}
	eachReal(c, 2, "f", func(t *t, src fs.FS, want tree) {
		w := &writer{}
		err := arfs.Create(w, src)
		for p, n := range want {
			if p != "." && n.uid > 999999 {
				if err == nil {
					t.fatal("recorded", "%q is recorded although the owner %d cannot be", p, n.uid)
				}
				return
			}
		}
		if err != nil {
			t.fatal("create", "creation fails: %v", err)
		}
		check(t, w.buf, want)
	})
	sourceSpaces(c, 'a', func(space string, tr tree, o sourceOpts) {
		c.each(space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			src, _ := newSource(tr, o)
			w := &writer{}
			if err := arfs.Create(w, src); err != nil {
				for _, n := range tr {
					if n.mtime.Unix() >= 1e12 || n.mtime.Unix() <= -1e11 {
						return
					}
				}
				t.fatal("create", "creation fails: %v", err)
			}
			check(t, w.buf, recorded(tr, o))
			// Once more, from the archive.
			fsys, err := arfs.Open(ra(w.buf))
			if err != nil {
				t.fatal("open", "%v", err)
			}
			w2 := &writer{}
			if err := arfs.Create(w2, fsys); err != nil {
				t.fatal("copy", "creation from the created archive fails: %v", err)
			}
			check(t, w2.buf, recorded(tr, o))
		})
	})
	// Faithful or refused.
	try := func(space string, tr tree, o sourceOpts) {
		c.each(space, srcDesc(tr, o), func(t *t) {
			t.state(tr)
			t.step(1)
			src, _ := newSource(tr, o)
			w := &writer{}
			if err := arfs.Create(w, src); err == nil {
				want := recorded(tr, o)
				for p := range want {
					if strings.Contains(p, "/") {
						t.fatal("recorded", "creation succeeds although there are directories")
					}
				}
				check(t, w.buf, want)
			}
		})
	}
	rejects(func(space string, kind byte, tr tree, o sourceOpts) { try("reject-"+space, tr, o) })
	for _, kind := range []byte("cbpsildf") {
		for _, others := range []int{0, 1, 2, 3} {
			tr := tree{".": directory(), "m": &node{kind: kind, mode: 0o644, mtime: epoch, target: "t", data: nil}}
			if kind == 'f' {
				tr["m"].data = []byte("x")
			}
			if kind != 'l' {
				tr["m"].target = ""
			}
			if others&1 != 0 {
				tr["a"] = file("a")
			}
			if others&2 != 0 {
				tr["z"] = file("zz")
			}
			try("reject-types", tr, sourceOpts{})
			try("reject-types", tr, sourceOpts{noLinks: true})
		}
	}
	for n := 1; n <= 40; n++ {
		for _, r := range []string{"n", "ü", "日", " ", ".", "\xff", "\t"} {
			name := strings.Repeat(r, n)
			if name == "." || name == ".." {
				continue
			}
			try("reject-names", tree{".": directory(), name: file("x"), "z": file("z")}, sourceOpts{})
			try("reject-names", tree{".": directory(), "a" + name: file("x"), "z": file("z")}, sourceOpts{})
			try("reject-names", tree{".": directory(), name + "a": file("x"), "z": file("z")}, sourceOpts{})
			try("reject-names", tree{".": directory(), "a" + name + "b": file("x"), "z": file("z")}, sourceOpts{})
		}
	}
	for b := 1; b < 256; b++ {
		if b == '/' {
			continue
		}
		s := string([]byte{byte(b)})
		for _, pat := range []string{"%", "%x", "x%", "x%y", "%%", "x %", "% x", "xxxxxxxxxxxxxxx%", "%xxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxx%"} {
			name := strings.ReplaceAll(pat, "%", s)
			if name == "." || name == ".." {
				continue
			}
			try("reject-names", tree{".": directory(), name: file("x"), "zz": file("z")}, sourceOpts{})
		}
	}
	// The same archive can be recorded only once under names that become equal.
	for _, x := range []string{"a", "a ", " a", "a\t", "a\n", "a\r", "\va", "a\u00a0", "a\u2003", "a\u0085"} {
		for _, y := range []string{"a", "a ", " a", "a\t", "b"} {
			if x != y {
				try("reject-names", tree{".": directory(), x: file("x"), y: file("y")}, sourceOpts{})
			}
		}
	}
	wide := []int64{-1, -9, -99999, -100000, 99999, 999999, 1000000, 9999999, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40}
	for _, v := range wide {
		for _, s := range []byte{'t', 's'} {
			a := tree{".": directory(), "f": file("x"), "z": file("z")}
			a["f"].uid = int(v)
			b := tree{".": directory(), "f": file("x"), "z": file("z")}
			b["f"].gid = int(v)
			if s == 's' && (v < 0 || v > 1<<32-1) {
				continue
			}
			try("reject-owners", a, sourceOpts{sys: s})
			try("reject-owners", b, sourceOpts{sys: s})
		}
	}
	for _, v := range []int64{-1, -99999999999, -100000000000, 99999999999, 999999999999, 1000000000000, 1 << 50, -1 << 50} {
		a := tree{".": directory(), "f": file("x"), "z": file("z")}
		a["f"].mtime = time.Unix(v, 0)
		try("reject-times", a, sourceOpts{})
	}
	// From archives of the same format with every kind of header.
	for _, uid := range []string{"0", "1", "999999", "-1", "-99999", "00001"} {
		for _, mt := range []string{"0", "1", "999999999999", "-1", "-99999999999"} {
			for _, mode := range []string{"644", "100644", "0", "7777", "0100755", "104755"} {
				recs := []arec{{name: "a", mtime: mt, uid: uid, gid: "5", mode: mode, data: []byte("abc")}, {name: "b/", mtime: "7", uid: "6", gid: uid, mode: "600", data: nil}}
				c.each("from-ar", func() string { return arString(recs) }, func(t *t) {
					src, err := arfs.Open(ra(arBytes(recs...)))
					if err != nil {
						t.fatal("open", "%v", err)
					}
					want, err := observe(src)
					if err != nil {
						t.fatal("observe", "%v", err)
					}
					t.state(want)
					w := &writer{}
					if err := arfs.Create(w, src); err != nil {
						t.fatal("create", "creation from an archive fails: %v", err)
					}
					check(t, w.buf, want)
				})
			}
		}
	}
}

var _ fs.FS
