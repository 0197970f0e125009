package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

// tarMode converts the mode field of a tar record.
func tarMode(m int64) fs.FileMode {
	mode := fs.FileMode(m & 0o777)
	if m&0o4000 != 0 {
		mode |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		mode |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		mode |= fs.ModeSticky
	}
	return mode
}

// cleanTarName returns the path of a recorded name, "" for the root.
func cleanTarName(name string) string {
	var out []string
	for _, e := range strings.Split(name, "/") {
		switch e {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, e)
		}
	}
	return strings.Join(out, "/")
}

func (r trec) node() *node {
	n := &node{mode: tarMode(r.mode), uid: r.uid, gid: r.gid, mtime: time.Unix(r.mtime, int64(r.nsec))}
	switch r.typ {
	case '0', 0, '7', 'S':
		n.kind, n.data = 'f', r.data
		if n.data == nil {
			n.data = []byte{}
		}
	case '5':
		n.kind = 'd'
	case '2':
		n.kind, n.target = 'l', r.link
	case '1':
		n.kind, n.target = 'h', r.link
	}
	return n
}

// modelTar is the reference: the tree that an archive records. The second
// result is false if the archive is not well-formed.
func modelTar(recs []trec) (tree, bool) {
	tr := tree{}
	for _, r := range recs {
		if r.typ == 'g' {
			continue
		}
		if p := cleanTarName(r.name); p != "" {
			tr[p] = r.node()
		}
	}
	// Hard links, through chains.
	for p, n := range tr {
		if n.kind != 'h' {
			continue
		}
		t := n
		for i := 0; t != nil && t.kind == 'h'; i++ {
			if i > len(tr) {
				return nil, false
			}
			t = tr[cleanTarName(t.target)]
		}
		if t == nil || t.kind == 'd' {
			return nil, false
		}
		c := *t
		defer func(p string) { tr[p] = &c }(p)
	}
	for _, p := range tr.paths() {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if tr[d] == nil {
				tr[d] = &node{kind: 'd', mode: 0o755}
			} else if tr[d].kind != 'd' {
				return nil, false
			}
		}
	}
	tr["."] = &node{kind: 'd', mode: 0o755}
	return tr, true
}

// checkTar opens an archive and compares it with the model.
func checkTar(t *t, recs []trec, want tree) {
	checkTarBytes(t, tarBytes(recs...), recs, want)
}

func checkTarBytes(t *t, b []byte, recs []trec, want tree) {
	fsys, err := tarfs.Open(ra(b))
	if err != nil {
		t.fatal("open-failed", "opening a well-formed archive fails: %v", err)
	}
	got, err := observe(fsys)
	if err != nil {
		t.fatal("observe", "%v", err)
	}
	if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
		t.fatal("diff", "%s", d)
	}
	t.step(1 + 4*len(want))
	last := map[string]trec{}
	for _, r := range recs {
		if r.typ != 'g' {
			last[cleanTarName(r.name)] = r
		}
	}
	// The root is implied by all entries.
	if _, ok := last[""]; !ok {
		if fi, err := fsys.Stat("."); err != nil || fi.Mode() != fs.ModeDir|0o755 {
			t.fatal("root", "the root is %v, %v", fi, err)
		}
	}
	// Everything is reachable by its own path, and extended fields are there.
	for p, n := range want {
		if p == "." {
			continue
		}
		fi, err := fsys.StatLink(p)
		if err != nil {
			t.fatal("statlink", "StatLink(%q): %v", p, err)
		}
		if d := diff(tree{p: {kind: n.kind, mode: n.mode, uid: n.uid, gid: n.gid, mtime: n.mtime}}, tree{p: infoNode(fi)}, cmpOpts{}); d != "" {
			t.fatal("statlink", "StatLink: %s", d)
		}
		if fi.Name() != path.Base(p) {
			t.fatal("statlink", "StatLink(%q) has name %q", p, fi.Name())
		}
		if n.kind == 'f' {
			fi, err := fsys.Stat(p)
			if err != nil {
				t.fatal("stat", "Stat(%q): %v", p, err)
			}
			if fi.Size() != int64(len(n.data)) || fi.Name() != path.Base(p) || kindOf(fi.Mode()) != 'f' {
				t.fatal("stat", "Stat(%q): name %q, size %d, mode %v", p, fi.Name(), fi.Size(), fi.Mode())
			}
		}
		r, ok := last[p]
		if !ok || r.typ == '1' {
			continue
		}
		h, ok := fi.Sys().(*tar.Header)
		if !ok {
			t.fatal("sys", "Sys of %q is a %T", p, fi.Sys())
		}
		if r.format != '7' && (h.Uname != r.uname || h.Gname != r.gname) {
			t.fatal("names", "%q belongs to %q:%q, want %q:%q", p, h.Uname, h.Gname, r.uname, r.gname)
		}
		for k, v := range r.pax {
			if !standardPax[k] && h.PAXRecords[k] != v {
				t.fatal("pax", "%q has extended record %s=%q, want %q", p, k, h.PAXRecords[k], v)
			}
		}
	}
}

// standardPax are the records that become fields of the header.
var standardPax = map[string]bool{"path": true, "linkpath": true, "size": true, "uid": true, "gid": true, "uname": true, "gname": true, "mtime": true, "atime": true, "ctime": true}

func pattern(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i/251) ^ salt
		if b[i] == 0 {
			b[i] = salt | 1
		}
	}
	return b
}

var tarAlphabet = []trec{
	{name: "a", typ: '0', mode: 0o644, data: []byte("1"), format: 'u'},
	{name: "./a", typ: '0', mode: 0o4755, uid: 7, gid: 8, mtime: 99, data: bytes.Repeat([]byte("2"), 512), format: 'g'},
	{name: "d/", typ: '5', mode: 0o1700, uid: 1, gid: 2, mtime: 50, format: 'u', uname: "u", gname: "g"},
	{name: "d/a", typ: '0', mode: 0o600, data: bytes.Repeat([]byte("3"), 513), format: 'p', nsec: 5, pax: map[string]string{"SCHILY.xattr.user.x": "y"}},
	{name: "d/e/f", typ: '0', mode: 0o640, data: nil, format: 'u'},
	{name: "d/e", typ: '5', mode: 0o711, mtime: 60, format: 'g'},
	{name: "d/l", typ: '2', mode: 0o777, link: "../a", format: 'u', mtime: 3},
	{name: "d", typ: '5', mode: 0o750, uid: 3, gid: 4, mtime: 51, format: 'u'},
	{name: "s", typ: '0', mode: 0o644, format: 'p', sparse: "1.0", data: append(make([]byte, 600), "xyz"...), frags: []frag{{600, 3}}},
	{name: ".h", typ: '0', mode: 0o604, data: []byte("h"), format: '7'},
	{name: "x", typ: 'g', pax: map[string]string{"comment": "c"}},
	{name: "./", typ: '5', mode: 0o700, format: 'u'},
	{name: "l", typ: '2', mode: 0o777, link: "d", format: 'g'},
	{name: "d/e/s", typ: 'S', mode: 0o400, format: 'g', sparse: "gnu", data: append([]byte("ab"), make([]byte, 1022)...), frags: []frag{{0, 2}, {1024, 0}}},
}

func init() {
	register(&check{
		id:    "C01",
		level: "model_checking",
		rule:  "a state is a distinct tree recorded by a well-formed archive (as computed by the reference model); transitions are observations (listing, stat, link reading, file reading) compared with the model",
		bounds: []string{
			"all sequences of up to 5 (thorough: 6) records over an alphabet of 14",
			"all file sizes 0..2100 (thorough: 0..5000) followed by another record; all 4096 modes x 3 types",
			"every byte value in a name at start, middle and end; name lengths 1..300; owners, times at field boundaries x formats",
			"names: every pair and set of 3 of 69 names that some orders and comparisons put elsewhere or take for each other (numbers, both cases, letters that fold or are composed, bytes that are no text)",
			"all sparse maps over 5 segments x 4 encodings",
			"all orders of 5 records with nested directories",
			"files of more than 4 GiB in 3 formats (thorough: 9 sizes around powers of two); directories of up to 20000 (thorough: 200000) entries; paths of up to 1000 elements",
			"every bit, and the complement, of every byte (thorough: every byte value) of every header record of 5 archives",
		},
		run:    runC01,
		budget: 100_000_000,
	})
}

func runC01(c *ctx) {
	runHugeOpen(c, 't')
	// Histories of records.
	depth := 5
	if c.thorough {
		depth = 6
	}
	for n := 0; n <= depth; n++ {
		eachSeq(len(tarAlphabet), n, func(idx []int) {
			recs := make([]trec, n)
			for i, k := range idx {
				recs[i] = tarAlphabet[k]
			}
			desc := func() string { return recsString(recs) }
			c.each(fmt.Sprintf("history%d", n), desc, func(t *t) {
				want, ok := modelTar(recs)
				if !ok {
					return
				}
				t.state(want)
				checkTar(t, recs, want)
			})
		})
	}

	// Orders of directories and their contents.
	base := []trec{
		{name: "p/", typ: '5', mode: 0o700, mtime: 1, format: 'u'},
		{name: "p/q/", typ: '5', mode: 0o710, mtime: 2, format: 'u'},
		{name: "p/q/r", typ: '0', mode: 0o640, data: []byte("r"), format: 'u'},
		{name: "p/s", typ: '2', mode: 0o777, link: "q/r", format: 'u'},
		{name: "p.x", typ: '0', mode: 0o604, data: []byte("sorts between p and p/"), format: 'u'},
		{name: "p/q-", typ: '0', mode: 0o644, data: []byte("-"), format: 'u'},
	}
	eachPerm(len(base), func(perm []int) {
		recs := make([]trec, len(base))
		for i, k := range perm {
			recs[i] = base[k]
		}
		// Every subset of the order, too.
		for skip := 0; skip <= len(base); skip++ {
			sub := recs
			if skip < len(base) {
				sub = append(append([]trec{}, recs[:skip]...), recs[skip+1:]...)
			}
			c.each("orders", func() string { return recsString(sub) }, func(t *t) {
				want, ok := modelTar(sub)
				if !ok {
					return
				}
				t.state(want)
				checkTar(t, sub, want)
			})
		}
	})

	one := func(space string, recs ...trec) {
		c.each(space, func() string { return recsString(recs) }, func(t *t) {
			want, ok := modelTar(recs)
			if !ok {
				return
			}
			t.state(want)
			checkTar(t, recs, want)
		})
	}

	// Names that some orders and comparisons put elsewhere or take for each other.
	eachTricky(func(names []string) {
		var recs []trec
		for i, name := range names {
			recs = append(recs, trec{name: name, typ: '0', mode: 0o644, data: []byte(name), format: "ugp"[i%3]})
			if len(names) == 2 {
				recs = append(recs, trec{name: "d/" + name + "/" + names[0], typ: '0', mode: 0o604, data: []byte(name), format: 'u'})
			}
		}
		one("tricky-names", recs...)
	})

	// Sizes.
	maxSize := 2100
	if c.thorough {
		maxSize = 5000
	}
	after := trec{name: "zz-after", typ: '0', mode: 0o600, data: []byte("after"), format: 'u'}
	for n := 0; n <= maxSize; n++ {
		one("sizes", trec{name: "f", typ: '0', mode: 0o644, data: pattern(n, 0), format: 'u'}, after)
	}
	for k := 1; k <= 130; k++ {
		for d := -1; d <= 1; d++ {
			one("sizes-large", trec{name: "f", typ: '0', mode: 0o644, data: pattern(512*k+d, 3), format: "upg7"[k%4]}, after)
		}
	}
	one("sizes-large", trec{name: "f", typ: '0', mode: 0o644, data: pattern(1<<20+1, 3), format: 'u'}, after)

	// Modes.
	for m := int64(0); m < 4096; m++ {
		one("modes", trec{name: "f", typ: '0', mode: m, format: 'u'}, trec{name: "d", typ: '5', mode: m, format: 'g'}, trec{name: "l", typ: '2', mode: m, link: "f", format: 'p'})
	}

	// Types that are regular files, too.
	for _, f := range "upg7" {
		one("typeflags", trec{name: "f", typ: 0, mode: 0o644, data: []byte("old"), format: byte(f)}, after)
	}

	// Owners and times.
	for _, f := range []byte("upg7") {
		for _, id := range []int{0, 1, 65535, 65536, 1<<21 - 1, 1 << 21, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40} {
			if id >= 1<<21 && (f == 'u' || f == '7') {
				continue
			}
			one("owners", trec{name: "f", typ: '0', mode: 0o644, uid: id, gid: 5, format: f}, after)
			one("owners", trec{name: "d/", typ: '5', mode: 0o755, uid: 6, gid: id, format: f, uname: "user", gname: "group"}, after)
		}
		for _, s := range []int64{0, 1, -1, 1 << 31, 1<<33 - 1, 1 << 33, -1 << 31, 253402300799} {
			if (s < 0 || s >= 1<<33) && (f == 'u' || f == '7') {
				continue
			}
			one("times", trec{name: "f", typ: '0', mode: 0o644, mtime: s, format: f}, after)
			for _, ns := range []int{1, 999999999, 500000000, 123456789} {
				if f == 'p' {
					one("times", trec{name: "f", typ: '0', mode: 0o644, mtime: s, nsec: ns, format: f}, trec{name: "d", typ: '5', mode: 0o755, mtime: s, nsec: ns, format: f})
				}
			}
		}
	}

	// Names.
	for _, f := range []byte("upg7") {
		for b := 1; b < 256; b++ {
			if b == '/' {
				continue
			}
			for _, pat := range []string{"%s", "%sx", "x%s", "x%sy", "d/%s", "%s/f", "%s%s"} {
				s := string([]byte{byte(b)})
				name := strings.ReplaceAll(pat, "%s", s)
				if cleanTarName(name) == "" || strings.Contains(cleanTarName(name), "..") || strings.HasPrefix(cleanTarName(name), "../") {
					continue
				}
				one("name-bytes", trec{name: name, typ: '0', mode: 0o644, data: []byte("n"), format: f}, after)
			}
		}
	}
	long := func(n int, every int) string {
		b := bytes.Repeat([]byte{'n'}, n)
		for i := every; i < n-1; i += every {
			b[i] = '/'
		}
		return string(b)
	}
	for n := 1; n <= 300; n++ {
		for _, f := range []byte("upg") {
			for _, every := range []int{1 << 20, 60, 99} {
				one("name-lengths", trec{name: long(n, every), typ: '0', mode: 0o644, data: []byte("n"), format: f},
					trec{name: long(n, every) + "D/", typ: '5', mode: 0o700, format: f},
					trec{name: "L", typ: '2', mode: 0o777, link: long(n, 50), format: f}, after)
			}
		}
	}
	for _, name := range []string{"a", "./a", "/a", "//a", "./././a", "a/../b", "./a/./b", "a//b", ".a", "..a", "...", ".a/.b", "a.", "a..", " ", " a", "a ", "a /b", "\ta", "a\n", "\\", "a\\b", "C:\\x", "~", "-", "--help", "*", "GNUSparseFile.1/a"} {
		for _, f := range []byte("upg7") {
			one("name-forms", trec{name: name, typ: '0', mode: 0o644, data: []byte("n"), format: f}, after)
			one("name-forms", trec{name: name + "/", typ: '5', mode: 0o705, format: f, mtime: 4}, after)
			one("name-forms", trec{name: name, typ: '2', mode: 0o777, link: "zz-after", format: f}, after)
			one("name-forms", trec{name: name + "/sub", typ: '0', mode: 0o644, format: f}, after)
		}
	}
	// The same path recorded under different names.
	forms := []string{"a/b", "./a/b", "/a/b", "a//b", "a/./b", "a/b/", "./a/x/../b"}
	for i, x := range forms {
		for j, y := range forms {
			one("name-aliases", trec{name: x, typ: '5', mode: 0o700, mtime: int64(i), format: 'u'}, trec{name: "a/b/f", typ: '0', mode: 0o600, data: []byte("f"), format: 'u'}, trec{name: y, typ: '5', mode: 0o711, mtime: int64(j), format: 'u'})
			one("name-aliases", trec{name: strings.TrimSuffix(x, "/"), typ: '0', mode: 0o600, data: []byte("1"), format: 'u'}, after, trec{name: strings.TrimSuffix(y, "/"), typ: '0', mode: 0o611, data: []byte("2"), format: 'u'})
		}
	}

	// Extended records and global headers in every position.
	ext := []trec{
		{name: "a", typ: '0', mode: 0o644, data: []byte("1"), format: 'p', allPax: true, pax: map[string]string{"SCHILY.xattr.security.selinux": "s\x00t", "LIBARCHIVE.x": "1"}},
		{name: "b/", typ: '5', mode: 0o644, format: 'p', allPax: true, pax: map[string]string{"SCHILY.xattr.user.a": "v"}, uid: 70000, gid: 70001},
		{name: "c", typ: '2', mode: 0o777, link: "\xff\xfe/ü", format: 'p', allPax: true, nsec: 77},
		{name: "ü/日本", typ: '0', mode: 0o644, data: []byte("u"), format: 'p'},
	}
	for g := 0; g < 1<<5; g++ {
		var recs []trec
		for i := 0; i <= len(ext); i++ {
			if g>>i&1 == 1 {
				recs = append(recs, trec{typ: 'g', pax: map[string]string{"comment": strings.Repeat("x", 500*i)}})
			}
			if i < len(ext) {
				recs = append(recs, ext[i])
			}
		}
		one("global-headers", recs...)
	}

	// Sparse files: every pattern of data and holes over segments.
	segs := []int64{512, 1, 511, 700, 1024}
	for _, enc := range []string{"gnu", "0.0", "0.1", "1.0"} {
		for mask := 0; mask < 1<<len(segs); mask++ {
			for tail := 0; tail < 2; tail++ {
				var data []byte
				var frags []frag
				off := int64(0)
				for i, n := range segs {
					if mask>>i&1 == 1 {
						data = append(data, pattern(int(n), byte(i*40))...)
						frags = append(frags, frag{off, n})
					} else {
						data = append(data, make([]byte, n)...)
					}
					off += n
				}
				if tail == 1 {
					// A zero-sized fragment at the end.
					frags = append(frags, frag{off, 0})
				}
				r := trec{name: "sparse", typ: '0', mode: 0o644, format: 'p', sparse: enc, data: data, frags: frags}
				if enc == "gnu" {
					r.typ, r.format = 'S', 'g'
				}
				if enc == "0.1" && len(frags) == 0 || enc == "0.0" && len(frags) == 0 {
					continue
				}
				r2 := r
				r2.name = "d/sparse2"
				one("sparse", r, after)
				one("sparse", r, r2, after)
				one("sparse", trec{name: "A", typ: '0', mode: 0o644, data: pattern(700, 1), format: 'u'}, r, trec{typ: 'g', pax: map[string]string{"comment": "x"}}, r2, trec{name: "d/", typ: '5', mode: 0o700, format: 'u'}, r2, after)
			}
		}
	}
	// More fragments than fit in one header.
	for n := 1; n <= 60; n++ {
		var frags []frag
		data := make([]byte, n*100)
		for i := 0; i < n; i++ {
			copy(data[i*100:], pattern(50, byte(i)))
			frags = append(frags, frag{int64(i * 100), 50})
		}
		for _, enc := range []string{"gnu", "0.0", "0.1", "1.0"} {
			r := trec{name: "sparse", typ: '0', mode: 0o644, format: 'p', sparse: enc, data: data, frags: frags}
			if enc == "gnu" {
				r.typ, r.format = 'S', 'g'
			}
			one("sparse-many", r, after)
		}
	}

	// Padding after the archive, missing end marker, storage that is eager.
	recs := []trec{tarAlphabet[0], tarAlphabet[3], tarAlphabet[2], tarAlphabet[8], tarAlphabet[13], after}
	for n := 1; n <= len(recs); n++ {
		for blocks := 0; blocks <= 4; blocks++ {
			for _, eager := range []bool{false, true} {
				c.each("end-marker", func() string { return fmt.Sprintf("%d zero blocks, eager %v\n%s", blocks, eager, recsString(recs[:n])) }, func(t *t) {
					want, _ := modelTar(recs[:n])
					b := tarBytes(recs[:n]...)
					b = append(b[:len(b)-1024], make([]byte, 512*blocks)...)
					r := ra(b)
					r.eagerly = eager
					fsys, err := tarfs.Open(r)
					if err != nil {
						t.fatal("open-failed", "%v", err)
					}
					got, err := observe(fsys)
					if err != nil {
						t.fatal("observe", "%v", err)
					}
					if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
						t.fatal("diff", "%s", d)
					}
					t.state(want, blocks, eager)
					t.step(len(want))
				})
			}
		}
	}

	// Many entries, deep directories.
	for _, n := range []int{100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 20000, 65536, 65537, 200000} {
		if n > 20000 && !c.thorough {
			continue
		}
		for v := 0; v < 2; v++ {
			c.each("many", func() string { return fmt.Sprintf("%d entries, %d", n, v) }, func(t *t) {
				var recs []trec
				for i := 0; i < n; i++ {
					k := i
					if v == 1 {
						k = n - 1 - i
					}
					r := trec{name: fmt.Sprintf("f%d", k), typ: '0', mode: 0o600 | int64(k%8), mtime: int64(k), format: 'u'}
					if v == 1 {
						r.name = fmt.Sprintf("d%d/f%d", k/7, k)
					}
					if k%3 == 0 {
						r.data = []byte(fmt.Sprint(k))
					}
					recs = append(recs, r)
				}
				want, _ := modelTar(recs)
				t.state("many", n, v)
				defer func(m int) { maxNodes = m }(maxNodes)
				maxNodes = 1 << 20
				checkTar(t, recs, want)
			})
		}
	}
	for _, n := range []int{10, 99, 100, 101, 127, 128, 255, 256, 257, 1000} {
		deep := strings.Repeat("d/", n)
		one("deep", trec{name: deep + "f", typ: '0', mode: 0o600, data: []byte("f"), format: 'g'}, after)
		one("deep", after, trec{name: deep + "f", typ: '0', mode: 0o600, data: []byte("f"), format: 'p'}, trec{name: deep, typ: '5', mode: 0o700, format: 'g'})
	}

	// A damaged header record is refused: the archive is never shown in part.
	damaged := [][]trec{
		{tarAlphabet[0], tarAlphabet[2], after},
		{tarAlphabet[1], tarAlphabet[6], tarAlphabet[4]},
		{tarAlphabet[3], tarAlphabet[10], tarAlphabet[8], after},
		{after, tarAlphabet[13], {name: long(150, 60), typ: '0', mode: 0o644, data: pattern(600, 1), format: 'g'}, tarAlphabet[9]},
		{{name: "t", typ: '0', mode: 0o644, data: []byte("t"), format: 'u'}, {name: "h", typ: '1', link: "t", format: 'u'}, {name: "\xff\xfe", typ: '0', mode: 0o644, format: '7'}},
	}
	for _, recs := range damaged {
		b := tarBytes(recs...)
		for _, off := range tarHeaders(b) {
			for i := 0; i < 512; i++ {
				for x := 1; x < 256; x++ {
					if !c.thorough && x&(x-1) != 0 && x != 0xff && x != 0x10^'0' && i != 156 {
						continue
					}
					c.each("damaged-headers", func() string {
						return fmt.Sprintf("byte %d of the header at %d changed by %#x\n%s", i, off, x, recsString(recs))
					}, func(t *t) {
						nb := append([]byte{}, b...)
						nb[off+i] ^= byte(x)
						if tarChecksumOK(nb[off : off+512]) {
							return
						}
						t.state("damaged", off, i, x, recsString(recs))
						t.step(1)
						if _, err := tarfs.Open(ra(nb)); err == nil {
							t.fatal("damaged-header", "an archive with a damaged header record is opened")
						}
					})
				}
			}
		}
	}

	// What is not supported is refused, not dropped.
	for _, typ := range []byte("346") {
		r := trec{name: "dev", typ: typ, mode: 0o644, format: 'u'}
		c.each("unsupported", func() string { return r.String() }, func(t *t) {
			t.state("unsupported", typ)
			fsys, err := tarfs.Open(ra(tarBytes(r, after)))
			if err != nil {
				return
			}
			// If it is accepted it must be presented faithfully.
			fi, err := fsys.StatLink("dev")
			if err != nil {
				t.fatal("unsupported", "a %c entry is silently dropped: %v", typ, err)
			}
			want := map[byte]byte{'3': 'c', '4': 'b', '6': 'p'}[typ]
			if kindOf(fi.Mode()) != want {
				t.fatal("unsupported", "a %c entry has mode %v", typ, fi.Mode())
			}
		})
	}
}

// tarHeaders returns the offsets of the header records of an archive without
// old GNU sparse extension headers of more than one block.
func tarHeaders(b []byte) []int {
	var offs []int
	for off := 0; off+512 <= len(b); {
		h := b[off : off+512]
		if bytes.Equal(h, make([]byte, 512)) {
			break
		}
		offs = append(offs, off)
		size := int(octalField(h[124:136]))
		off += 512 + (size+511)/512*512
	}
	return offs
}

func octalField(b []byte) int64 {
	for len(b) > 0 && b[0] == ' ' {
		b = b[1:]
	}
	n := int64(0)
	for _, c := range b {
		if c < '0' || c > '7' {
			break
		}
		n = n*8 + int64(c-'0')
	}
	return n
}

// tarChecksumOK reports whether the checksum of a header could be thought
// right, by any reading of the rules.
func tarChecksumOK(h []byte) bool {
	var u, s int64
	for i, c := range h {
		if i >= 148 && i < 156 {
			c = ' '
		}
		u, s = u+int64(c), s+int64(int8(c))
	}
	n := octalField(h[148:156])
	return n == u || n == s
}

// eachSeq calls f with every sequence of n numbers below k.
func eachSeq(k, n int, f func([]int)) {
	idx := make([]int, n)
	for {
		f(append([]int{}, idx...))
		i := n - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < k {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// eachPerm calls f with every permutation of n numbers.
func eachPerm(n int, f func([]int)) {
	perm := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(perm) == n {
			f(append([]int{}, perm...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				perm = append(perm, i)
				rec()
				perm = perm[:len(perm)-1]
				used[i] = false
			}
		}
	}
	rec()
}
