package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/internal/testutil"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&check{
		id:    "C22",
		level: "model_checking",
		rule:  "a state is a distinct tree and chain of conversions; transitions are conversions, each archive read back and compared with the model of the tree",
		bounds: []string{
			"trees: all trees of up to 3 (thorough: 4) nodes, and flat ones of up to 4, through every chain of up to 3 (thorough: 4) conversions between tar, EROFS and (flat ones) ar, from a source, from the in-memory filesystem, and from archives that other tools wrote",
			"corpus: every archive of the corpus (sparse files, hard links, long names, compact inodes, ...) through the same chains",
			"attributes: file sizes around block boundaries, names of 1..255 bytes of all kinds, link targets of 1..4095 bytes, all permission bits, owners and times, through every chain of up to 2 conversions",
		},
		run:    runC22,
		budget: 200_000_000,
	})
}

// conv is the state of a chain of conversions.
type conv struct {
	t    *t
	fsys fs.FS
	from byte // format of fsys, 0: none of the module's archives
	want tree
	hash string
}

func normalTimes(tr tree) {
	for _, n := range tr {
		if n.mtime.IsZero() {
			n.mtime = epoch
		}
	}
}

// to converts to another format and checks the result.
func (x *conv) to(format byte) *conv {
	d := &dest{format: format}
	if err := d.create(x.fsys); err != nil {
		x.t.fatal("create", "converting from %c to %c fails: %v", x.name(), format, err)
	}
	fsys, err := openArchive(format, ra(d.bytes()))
	if err != nil {
		x.t.fatal("open", "opening what was converted from %c to %c fails: %v", x.name(), format, err)
	}
	got, err := observe(fsys)
	if err != nil {
		x.t.fatal("observe", "after converting from %c to %c: %v", x.name(), format, err)
	}
	x.t.step(len(got))
	want := x.want.clone()
	for _, n := range want {
		switch {
		case n.mtime.IsZero():
		case format == 't':
			n.mtime = n.mtime.Round(time.Second)
		case format == 'a':
			n.mtime = time.Unix(n.mtime.Unix(), 0)
		}
	}
	normalTimes(want)
	normalTimes(got)
	known := x.from == 0 || x.from == 't' || x.from == format
	if diff := diff(want, got, cmpOpts{noRoot: true, noOwner: !known, permOnly: format == 'a'}); diff != "" {
		x.t.fatal("diff", "after converting from %c to %c: %s", x.name(), format, diff)
	}
	for p, n := range want {
		n.uid, n.gid, n.mode = got[p].uid, got[p].gid, got[p].mode
	}
	h, err := testutil.HashFS(fsys)
	if err != nil {
		if !strings.Contains(err.Error(), "newlines") {
			x.t.fatal("hash", "hashing after converting from %c to %c: %v", x.name(), format, err)
		}
	} else if x.hash != "" && h != x.hash {
		x.t.fatal("hash", "converting from %c to %c changes the hash from %s to %s", x.name(), format, x.hash, h)
	}
	return &conv{x.t, fsys, format, want, x.hash}
}

func (x *conv) name() byte {
	if x.from == 0 {
		return 's'
	}
	return x.from
}

// chains runs all chains of up to n conversions.
func (x *conv) chains(formats string, n int) {
	if n == 0 {
		return
	}
	for _, f := range []byte(formats) {
		x.to(f).chains(formats, n-1)
	}
}

// formatsOf returns the formats that can hold a tree.
func formatsOf(tr tree) string {
	for p, n := range tr {
		if p == "." {
			continue
		}
		if n.kind != 'f' || strings.Contains(p, "/") || len(p) > 16 || p != strings.TrimSpace(p) || n.uid > 999999 || n.gid > 999999 {
			return "te"
		}
	}
	return "tea"
}

func startConv(t *t, fsys fs.FS, from byte, want tree) *conv {
	x := &conv{t, fsys, from, want.clone(), ""}
	if h, err := testutil.HashFS(fsys); err == nil {
		x.hash = h
	} else if !strings.Contains(err.Error(), "newlines") {
		t.fatal("hash", "hashing the source: %v", err)
	}
	return x
}

func runC22(c *ctx) {
	depth, n := 3, 3
	if c.thorough {
		depth, n = 4, 4
	}
	run := func(space string, tr tree, n int) {
		c.each(space, func() string { return tr.String() }, func(t *t) {
			t.state(tr)
			formats := formatsOf(tr)
			for _, sys := range []byte{'t', 's', 0} {
				src, _ := newSource(tr, sourceOpts{sys: sys})
				startConv(t, src, 0, recorded(tr, sourceOpts{sys: sys})).chains(formats, n)
			}
			for _, s := range inAll(tr, "te") {
				startConv(t, s.fsys, s.what[0], s.tr).chains(formats, n)
			}
			if formats == "tea" {
				ok := true
				for _, n := range tr {
					ok = ok && n.mtime.Unix() >= 0
				}
				if ok {
					for _, s := range inAll(tr, "a") {
						startConv(t, s.fsys, 'a', s.tr).chains(formats, n)
					}
				}
			}
		})
	}
	for k := 0; k <= depth; k++ {
		eachTree(k, []string{"a", "b", "a-b"}, "fdl", func(tr tree) {
			steps := n
			if k > 3 {
				steps = 3
			}
			run("trees", tr, steps)
		})
	}
	for k := 0; k <= 4; k++ {
		eachTree(k, []string{"a", "b", ".c", "ü"}, "f", func(tr tree) { run("flat", tr, n) })
	}

	// From memory.
	for k := 0; k <= depth; k++ {
		eachTree(k, []string{"a", "b", "a.b"}, "fd", func(tr tree) {
			c.each("memory", func() string { return tr.String() }, func(t *t) {
				zero := tr.clone()
				m := memfs.New()
				for _, p := range tr.paths() {
					n := zero[p]
					n.uid, n.gid, n.mtime = 0, 0, time.Time{}
					var err error
					switch {
					case p == ".":
					case n.kind == 'd':
						err = m.MkdirAll(p, n.mode)
					default:
						err = m.WriteFile(p, n.data, n.mode)
					}
					if err != nil {
						t.fatal("fill", "%v", err)
					}
				}
				t.state("memory", tr)
				startConv(t, m, 0, zero).chains(formatsOf(tr), n)
				// A part of it.
				for _, p := range tr.paths() {
					if tr[p].kind == 'd' && p != "." {
						sub, err := fs.Sub(m, p)
						if err != nil {
							t.fatal("sub", "%v", err)
						}
						part := zero.subtree(p)
						startConv(t, sub, 0, part).chains(formatsOf(part), 2)
					}
				}
			})
		})
	}

	for _, a := range append(corpus(), largeArchives()...) {
		formats := formatsOf(a.tr)
		if a.format == 'a' {
			formats = "te"
			// Everything of ar to ar is C10's.
			ok := true
			for p, n := range a.tr {
				ok = ok && (p == "." || n.mtime.Unix() < 1e11 && n.kind == 'f')
			}
			if ok {
				formats = "tea"
			}
		}
		// One chain per case, they are long.
		for k := 1; k <= n+1; k++ {
			eachSeq(len(formats), k, func(idx []int) {
				var chain []byte
				for _, i := range idx {
					chain = append(chain, formats[i])
				}
				c.each("corpus", func() string { return fmt.Sprintf("%s -> %s", a.name, chain) }, func(t *t) {
					t.state(a.b, chain)
					fsys, err := openArchive(a.how(), ra(a.b))
					if err != nil {
						t.fatal("open", "%v", err)
					}
					x := startConv(t, fsys, a.format, a.tr)
					for _, f := range chain {
						x = x.to(f)
					}
				})
			})
		}
	}

	c22Attributes(c, run)
	c22Subtrees(c)
}

func c22Attributes(c *ctx, run func(space string, tr tree, n int)) {
	with := func(p string, n *node) tree {
		tr := tree{".": directory(), p: n, "zz": file("after")}
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			tr[d] = directory()
		}
		return tr
	}
	for _, size := range []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 500, 511, 512, 513, 1023, 1024, 1025, 4000, 4030, 4031, 4032, 4033, 4034, 4063, 4064, 4065, 4066, 4095, 4096, 4097, 8191, 8192, 8193, 8200, 12288, 20000, 65536, 100001} {
		f := file("")
		f.data = pattern(size, 3)
		run("sizes", with("f", f), 2)
		run("sizes", with("d/f", f), 2)
	}
	for l := 1; l <= 255; l++ {
		if l > 20 && l%5 != 0 && l < 95 || l > 105 && l < 150 && l%7 != 0 || l > 160 && l < 250 && l%9 != 0 {
			continue
		}
		for _, r := range []string{"n", "ü", " ", ".", "-"} {
			name := strings.Repeat(r, l/len(r))
			if !goodName(name) {
				continue
			}
			run("names", with(name, file("x")), 2)
			run("names", with(name+"/"+name, file("x")), 2)
			if len(name) < 250 {
				run("names", with("x"+name, file("x")), 2)
			}
		}
	}
	for b := 1; b < 256; b++ {
		if b == '/' || b == '.' {
			continue
		}
		name := string([]byte{byte(b)})
		if !fs.ValidPath(name) {
			continue
		}
		run("names", with("a"+name+"b", file("x")), 2)
	}
	eachTricky(func(names []string) {
		tr := tree{".": directory()}
		for _, name := range names {
			if !fs.ValidPath(name) || len(names) > 2 {
				return
			}
			tr[name] = file("x" + name)
		}
		run("tricky-names", tr, 2)
	})
	for l := 1; l <= 4095; l++ {
		if l > 10 && l < 95 || l > 105 && l < 250 || l > 260 && l < 4030 || l > 4070 && l < 4090 {
			continue
		}
		run("targets", with("l", link(strings.Repeat("t", l))), 2)
		if l < 105 {
			run("targets", with("d/l", link(strings.Repeat("../ü", l))), 2)
		}
	}
	for m := 0; m < 4096; m += 7 {
		tr := with("f", file("x"))
		tr["f"].mode = tarMode(int64(m))
		run("modes", tr, 2)
		tr = with("d/f", file("x"))
		tr["d"].mode = tarMode(int64(m))
		run("modes", tr, 2)
	}
	ids := []int{0, 1, 65534, 65535, 65536, 99999, 100000, 999999, 1000000, 2097151, 2097152, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for _, u := range ids {
		for _, g := range ids {
			tr := with("d/f", file("x"))
			tr["d"].uid, tr["d"].gid = g, u
			tr["d/f"].uid, tr["d/f"].gid = u, g
			run("owners", tr, 2)
		}
	}
	for _, s := range []int64{-1, 0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<33 - 1, 1 << 33, 8589934591, 8589934592} {
		for _, ns := range []int64{0, 1, 499999999, 500000000, 500000001, 999999999} {
			tr := with("d/f", file("x"))
			tr["d/f"].mtime = time.Unix(s, ns)
			tr["d"].mtime = time.Unix(s+1, ns)
			run("times", tr, 2)
			tr = with("f", file("x"))
			tr["f"].mtime = time.Unix(s, ns)
			run("times", tr, 2)
		}
	}
}

// c22Subtrees converts parts of archives, as the standard library presents
// them.
func c22Subtrees(c *ctx) {
	tr := tree{".": directory(), "a": directory(), "a/b": directory(), "a/b/c": file("abc"), "a/d": file("ad"), "e": file("e")}
	for i, p := range tr.paths() {
		n := tr[p]
		n.uid, n.gid, n.mtime = i, i*2, time.Unix(int64(i*100), 0)
	}
	for _, s := range inAll(tr, "te") {
		for _, dir := range []string{"a", "a/b"} {
			c.each("subtrees", func() string { return s.what + " " + dir }, func(t *t) {
				t.state(s.what, dir)
				sub, err := fs.Sub(s.fsys, dir)
				if err != nil {
					t.fatal("sub", "%v", err)
				}
				part := s.tr.subtree(dir)
				startConv(t, sub, s.what[0], part).chains(formatsOf(part), 3)
			})
		}
	}
}

var _ = bytes.Equal
