package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/internal/vrt"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	register(&check{
		id:    "C14",
		level: "fault_enumeration",
		rule:  "an evaluation is one source tree and format with every fault injected into the creation in turn; distinct_nontrivial counts distinct (tree, format, fault) executed",
		bounds: []string{
			"all trees of up to 3 nodes over 2 names (thorough: 4 nodes over 3), and trees with files of many blocks, long names and large directories; sources with and without ReadDir, delivering data in chunks, with end-of-file after or with the last bytes",
			"a fault at every write: transient or lasting, with none, half or all of the data written",
			"a fault at every listing, stat, info, open, read (with none, half or all of the data), link lookup and close of the source; 5 kinds of error, also several faults of one kind",
			"every file with 10 differences between the size reported and the data delivered",
		},
		run:    runC14,
		budget: 1 << 30,
	})
}

// dest is a destination of any kind.
type dest struct {
	format byte
	w      writer
	m      memFile
}

func (d *dest) create(src fs.FS) error {
	switch d.format {
	case 't':
		return tarfs.Create(&d.w, src)
	case 'e':
		return erofs.Create(&d.m, src)
	}
	return arfs.Create(&d.w, src)
}

func (d *dest) bytes() []byte {
	if d.format == 'e' {
		return d.m.buf
	}
	return d.w.buf
}

func (d *dest) ops() int { return d.w.ops + d.m.ops }

// inject makes the k-th write fail.
func (d *dest) inject(k int, m faultMode) {
	f := func(n int) (int, error) {
		if i := d.ops() - 1; i == k || m.lasting && i > k {
			return n * m.part / 2, m.err
		}
		return n, nil
	}
	d.w.fault = f
	d.m.fault = func(_ int64, n int) (int, error) { return f(n) }
}

// c14Trees calls f with the sources.
func c14Trees(c *ctx, format byte, f func(tr tree, o sourceOpts)) {
	names, kinds, n := []string{"a", "a-b"}, "fdl", 3
	if c.thorough {
		names, n = []string{"-", "a", "a-b"}, 4
	}
	if format == 'a' {
		kinds = "f"
	}
	i := 0
	for k := 0; k <= n; k++ {
		eachTree(k, names, kinds, func(tr tree) {
			i++
			f(tr, sourceOpts{sys: "t\x00s"[i%3], chunk: []int{0, 300, 1}[i%3] * (i % 2), eofWith: i%4 > 1, noReadDir: i%5 == 0, zeroTime: i%7 == 0})
		})
	}
	big := tree{".": directory(), "big": file(""), "e": file(""), "z": file("z")}
	big["big"].data = pattern(9000, 3)
	if format != 'a' {
		big["d"] = directory()
		for i := 0; i < 12; i++ {
			big["d/"+numName(i, 60)] = file("x")
		}
		big["d/l"] = link("../big")
		big["d/e"] = directory()
		big["d/e/f"] = file("deep")
		// Links with long targets are not inlined.
		big["m"] = link(string(pattern2(300)))
	}
	for _, o := range []sourceOpts{{}, {chunk: 1000, eofWith: true}, {noReadDir: true, chunk: 4096}} {
		f(big, o)
	}
	for _, size := range []int{511, 512, 513, 4095, 4096, 4097, 8192, 40000} {
		tr := tree{".": directory(), "f": file(""), "g": file("after")}
		tr["f"].data = pattern(size, 1)
		f(tr, sourceOpts{})
		f(tr, sourceOpts{eofWith: true})
	}
	for _, size := range []int{32769, 65536, 70001, 140000} {
		tr := tree{".": directory(), "f": file(""), "g": file("after")}
		tr["f"].data = pattern(size, 1)
		f(tr, sourceOpts{chunk: []int{0, 50000}[size%2]})
	}
	// Many files.
	for _, n := range []int{33, 70, 129} {
		tr := tree{".": directory()}
		for i := 0; i < n; i++ {
			name := numName(i, 12)
			if format != 'a' && i%3 == 0 {
				tr["d"] = directory()
				name = "d/" + name
			}
			tr[name] = file(string(pattern2(i * 7 % 40)))
		}
		f(tr, sourceOpts{})
	}
	f(tree{".": directory()}, sourceOpts{})
}

func runC14(c *ctx) {
	for _, format := range []byte("tea") {
		c14Trees(c, format, func(tr tree, o sourceOpts) {
			desc := func() string { return fmt.Sprintf("%c: %s\n%s", format, optsString(o), tr) }
			// Without faults.
			clean := func(t *t) ([]byte, int, *source) {
				d := &dest{format: format}
				fsys, src := newSource(tr, o)
				if err := d.create(fsys); err != nil {
					t.fatal("create", "creation fails: %v", err)
				}
				if src.open != 0 {
					t.fatal("leak", "%d files of the source are left open", src.open)
				}
				return d.bytes(), d.ops(), src
			}

			for _, m := range faultModes {
				desc := func() string { return desc() + "\n" + m.String() }
				c.each("writes", desc, func(t *t) {
					_, writes, _ := clean(t)
					for k := 0; k < writes; k++ {
						vrt.SetBudget(t.c.chk.budget)
						t.trans++
						t.state(desc(), "write", k, m)
						d := &dest{format: format}
						d.inject(k, m)
						fsys, src := newSource(tr, o)
						err := d.create(fsys)
						where := fmt.Sprintf("with a fault at write %d of %d (%v)", k, writes, m)
						switch {
						case err == nil:
							t.fail("write-swallowed", "%s, creation succeeds", where)
						case !errors.Is(err, errInjected):
							t.fail("write-error", "%s, creation fails with %v, which doesn't carry the error", where, err)
						}
						if src.open != 0 {
							t.fail("leak", "%s, %d files of the source are left open", where, src.open)
						}
					}
				})
				c.each("source", desc, func(t *t) {
					want, _, s0 := clean(t)
					for k := 0; k < s0.ops; k++ {
						sourceFault(t, format, tr, o, k, m, want, "")
					}
				})
			}

			c.each("groups", desc, func(t *t) {
				want, _, _ := clean(t)
				// All operations of a kind, all operations on a path.
				for _, op := range []string{"open", "stat", "info", "readdir", "read", "readlink", "lstat", "close"} {
					for _, p := range append(tr.paths(), "") {
						sourceFault(t, format, tr, o, -1, faultMode{lasting: true, err: injected[0]}, want, op+" "+p)
					}
				}
				if again, _, _ := clean(t); !bytes.Equal(again, want) {
					t.fail("poisoned", "after failures, the same source gives another archive")
				}
			})

			c.each("sizes", desc, func(t *t) {
				for _, p := range tr.paths() {
					n := tr[p]
					if n.kind != 'f' {
						continue
					}
					for _, delta := range []int{1, 2, 511, 512, 4096, 100000, -1, -2, -512, -4096, -len(n.data)} {
						if delta == 0 || len(n.data)+delta < 0 {
							continue
						}
						vrt.SetBudget(t.c.chk.budget)
						t.trans++
						t.state(desc(), p, delta)
						v := o
						v.sizeDelta = map[string]int{p: delta}
						d := &dest{format: format}
						fsys, src := newSource(tr, v)
						if err := d.create(fsys); err == nil {
							t.fail("size", "%q reports %d bytes and delivers %d, but creation succeeds", p, len(n.data), len(n.data)+delta)
						}
						if src.open != 0 {
							t.fail("leak", "%q reports %d bytes and delivers %d: %d files of the source are left open", p, len(n.data), len(n.data)+delta, src.open)
						}
					}
				}
			})
		})
	}
}

// sourceFault creates an archive with a fault in the k-th operation of the
// source, or in all that match "op path".
func sourceFault(t *t, format byte, tr tree, o sourceOpts, k int, m faultMode, want []byte, match string) {
	vrt.SetBudget(t.c.chk.budget)
	d := &dest{format: format}
	var src *source
	hits, lenient := 0, false
	what := ""
	pending := false
	o.fault = func(op, p string) error {
		pending = false
		i := src.ops - 1
		if match == "" && i != k && !(m.lasting && i > k) || match != "" && match != op+" "+p && match != op+" " {
			return nil
		}
		if op == "read" && m.part > 0 {
			pending = true // by readFault
			return nil
		}
		if op == "close" {
			lenient = true
		} else {
			hits++
		}
		what = op + " " + p
		return m.err
	}
	o.readFault = func(p string, n int) (int, error) {
		if !pending {
			return 0, nil
		}
		hits++
		what = "read " + p
		return n * m.part / 2, m.err
	}
	fsys, src0 := newSource(tr, o)
	src = src0
	err := d.create(fsys)
	if hits == 0 && !lenient {
		if err != nil && match == "" {
			t.fail("create", "creation fails: %v", err)
		}
		return
	}
	t.trans++
	t.state(t.c.space, format, tr, k, match, m)
	where := fmt.Sprintf("with a fault in %q (operation %d, %v)", what, k, m)
	switch {
	case err == nil && hits > 0 && !(m.part > 0 && bytes.Equal(d.bytes(), want)):
		t.fail("swallowed", "%s, creation succeeds", where)
	case err == nil && !bytes.Equal(d.bytes(), want):
		t.fail("damaged", "%s, creation succeeds with another archive", where)
	case err != nil && !errors.Is(err, errInjected):
		t.fail("error", "%s, creation fails with %v, which doesn't carry the error", where, err)
	}
	if src.open != 0 {
		t.fail("leak", "%s, %d files of the source are left open", where, src.open)
	}
}
