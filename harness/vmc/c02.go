package main

import (
	"fmt"
	"io/fs"

	"github.com/dpeckett/archivefs/internal/vrt"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	register(&check{
		id:    "C02",
		level: "model_checking",
		rule:  "a state is a distinct tree with links; transitions are lookups (Open, Stat, ReadDir, StatLink, ReadLink of one path) compared with a POSIX path walk of the model",
		bounds: []string{
			"one symbolic link: 3 places x all targets of up to 3 elements over 7 elements, absolute and relative; all paths of up to 3 elements",
			"one link with all targets of 4 elements over 4; two, three and four links: all combinations of pools of targets that lead through each other",
			"chains of up to 300 links, cycles, exponential expansions, deep directories",
			"names: a link and its target with every ordered pair of 69 names that some comparisons take for each other",
			"hard links: all graphs over 4 names x all record orders, and x all iteration orders of internal maps",
		},
		run: runC02,
	})
}

// treeRecs turns a tree into tar records.
func treeRecs(tr tree, format byte) []trec {
	var recs []trec
	for _, p := range tr.paths() {
		if p == "." {
			continue
		}
		n := tr[p]
		r := trec{name: p, mode: int64(statMode(n) & 0o7777), uid: n.uid, gid: n.gid, mtime: n.mtime.Unix(), nsec: n.mtime.Nanosecond(), format: format}
		switch n.kind {
		case 'f':
			r.typ, r.data = '0', n.data
		case 'd':
			r.typ, r.name = '5', p+"/"
		case 'l':
			r.typ, r.link = '2', n.target
		}
		recs = append(recs, r)
	}
	return recs
}

func runC02(c *ctx) {
	linkSpaces(c, func(space string, tr tree, queries []string) {
		c.each(space, linkDesc(tr), func(t *t) {
			t.state(tr)
			fsys, err := tarfs.Open(ra(tarBytes(treeRecs(tr, 'g')...)))
			if err != nil {
				t.fatal("open-failed", "%v", err)
			}
			for _, q := range queries {
				checkLookup(t, fsys, tr, q)
			}
		})
	})

	// Hard links.
	base := func() []trec {
		return []trec{
			{name: "a", typ: '0', mode: 0o640, uid: 1, gid: 2, mtime: 3, data: []byte("aa"), format: 'u'},
			{name: "s", typ: '2', mode: 0o777, link: "f", format: 'u'},
			{name: "f", typ: '0', mode: 0o600, data: []byte("root"), format: 'u'},
			{name: "d/f", typ: '0', mode: 0o604, data: []byte("in d"), format: 'u'},
		}
	}
	names := []string{"b", "d/c", "e"}
	targets := []string{"a", "s", "b", "d/c", "e", "./a", "/b", "d/../d/c", "nope"}
	check := func(t *t, recs []trec) {
		want, ok := modelTar(recs)
		fsys, err := tarfs.Open(ra(tarBytes(recs...)))
		t.step(1)
		if !ok {
			t.state("bad", recsString(recs))
			if err == nil {
				t.fatal("hardlink", "opening succeeds although a hard link has no target")
			}
			return
		}
		t.state(want)
		if err != nil {
			t.fatal("hardlink", "opening fails: %v", err)
		}
		got, err := observe(fsys)
		if err != nil {
			t.fatal("hardlink", "%v", err)
		}
		if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
			t.fatal("hardlink", "%s", d)
		}
		for p := range want {
			checkLookup(t, fsys, want, p)
		}
		t.step(4 * len(want))
	}
	each := func(f func(links []trec)) {
		eachSeq(len(targets)+1, len(names), func(idx []int) {
			var links []trec
			for i, k := range idx {
				if k < len(targets) {
					links = append(links, trec{name: names[i], typ: '1', mode: 0o666, uid: 9, gid: 9, mtime: 9, link: targets[k], format: 'u'})
				}
			}
			if len(links) > 0 {
				f(links)
			}
		})
	}
	each(func(links []trec) {
		all := append(base(), links...)
		// Orders of the links among themselves and relative to the others.
		eachPerm(len(links), func(perm []int) {
			for at := 0; at <= 4; at++ {
				var recs []trec
				recs = append(recs, all[:at]...)
				for _, i := range perm {
					recs = append(recs, links[i])
				}
				recs = append(recs, all[at:4]...)
				c.each("hardlinks", func() string { return recsString(recs) }, func(t *t) { check(t, recs) })
			}
		})
	})
	// Hard links to every kind of data.
	for n := 0; n <= 1100; n++ {
		for _, before := range []bool{false, true} {
			f := trec{name: "x/f", typ: '0', mode: 0o4711, uid: 5, gid: 6, mtime: 7, data: pattern(n, 2), format: "upg"[n%3]}
			l := trec{name: "y/h", typ: '1', link: "x/f", mode: 0o600, format: 'u'}
			recs := []trec{f, l, {name: "z", typ: '0', data: []byte("z"), format: 'u'}}
			if before {
				recs[0], recs[1] = l, f
			}
			c.each("hardlink-sizes", func() string { return recsString(recs) }, func(t *t) { check(t, recs) })
		}
	}
	for _, enc := range []string{"gnu", "0.0", "0.1", "1.0"} {
		f := trec{name: "x/f", typ: '0', mode: 0o600, data: append(append(pattern(100, 1), make([]byte, 2000)...), "end"...), frags: []frag{{0, 100}, {2100, 3}}, format: 'p', sparse: enc}
		if enc == "gnu" {
			f.typ, f.format = 'S', 'g'
		}
		l := trec{name: "y/h", typ: '1', link: "x/f", mode: 0o600, format: 'u'}
		z := trec{name: "z", typ: '0', data: []byte("z"), format: 'u'}
		for _, recs := range [][]trec{{f, l, z}, {l, f, z}, {z, l, f}, {z, f, l}} {
			recs := recs
			c.each("hardlink-sparse", func() string { return recsString(recs) }, func(t *t) { check(t, recs) })
		}
	}
	// Names that the target must be looked up by.
	for _, name := range []string{"a", ".a", "..a", "a b", " a", "a\n", "\xff", "ü", "a/b", ".a/.b", "x/y/z"} {
		for _, form := range []string{"%s", "./%s", "/%s", "//%s", "x/../%s"} {
			for _, fm := range []byte("upg") {
				recs := []trec{{name: "h", typ: '1', link: fmt.Sprintf(form, name), format: fm}, {name: name, typ: '0', mode: 0o644, data: []byte("1"), format: fm}}
				c.each("hardlink-names", func() string { return recsString(recs) }, func(t *t) { check(t, recs) })
			}
		}
	}
	for n := 1; n <= 300; n++ {
		name := string(pattern2(n))
		recs := []trec{{name: "H", typ: '1', link: name, format: "pg"[n%2]}, {name: name, typ: '0', mode: 0o644, data: []byte("1"), format: "gp"[n%2]}}
		c.each("hardlink-names", func() string { return recsString(recs) }, func(t *t) { check(t, recs) })
	}
	// Long chains.
	for n := 1; n <= 300; n++ {
		for _, rev := range []bool{false, true} {
			recs := []trec{{name: "n0", typ: '0', mode: 0o644, data: []byte("end"), format: 'u'}}
			for i := 1; i <= n; i++ {
				recs = append(recs, trec{name: fmt.Sprintf("n%d", i), typ: '1', link: fmt.Sprintf("n%d", i-1), format: 'u'})
			}
			if rev {
				for i, j := 0, len(recs)-1; i < j; i, j = i+1, j-1 {
					recs[i], recs[j] = recs[j], recs[i]
				}
			}
			c.each("hardlink-chains", func() string { return fmt.Sprintf("chain of %d hard links, reversed: %v", n, rev) }, func(t *t) { check(t, recs) })
		}
	}

	// Every iteration order of the maps used in opening.
	files := []string{"a", "b", "c", "d/e"}
	tg := []string{"a", "b", "c", "d/e"}
	eachSeq(4, 3, func(idx []int) {
		recs := []trec{{name: "a", typ: '0', mode: 0o640, uid: 1, gid: 2, mtime: 3, data: []byte("aa"), format: 'u'}}
		for i, k := range idx {
			if i == 2 && !c.thorough {
				// Five entries have 120 orders per iteration.
				break
			}
			recs = append(recs, trec{name: files[i+1], typ: '1', link: tg[k], mode: 0o666, format: 'u'})
		}
		if !c.thorough {
			if idx[2] != 0 {
				return
			}
			recs = append(recs, trec{name: "z", typ: '1', link: "b", format: 'u'})
		}
		c.explore("hardlink-maps", 0, func() string { return recsString(recs) }, func() func(t *t) {
			return func(t *t) {
				vrt.MapOrders = true
				fsys, err := tarfs.Open(ra(tarBytes(recs...)))
				vrt.MapOrders = false
				want, ok := modelTar(recs)
				t.step(1)
				if !ok {
					if err == nil {
						t.fatal("hardlink", "opening succeeds although a hard link has no target")
					}
					return
				}
				t.state(want, "maps")
				if err != nil {
					t.fatal("hardlink", "opening fails: %v", err)
				}
				got, err := observe(fsys)
				if err != nil {
					t.fatal("hardlink", "%v", err)
				}
				if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
					t.fatal("hardlink", "%s", d)
				}
				t.step(4 * len(want))
			}
		})
	})
}

// pattern2 is a name of n bytes with all kinds of characters.
func pattern2(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnop.-_ X0"[i%22]
	}
	return b
}

var _ fs.FS = (*tarfs.FS)(nil)
