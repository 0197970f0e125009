package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/internal/vrt"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&check{
		id:    "C20",
		level: "model_checking",
		rule:  "a state is a distinct input (archive or source tree) and operation, or a resulting archive with its environment; transitions are executions of the real code under one iteration order, chunking, history or surrounding, each compared with the first result",
		bounds: []string{
			"maps: every iteration order of every map of up to 4 entries (for larger ones: up to 2, thorough: 3, deviations from the sorted order; one less above 10 entries) while opening archives, creating them and in every operation, on the corpus, on archives of up to 7 links with attributes of their own, and on trees of up to 4 nodes (thorough: 5)",
			"chunks: creation from sources that deliver data in chunks of 13 sizes, end-of-file with or after the last bytes, with and without ReadDir, for files of 14 sizes; opening and using archives on storage that reports end-of-file early",
			"previous uses: every sequence of 2 (thorough: 3) of 21 other uses of the library in the process (failing ones included), and every pair (thorough: for small archives every triple) of operations on one opened archive",
			"surroundings: time of day, time zones, working directories, number of processors, and every schedule with up to 2 preemptions of the goroutines that creation starts",
		},
		run:    runC20,
		budget: 20_000_000,
	})
}

// bytesOf creates an archive and returns its bytes.
func bytesOf(format byte, src fs.FS) ([]byte, error) {
	d := &dest{format: format}
	err := d.create(src)
	return d.bytes(), err
}

// c20Trees are sources for all the formats.
func c20Trees() map[byte][]tree {
	data := file("")
	data.data = pattern(9000, 1)
	odd := file("")
	odd.data = pattern(4097, 2)
	full := tree{".": directory(), "a": directory(), "a/b": directory(), "a/b/c": file("cc"), "a/d": data, "b": link("a/d"), "c": odd, "e": file(""), ".f": file("dot"), "g": link("/nope"), "h": directory()}
	for i, p := range full.paths() {
		n := full[p]
		n.mtime = time.Unix(1e9+int64(i), int64(i)*1000)
		n.uid, n.gid = i, i+1
		if n.kind == 'f' {
			n.mode |= fs.ModeSetuid
		}
	}
	flat := tree{".": directory()}
	for i := 0; i < 5; i++ {
		f := file(strings.Repeat("x", i))
		f.mtime, f.uid, f.gid = time.Unix(int64(i)*1000, 0), i, 100-i
		flat[numName(i*3%5, 4)] = f
	}
	one := tree{".": directory(), "f": odd}
	wide := tree{".": directory(), "d": directory()}
	for i := 0; i < 40; i++ {
		wide["d/"+numName(i, 120)] = file("x")
	}
	return map[byte][]tree{'t': {full, flat, wide}, 'e': {full, flat, wide}, 'a': {flat, one}}
}

func runC20(c *ctx) {
	c20Maps(c)
	c20Chunks(c)
	c20Uses(c)
	c20Around(c)
}

// diffOps is like diffSweep, for the simple operations only.
func diffOps(paths []string, base map[string]outcome, fsys fs.FS) string {
	for _, p := range paths {
		for i := range readOps {
			var got outcome
			got.s, got.err = readOps[i].f(fsys, p)
			if want := base[readOps[i].name+" "+p]; !want.same(got) {
				return fmt.Sprintf("%s(%q) gives %v, want %v", readOps[i].name, p, got, want)
			}
		}
	}
	return ""
}

// withMaps runs f with every iteration order of maps.
func withMaps(cost bool, f func()) {
	vrt.MapOrders, vrt.MapCost = true, cost
	f()
	vrt.MapOrders, vrt.MapCost = false, false
}

func c20Maps(c *ctx) {
	bound := 2
	if c.thorough {
		bound = 3
	}
	// Opening.
	archives := corpus()
	depth := 3
	if c.thorough {
		depth = 4
	}
	for n := 1; n <= depth; n++ {
		eachTree(n, []string{"a", "b"}, "fdl", func(tr tree) {
			for rev := 0; rev < 2; rev++ {
				recs := toTar(tr)
				if rev == 1 {
					for i, j := 0, len(recs)-1; i < j; i, j = i+1, j-1 {
						recs[i], recs[j] = recs[j], recs[i]
					}
					recs = append(recs, trec{name: "z", typ: '1', link: strings.TrimSuffix(recs[0].name, "/"), format: 'u'})
				}
				a := tarArchive(fmt.Sprint("tree ", rev, " ", tr), recs...)
				a.tr = tr
				archives = append(archives, a)
			}
		})
	}
	// Hard links with attributes of their own.
	hard := []trec{
		{name: "f", typ: '0', mode: 0o640, uid: 1, gid: 2, mtime: 100, data: []byte("f"), format: 'u', uname: "fu", gname: "fg"},
		{name: "g", typ: '1', link: "f", mode: 0o4711, uid: 3, gid: 4, mtime: 200, format: 'u', uname: "gu", gname: "gg"},
		{name: "d/h", typ: '1', link: "g", mode: 0o600, uid: 5, gid: 6, mtime: 50, format: 'p', nsec: 5, uname: "hu", pax: map[string]string{"SCHILY.xattr.user.x": "h"}},
		{name: "i", typ: '1', link: "./f", mode: 0o777, uid: 7, gid: 8, mtime: 300, format: 'g'},
		{name: "l", typ: '2', link: "i", mode: 0o777, mtime: 7, format: 'u'},
		{name: "j", typ: '1', link: "l", mode: 0o755, uid: 9, mtime: 400, format: 'u'},
		{name: "k", typ: '1', link: "j", mode: 0o700, uid: 10, mtime: 500, format: 'u'},
	}
	for mask := 1; mask < 1<<len(hard); mask++ {
		var recs []trec
		for i, r := range hard {
			if mask>>i&1 == 1 {
				recs = append(recs, r)
			}
		}
		tr, ok := modelTar(recs)
		if !ok || len(recs) < 2 || len(recs) > 4 && !c.thorough && mask != 1<<len(hard)-1 {
			continue
		}
		for rev := 0; rev < 2; rev++ {
			rs := append([]trec{}, recs...)
			if rev == 1 {
				for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
					rs[i], rs[j] = rs[j], rs[i]
				}
			}
			a := tarArchive(fmt.Sprint("hard links ", rev, " ", mask), rs...)
			a.tr = tr
			archives = append(archives, a)
		}
	}
	for _, a := range archives {
		paths := c13Paths(a)
		var base map[string]outcome
		fsys, baseErr := openArchive(a.how(), ra(a.b))
		if baseErr == nil {
			base = sweep(fsys, paths)
		}
		n := len(a.tr)
		if r := len(a.recs); r > n {
			n = r
		}
		if a.name[:3] == "tar" && strings.HasPrefix(a.name, "tar tree 1") {
			n++
		}
		small := n <= 4 && (a.format != 'a' || n <= 2)
		bound := bound
		if n > 10 {
			bound--
		}
		few := paths[:min(len(paths), 7)]
		c.explore("maps-open", bound, func() string { return a.name }, func() func(t *t) {
			return func(t *t) {
				var fsys fs.FS
				var err error
				withMaps(!small, func() { fsys, err = openArchive(a.how(), ra(a.b)) })
				t.step(1)
				if (err == nil) != (baseErr == nil) || err != nil && err.Error() != baseErr.Error() {
					t.fatal("maps", "opening gives %v, with another map order %v", baseErr, err)
				}
				if err != nil {
					return
				}
				if d := diffOps(few, base, fsys); d != "" {
					t.fatal("maps", "after opening with another map order %s", d)
				}
				t.state("open", a.b)
			}
		})
		if baseErr != nil {
			continue
		}
		for i := range readOps {
			for _, p := range paths {
				c.explore("maps-ops", bound, func() string { return fmt.Sprintf("%s: %s(%q)", a.name, readOps[i].name, p) }, func() func(t *t) {
					fsys, err := openArchive(a.how(), ra(a.b))
					return func(t *t) {
						var got outcome
						withMaps(!small, func() { got.s, got.err = readOps[i].f(fsys, p) })
						t.step(1)
						if err != nil || !base[readOps[i].name+" "+p].same(got) {
							t.fatal("maps", "%s(%q) gives %v, with another map order %v", readOps[i].name, p, base[readOps[i].name+" "+p], got)
						}
						t.state(a.b, i, p)
					}
				})
			}
		}
	}

	// Creating.
	create := func(format byte, what string, tr tree, src func() fs.FS) {
		want, wantErr := bytesOf(format, src())
		if wantErr != nil && format != 'a' {
			panic(fmt.Sprintf("%c %s: %v", format, what, wantErr))
		}
		c.explore("maps-create", bound, func() string { return fmt.Sprintf("%c from %s: %v", format, what, tr) }, func() func(t *t) {
			s := src()
			return func(t *t) {
				var got []byte
				var err error
				withMaps(len(tr) > 4, func() { got, err = bytesOf(format, s) })
				t.step(1)
				if (err == nil) != (wantErr == nil) || err == nil && !bytes.Equal(got, want) {
					t.fatal("maps", "creating gives %v, with another map order %v: %s", wantErr, err, diffBytes(want, got))
				}
				t.state(want)
			}
		})
	}
	sources := func(tr tree, all bool) {
		for _, format := range []byte("tea") {
			create(format, "a source", tr, func() fs.FS { s, _ := newSource(tr, sourceOpts{sys: 's'}); return s })
			if !all {
				continue
			}
			for i, s := range inAll(tr, "tema") {
				create(format, s.what, tr, func() fs.FS { return inAll(tr, "tema")[i].fsys })
			}
		}
	}
	for n := 1; n <= depth; n++ {
		eachTree(n, []string{"a", "b", "c"}, "fdl", func(tr tree) {
			// Directories are presented in the same order, whatever it is.
			sources(tr, true)
		})
	}
	for _, tr := range c20Trees()['t'] {
		sources(tr, len(tr) < 20)
	}
	for n := 1; n <= 5; n++ {
		tr := tree{".": directory()}
		for i := 0; i < n; i++ {
			tr[numName(i, 3)] = file(fmt.Sprint(i))
		}
		sources(tr, true)
	}
}

func c20Chunks(c *ctx) {
	for _, size := range []int{0, 1, 2, 511, 512, 513, 1000, 4095, 4096, 4097, 8192, 8193, 32768, 70000} {
		f := file("")
		f.data = pattern(size, 7)
		g := file("")
		g.data = pattern(size/3, 8)
		for ti, tr := range []tree{{".": directory(), "f": f}, {".": directory(), "f": f, "g": g}, {".": directory(), "d": directory(), "d/f": g, "d/g": f, "d/h": f, "x": g}} {
			for _, format := range []byte("tea") {
				if ti == 2 && format == 'a' {
					continue
				}
				s, _ := newSource(tr, sourceOpts{})
				want, err := bytesOf(format, s)
				if err != nil {
					panic(err)
				}
				for _, chunk := range []int{0, 1, 2, 3, 7, 100, 511, 512, 513, 4095, 4096, 4097, 40000} {
					if chunk > 0 && size/chunk > 10000 {
						continue
					}
					for v := 0; v < 4; v++ {
						o := sourceOpts{chunk: chunk, eofWith: v&1 != 0, noReadDir: v&2 != 0}
						c.each("chunks", func() string { return fmt.Sprintf("%c of files of %d bytes: %s", format, size, optsString(o)) }, func(t *t) {
							s, _ := newSource(tr, o)
							got, err := bytesOf(format, s)
							t.step(1)
							if err != nil || !bytes.Equal(got, want) {
								t.fatal("chunks", "the archive depends on how data is delivered: %v, %s", err, diffBytes(want, got))
							}
							t.state(want, chunk, v)
						})
					}
				}
			}
		}
	}
	// Storage that reports the end early.
	archives := corpus()
	for i := 0; i < 3; i++ {
		for format, trs := range c20Trees() {
			if i >= len(trs) {
				continue
			}
			s, _ := newSource(trs[i], sourceOpts{})
			b, err := bytesOf(format, s)
			if err != nil {
				panic(err)
			}
			archives = append(archives, archive{name: fmt.Sprintf("%c created %d", format, i), format: format, b: b, tr: trs[i]})
		}
	}
	sort.SliceStable(archives, func(i, j int) bool { return archives[i].name < archives[j].name })
	for _, a := range archives {
		paths := c13Paths(a)
		// Also without anything after the last byte that matters.
		for cut := 0; cut <= 1100; cut++ {
			if cut > len(a.b) || cut > 0 && a.format != 't' && a.format != 'a' {
				break
			}
			b := a.b[:len(a.b)-cut]
			if bytes.Trim(a.b[len(b):], "\x00\n") != nil {
				break
			}
			c.each("eager", func() string { return fmt.Sprintf("%s without the last %d bytes", a.name, cut) }, func(t *t) {
				t.state(b)
				f1, err1 := openArchive(a.how(), &readerAt{b: b})
				f2, err2 := openArchive(a.how(), &readerAt{b: b, eagerly: true})
				t.step(2)
				if (err1 == nil) != (err2 == nil) {
					t.fatal("eager", "opening gives %v, on storage that reports the end with the last bytes %v", err1, err2)
				}
				if err1 != nil {
					return
				}
				if d := diffSweep(paths, sweep(f1, paths), sweep(f2, paths)); d != "" {
					t.fatal("eager", "on storage that reports the end with the last bytes %s", d)
				}
				t.step(len(paths) * len(phasedOps))
			})
		}
	}
}

// use is something done with the library.
type use struct {
	name string
	f    func()
}

// c20Actions are uses of the library that have nothing to do with one another.
func c20Actions() []use {
	var out []use
	add := func(name string, f func()) { out = append(out, use{name, f}) }
	trees := c20Trees()
	noise := file("")
	noise.data = bytes.Repeat([]byte{0xee}, 9999)
	other := map[byte]tree{
		't': {".": directory(), "zz": directory(), "zz/noise": noise, "b": directory(), "c": link("zz")},
		'e': {".": directory(), "zz": directory(), "zz/noise": noise, "b": directory(), "c": link("zz")},
		'a': {".": directory(), "noise": noise},
	}
	for _, format := range []byte("tea") {
		good, _ := newSource(other[format], sourceOpts{})
		b, err := bytesOf(format, good)
		if err != nil {
			panic(err)
		}
		add(fmt.Sprintf("create %c", format), func() {
			s, _ := newSource(other[format], sourceOpts{chunk: 777})
			_, _ = bytesOf(format, s)
		})
		add(fmt.Sprintf("create %c on a failing destination", format), func() {
			s, _ := newSource(trees[format][0], sourceOpts{})
			d := &dest{format: format}
			d.inject(3, faultMode{err: errInjected, lasting: true, part: 1})
			_ = d.create(s)
		})
		add(fmt.Sprintf("create %c from a failing source", format), func() {
			reads := 0
			s, _ := newSource(trees[format][0], sourceOpts{chunk: 333, readFault: func(string, int) (int, error) {
				if reads++; reads == 5 {
					return 0, errInjected
				}
				return 0, nil
			}})
			_, _ = bytesOf(format, s)
		})
		add(fmt.Sprintf("create %c from what it can't hold", format), func() {
			s, _ := newSource(tree{".": directory(), "a": noise, "s": &node{kind: 's'}, "z": noise}, sourceOpts{})
			_, _ = bytesOf(format, s)
		})
		add(fmt.Sprintf("open %c and use it", format), func() {
			if fsys, err := openArchive(format, ra(b)); err == nil {
				sweep(fsys, []string{".", "zz", "zz/noise", "noise", "c", "nope"})
			}
		})
		add(fmt.Sprintf("open %c and leave it half read", format), func() {
			if fsys, err := openArchive(format, ra(b)); err == nil {
				for _, p := range []string{"noise", "zz/noise"} {
					if f, err := fsys.Open(p); err == nil {
						_, _ = f.Read(make([]byte, 10))
					}
				}
				if f, err := fsys.Open("."); err == nil {
					_, _ = f.(fs.ReadDirFile).ReadDir(1)
				}
			}
		})
		add(fmt.Sprintf("open a damaged %c", format), func() {
			d := bytes.Clone(b[:len(b)*2/3])
			if len(d) > 1200 {
				d[1100] ^= 0xff
				d[70] ^= 0x10
			}
			if fsys, err := openArchive(format, ra(d)); err == nil {
				sweep(fsys, []string{".", "zz", "zz/noise", "noise", "c"})
			}
		})
	}
	return out
}

func c20Uses(c *ctx) {
	type target struct {
		format byte
		tr     tree
		want   []byte
	}
	var creates []target
	for _, format := range []byte("tea") {
		for _, tr := range c20Trees()[format] {
			s, _ := newSource(tr, sourceOpts{sys: 's'})
			want, err := bytesOf(format, s)
			if err != nil {
				panic(err)
			}
			creates = append(creates, target{format, tr, want})
		}
	}
	var opens []archive
	var bases []map[string]outcome
	for _, a := range corpus() {
		switch a.name {
		case "tar links", "tar sparse-1.0", "tar pax", "tar gnu", "erofs mixed", "erofs blocks", "erofs own", "ar basic":
			fsys, err := openArchive(a.how(), ra(a.b))
			if err != nil {
				panic(err)
			}
			opens = append(opens, a)
			bases = append(bases, sweep(fsys, c13Paths(a)))
		}
	}
	check := func(t *t, after string) {
		for _, x := range creates {
			s, _ := newSource(x.tr, sourceOpts{sys: 's'})
			got, err := bytesOf(x.format, s)
			t.step(1)
			if err != nil || !bytes.Equal(got, x.want) {
				t.fatal("uses", "creating %c after %s: %v, %s", x.format, after, err, diffBytes(x.want, got))
			}
		}
		for i, a := range opens {
			fsys, err := openArchive(a.how(), ra(a.b))
			if err != nil {
				t.fatal("uses", "opening %s after %s: %v", a.name, after, err)
			}
			paths := c13Paths(a)
			if d := diffSweep(paths, bases[i], sweep(fsys, paths)); d != "" {
				t.fatal("uses", "%s after %s: %s", a.name, after, d)
			}
			t.step(len(paths) * len(phasedOps))
		}
	}
	actions := c20Actions()
	n := 2
	if c.thorough {
		n = 3
	}
	eachSeq(len(actions), n, func(idx []int) {
		c.each("uses", func() string {
			var s []string
			for _, i := range idx {
				s = append(s, actions[i].name)
			}
			return strings.Join(s, "; ")
		}, func(t *t) {
			var names []string
			for _, i := range idx {
				actions[i].f()
				names = append(names, actions[i].name)
			}
			t.state("uses", fmt.Sprint(idx))
			check(t, strings.Join(names, ", "))
		})
	})

	// Several operations on one archive.
	for _, a := range corpus() {
		type pop struct {
			i int
			p string
		}
		var pops []pop
		paths := c13Paths(a)
		if len(paths) > 9 {
			paths = append(paths[:7:7], "nope", "d/f/x")
		}
		fsys, err := openArchive(a.how(), ra(a.b))
		if err != nil {
			panic(err)
		}
		base := sweep(fsys, paths)
		for i := range phasedOps {
			for _, p := range paths {
				pops = append(pops, pop{i, p})
			}
		}
		n := 2
		if c.thorough && len(pops) <= 120 {
			n = 3
		}
		eachSeq(len(pops), n, func(idx []int) {
			c.each("ops", func() string {
				s := a.name
				for _, k := range idx {
					s += fmt.Sprintf("; %s(%q)", phasedOps[pops[k].i].name, pops[k].p)
				}
				return s
			}, func(t *t) {
				fsys, err := openArchive(a.how(), ra(a.b))
				if err != nil {
					t.fatal("open", "%v", err)
				}
				for _, k := range idx {
					o := &phasedOps[pops[k].i]
					t.step(1)
					if want, got := base[o.name+" "+pops[k].p], runPhased(o, fsys, pops[k].p); !want.same(got) {
						t.fatal("ops", "%s(%q) gives %v, want %v", o.name, pops[k].p, got, want)
					}
				}
				t.state(a.b, fmt.Sprint(idx))
			})
		})
	}

	// One source, used repeatedly; and one that lists nothing in order.
	for _, format := range []byte("tea") {
		for ti, tr := range c20Trees()[format] {
			c.each("again", func() string { return fmt.Sprintf("%c: %v", format, tr) }, func(t *t) {
				s, _ := newSource(tr, sourceOpts{sys: 's'})
				want, err := bytesOf(format, s)
				for i := 0; i < 5; i++ {
					got, err2 := bytesOf(format, s)
					if err != nil || err2 != nil || !bytes.Equal(want, got) {
						t.fatal("again", "creating again from one source: %v, %v, %s", err, err2, diffBytes(want, got))
					}
				}
				t.state(want)
				if format == 'a' || ti == 2 {
					return
				}
				for _, sh := range inAll(tr, "te") {
					want, err := bytesOf(format, sh.fsys)
					got, err2 := bytesOf(format, sh.fsys)
					if err != nil || err2 != nil || !bytes.Equal(want, got) {
						t.fatal("again", "creating again from one %s: %v, %v, %s", sh.what, err, err2, diffBytes(want, got))
					}
				}
			})
		}
	}
	// Filesystems in memory, however they were filled.
	eachPerm(4, func(idx []int) {
		c.each("filled", func() string { return fmt.Sprint(idx) }, func(t *t) {
			files := []string{"a", "d/b", "d/c", "e/f"}
			var want []byte
			for v := 0; v < 2; v++ {
				m := memfs.New()
				for i := range idx {
					p := files[i]
					if v == 1 {
						p = files[idx[i]]
					}
					if err := m.MkdirAll(path.Dir(p), 0o755); err != nil {
						t.fatal("mkdir", "%v", err)
					}
					if err := m.WriteFile(p, []byte(p), 0o600); err != nil {
						t.fatal("write", "%v", err)
					}
				}
				var all []byte
				for _, format := range []byte("te") {
					b, err := bytesOf(format, m)
					if err != nil {
						t.fatal("create", "%v", err)
					}
					all = append(all, b...)
				}
				if v == 1 && !bytes.Equal(want, all) {
					t.fatal("filled", "the archive depends on the order in which files were written: %s", diffBytes(want, all))
				}
				want = all
			}
			t.state(fmt.Sprint(idx))
		})
	})
}

// c20Around varies what surrounds the library.
func c20Around(c *ctx) {
	type setting struct {
		name string
		set  func() (undo func())
	}
	var settings []setting
	for _, d := range []time.Duration{time.Nanosecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 400 * 24 * time.Hour, -100 * 365 * 24 * time.Hour} {
		settings = append(settings, setting{"clock " + d.String(), func() func() {
			vrt.ClockShift = d
			return func() { vrt.ClockShift = 0 }
		}})
	}
	for _, h := range []int{-12, -5, 0, 1, 14} {
		settings = append(settings, setting{fmt.Sprintf("zone %d", h), func() func() {
			old := time.Local
			time.Local = time.FixedZone("X", h*3600+1800)
			return func() { time.Local = old }
		}})
	}
	settings = append(settings, setting{"directory", func() func() {
		old, err := os.Getwd()
		if err == nil {
			err = os.Chdir("/")
		}
		return func() {
			if err == nil {
				_ = os.Chdir(old)
			}
		}
	}})
	for _, n := range []int{1, 2, 8} {
		settings = append(settings, setting{fmt.Sprintf("%d processors", n), func() func() {
			old := runtime.GOMAXPROCS(n)
			return func() { runtime.GOMAXPROCS(old) }
		}})
	}
	for _, format := range []byte("tea") {
		for _, tr := range c20Trees()[format] {
			for z := 0; z < 2; z++ {
				src := func() fs.FS {
					zoned := tr.clone()
					for _, n := range zoned {
						if z == 1 {
							n.mtime = n.mtime.In(time.FixedZone("Y", 20000))
						}
					}
					s, _ := newSource(zoned, sourceOpts{sys: 't'})
					return s
				}
				s, _ := newSource(tr, sourceOpts{sys: 't'})
				want, err := bytesOf(format, s)
				if err != nil {
					panic(err)
				}
				for _, st := range settings {
					c.each("settings", func() string { return fmt.Sprintf("%c, %s: %v", format, st.name, tr) }, func(t *t) {
						undo := st.set()
						defer undo()
						got, err := bytesOf(format, src())
						t.step(1)
						if err != nil || !bytes.Equal(got, want) {
							t.fatal("settings", "with %s creation gives %v, %s", st.name, err, diffBytes(want, got))
						}
						t.state(want, st.name, z)
					})
				}
			}
			if len(tr) > 20 || vrt.Channels {
				continue
			}
			s, _ := newSource(tr, sourceOpts{})
			want, err := bytesOf(format, s)
			if err != nil {
				panic(err)
			}
			c.explore("schedules", 2, func() string { return fmt.Sprintf("%c: %v", format, tr) }, func() func(t *t) {
				return func(t *t) {
					var got []byte
					var err error
					res := vrt.RunThreads(func() {
						s, _ := newSource(tr, sourceOpts{})
						got, err = bytesOf(format, s)
					})
					t.step(1)
					if res.Deadlock != "" || len(res.Panics) > 0 || err != nil || !bytes.Equal(got, want) {
						t.fatal("schedules", "%v %v %v %s", res.Deadlock, res.Panics, err, diffBytes(want, got))
					}
					t.state(want, "schedules")
				}
			})
		}
	}
	for _, a := range corpus() {
		fsys, err := openArchive(a.how(), ra(a.b))
		if err != nil {
			panic(err)
		}
		paths := c13Paths(a)
		base := sweep(fsys, paths)
		for _, st := range settings {
			c.each("settings", func() string { return fmt.Sprintf("%s, %s", st.name, a.name) }, func(t *t) {
				undo := st.set()
				defer undo()
				fsys, err := openArchive(a.how(), ra(a.b))
				if err != nil {
					t.fatal("settings", "with %s opening gives %v", st.name, err)
				}
				if d := diffSweep(paths, base, sweep(fsys, paths)); d != "" {
					t.fatal("settings", "with %s %s", st.name, d)
				}
				t.step(len(paths) * len(phasedOps))
				t.state(a.b, st.name)
			})
		}
	}
}
