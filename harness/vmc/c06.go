package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&check{
		id:    "C06",
		level: "model_checking",
		rule:  "a state is a distinct image written by the independent encoder; transitions are listings, lookups of present and absent names, and inode and data comparisons",
		bounds: []string{
			"directories of up to 7 (thorough: 9) entries: all partitions into blocks x paddings x plain and inline data x 3 block sizes",
			"all 8 block sizes x 4 inode kinds x boundary sizes; all sizes 0..2100 with 512-byte blocks",
			"link targets of all sizes 1..4095 with 512-byte blocks, and of sizes around block ends with the others, x 4 inode kinds",
			"every field and every operation of the inodes of all these images (of the partitions: of every third; thorough: of all)",
			"trees of 5 nodes: all assignments of compact/extended and plain/inline to inodes x placements",
			"images of up to 2^48 bytes: a gap of 2^8..2^58 slots or 2^8..2^31 blocks, or both, before any of 7 inodes or its data x 3 metadata addresses x 3 block sizes x 4 inode kinds; sizes of files up to 2^40",
			"directory entries of the unknown type, which is a hint only: every set of the entries of a tree x compact or extended x plain or inline x 2 block sizes",
			"every inode of a tree with each unsupported data layout, or with extended attributes, x compact or extended x plain or inline",
			"all 4096 modes x 7 types; owners, link counts, times at boundaries; hard links; large directories",
			"names: every pair and set of 3 of 69 names that some orders and comparisons put elsewhere or take for each other, in one block and in blocks of their own",
		},
		run:    runC06,
		budget: 1 << 30,
	})
	register(&check{
		id:    "C07",
		level: "model_checking",
		rule:  "a state is a distinct tree with links; transitions are lookups (Open, Stat, ReadDir, StatLink, ReadLink of one path) compared with a POSIX path walk of the model",
		bounds: []string{
			"one symbolic link: 3 places x all targets of up to 3 elements over 7 elements, absolute and relative; all paths of up to 3 elements",
			"one link with all targets of 4 elements over 4; two, three and four links: all combinations of pools of targets that lead through each other",
			"chains of up to 300 links, cycles, exponential expansions, deep directories",
			"names: a link and its target with every ordered pair of 69 names that some comparisons take for each other",
			"images written by this library and by the independent encoder with several block sizes and layouts",
		},
		run: runC07,
	})
	register(&check{
		id:    "C08",
		level: "fault_enumeration",
		rule:  "an evaluation is one damaged or undamaged image that is opened; distinct_nontrivial counts distinct damaged superblock blocks",
		bounds: []string{
			"every single bit and every pair of bits of the checksummed block (pairs: all for 512-byte blocks; for 4096-byte blocks all pairs within 64 bytes of each other or with the superblock, thorough: more)",
			"every cut up to the end of the first block; every value of the block size and of the directory block size; every bit and pair of bits of the incompatible features; every wrong bit of the magic",
			"images whose checksum is 0, all ones, or has one or two bits set or one clear: all one and two bit corruptions of the checksum (and of the superblock with it)",
			"undamaged images of every block size, written by this library and by the independent encoder",
		},
		run:    runC08,
		budget: 1 << 40,
	})
}

// wantErofs is what a valid image should show.
func wantErofs(tr tree, o eopts) tree {
	want := tr.clone()
	for p, n := range want {
		if o.compact != nil && o.compact(p) {
			n.mtime = o.build
		}
	}
	for p, a := range o.alias {
		want[p] = want[a]
	}
	return want
}

// checkForeign checks that an inode with another data layout (not 0), or with
// extended attributes, is not misread.
func checkForeign(t *t, tr tree, o eopts, p string, layout, xattrs uint16) {
	want := wantErofs(tr, o)
	b, nids, err := buildErofs(tr, o)
	if err != nil {
		t.fatal("build", "%v", err)
	}
	off := int(le.Uint32(b[1064:]))<<b[1036] + int(nids[p])*32
	was := le.Uint16(b[off:]) >> 1 & 7
	if layout != 0 {
		le.PutUint16(b[off:], le.Uint16(b[off:])&^0xe|layout<<1)
	}
	le.PutUint16(b[off+2:], xattrs)
	t.state(b)
	t.step(1)
	// What was there may be right only if it is where it was.
	mayRead := layout == 0 && was == 0
	fsys, err := erofs.Open(ra(b))
	if err != nil {
		if p != "." {
			t.fatal("open", "opening fails: %v", err)
		}
		return
	}
	for q, n := range want {
		t.step(1)
		below := p == "." && q != p || strings.HasPrefix(q, p+"/")
		if below {
			if !mayRead {
				if _, err := fsys.Open(q); err == nil && n.kind != 'l' {
					t.fatal("misread", "%q opens", q)
				}
				if _, err := fsys.StatLink(q); err == nil {
					t.fatal("misread", "%q is found", q)
				}
			}
			continue
		}
		fi, err := fsys.StatLink(q)
		if err != nil {
			if q != p {
				t.fatal("others", "StatLink(%q): %v", q, err)
			}
		} else if g := infoNode(fi); g.kind != n.kind || g.mode != n.mode || g.uid != n.uid || g.gid != n.gid || n.kind == 'f' && fi.Size() != int64(len(n.data)) {
			t.fatal("metadata", "StatLink(%q) gives %v of %d bytes, want %v", q, g, fi.Size(), n)
		}
		var got, orig string
		switch n.kind {
		case 'f':
			orig = string(n.data)
			var b []byte
			b, err = readFile(fsys, q, 100)
			got = string(b)
		case 'l':
			orig = n.target
			got, err = fsys.ReadLink(q)
		case 'd':
			orig = strings.Join(tr.kids(q), "|")
			var es []fs.DirEntry
			es, err = fsys.ReadDir(q)
			var names []string
			for _, e := range es {
				names = append(names, e.Name())
			}
			got = strings.Join(names, "|")
		}
		switch {
		case q != p:
			if err != nil || got != orig {
				t.fatal("others", "%q reads as %q, %v, want %q", q, got, err, orig)
			}
		case mayRead:
			if err == nil && got != orig {
				t.fatal("misread", "%q reads as %q, want %q", q, got, orig)
			}
		case layout != 0 && err == nil, err == nil && got == orig:
			t.fatal("misread", "%q reads as %q", q, got)
		}
	}
}

// checkErofsImage compares an image with the tree it was made from.
func checkErofsImage(t *t, img []byte, tr tree, nids map[string]uint64, o eopts) {
	checkErofsSource(t, func() io.ReaderAt { return ra(img) }, tr, nids, o)
}

func checkErofsSource(t *t, src func() io.ReaderAt, tr tree, nids map[string]uint64, o eopts) {
	want := wantErofs(tr, o)
	fsys, err := erofs.Open(src())
	if err != nil {
		t.fatal("open", "opening a valid image fails: %v", err)
	}
	got, err := observe(fsys)
	if err != nil {
		t.fatal("observe", "%v", err)
	}
	if d := diff(want, got, cmpOpts{}); d != "" {
		t.fatal("diff", "%s", d)
	}
	im, err := erofs.OpenImage(src())
	if err != nil {
		t.fatal("open", "OpenImage fails: %v", err)
	}
	if o.split == nil || len(o.split("d", 0))%3 == 0 || t.c.thorough {
		checkInodes(t, src, want, nids)
	}
	t.step(len(want))
	for p, n := range want {
		fi, err := fsys.StatLink(p)
		if err != nil {
			t.fatal("lookup", "StatLink(%q): %v", p, err)
		}
		ino, ok := fi.Sys().(*erofs.Inode)
		if !ok {
			t.fatal("sys", "Sys of %q is %T", p, fi.Sys())
		}
		nlink := uint32(1)
		if o.nlink != nil {
			nlink = o.nlink(p)
		}
		if ino.Nlink() != nlink {
			t.fatal("nlink", "%q has %d links, want %d", p, ino.Nlink(), nlink)
		}
		if k := kindOf(fi.Mode()); k != n.kind {
			t.fatal("lookup", "StatLink(%q) has type %c", p, k)
		}
		if n.kind == 'f' && fi.Size() != int64(len(n.data)) {
			t.fatal("size", "StatLink(%q) has size %d, want %d", p, fi.Size(), len(n.data))
		}
		if n.kind != 'd' {
			continue
		}
		names := tr.kids(p)
		has := map[string]bool{}
		for _, k := range names {
			has[k] = true
		}
		for _, a := range absentNames(names) {
			if has[a] {
				continue
			}
			if _, err := fsys.StatLink(path.Join(p, a)); !errors.Is(err, fs.ErrNotExist) {
				t.fatal("absent", "looking up the absent name %q in %q gives %v", a, p, err)
			}
			t.step(1)
		}
		// The lower-level interface.
		di, err := im.Inode(nids[p])
		if err != nil {
			t.fatal("inode", "Inode(%d): %v", nids[p], err)
		}
		all := append([]string{}, names...)
		if !o.noDots {
			all = append(all, ".", "..")
		}
		sort.Strings(all)
		i := 0
		err = di.IterDirents(func(name string, typ uint8, nid uint64) error {
			if i >= len(all) || name != all[i] {
				return fmt.Errorf("entry %d is %q", i, name)
			}
			i++
			wantNid, wantTyp := nids[p], uint8(2)
			if name == ".." {
				wantNid = nids[path.Dir(p)]
			} else if name != "." {
				q := path.Join(p, name)
				wantNid, wantTyp = nids[q], o.fileType(q, want[q])
			}
			if nid != wantNid || typ != wantTyp {
				return fmt.Errorf("entry %q has inode %d type %d, want %d type %d", name, nid, typ, wantNid, wantTyp)
			}
			d, err := di.Lookup(name)
			if err != nil {
				return fmt.Errorf("Lookup(%q): %w", name, err)
			}
			if d.Nid != wantNid || d.FileType != wantTyp {
				return fmt.Errorf("Lookup(%q) gives inode %d type %d, want %d type %d", name, d.Nid, d.FileType, wantNid, wantTyp)
			}
			t.step(1)
			return nil
		})
		if err != nil {
			t.fatal("dirents", "directory %q: %v", p, err)
		}
		if i != len(all) {
			t.fatal("dirents", "directory %q: %d entries, want %q", p, i, all)
		}
	}
}

// checkHugeFile checks a file with data at its start and end only.
func checkHugeFile(t *t, bits uint8, size int64, inl bool) {
	tr := tree{".": directory(), "f": file("x")}
	img, nids, err := encodeErofs(tr, eopts{bits: bits, compact: never, inline: never}, true)
	if err != nil {
		t.fatal("encode", "%v", err)
	}
	bs := int64(1) << bits
	tail := size % bs
	if inl && (tail == 0 || tail > bs-64) {
		return
	}
	t.state("huge", bits, size, inl)
	blocks := roundTo(size, bs) / bs
	end := img.size
	if end/bs+blocks > 1<<32-1 {
		return
	}
	// The file's data goes to the end of the image.
	start := pattern(700, 9)
	for i := range img.segs {
		g := &img.segs[i]
		switch {
		case g.off == 1024:
			le.PutUint32(g.b[36:], uint32(end/bs+blocks))
		case len(g.b) == 64 && g.b[4] == 0xa4 && g.b[5] == 0x81:
			le.PutUint64(g.b[8:], uint64(size))
			le.PutUint32(g.b[16:], uint32(end/bs))
			if inl {
				le.PutUint16(g.b, 1|2<<1)
			}
		}
	}
	img.segs = append(img.segs, seg{end, start})
	img.size = end + blocks*bs
	fsys, err := erofs.Open(img)
	if err != nil {
		t.fatal("open", "%v", err)
	}
	fi, err := fsys.Stat("f")
	if err != nil || fi.Size() != size {
		t.fatal("size", "Stat gives %v, %v", fi, err)
	}
	f, err := fsys.Open("f")
	if err != nil {
		t.fatal("open", "%v", err)
	}
	defer f.Close()
	b := make([]byte, 3000)
	if n, err := io.ReadFull(f, b); n != len(b) || err != nil {
		t.fatal("read", "read %d bytes, %v", n, err)
	}
	if string(b[:700]) != string(start) || strings.Trim(string(b[700:]), "\x00") != "" {
		t.fatal("read", "the start of the file is wrong")
	}
	im, err := erofs.OpenImage(img)
	if err != nil {
		t.fatal("open", "%v", err)
	}
	ino, err := im.Inode(nids["f"])
	if err != nil || ino.Size() != uint64(size) {
		t.fatal("inode", "%v", err)
	}
	t.step(4)
}

// absentNames returns names next to the given ones.
func absentNames(names []string) []string {
	out := []string{"\x01", "\xff\xff", "zzzz", "0", "-", "/"[:0] + "!"}
	if len(names) > 40 {
		// The first, the last and some in between.
		var some []string
		for i := 0; i < len(names); i += len(names)/20 + 1 {
			some = append(some, names[i])
		}
		names = append(some, names[len(names)-1])
	}
	for _, n := range names {
		out = append(out, n+"\x01", n+"a", n+"\xff", n[:len(n)-1]+string([]byte{n[len(n)-1] + 1}), n[:len(n)-1]+string([]byte{n[len(n)-1] - 1}))
		if len(n) > 1 {
			out = append(out, n[:len(n)-1], n[:1])
		}
	}
	// Only proper names.
	k := 0
	for _, n := range out {
		if goodName(n) && !strings.Contains(n, "\x00") && len(n) <= 255 {
			out[k] = n
			k++
		}
	}
	return out[:k]
}

func always(string) bool { return true }
func never(string) bool  { return false }

func (o eopts) String() string {
	s := fmt.Sprintf("bits=%d metaBlk=%d slack=%d padLast=%d garbage=%#x rootLast=%v reverse=%v gap=%d sum=%v noDots=%v alias=%v", o.bits, o.metaBlk, o.slack, o.padLast, o.garbage, o.rootLast, o.reverse, o.gap, o.sum, o.noDots, o.alias)
	return s
}

func runC06(c *ctx) {
	try := func(space string, tr tree, o eopts, note string) {
		c.each(space, func() string { return note + " " + o.String() + "\n" + tr.String() }, func(t *t) {
			img, nids, err := buildErofs(tr, o)
			if err != nil {
				return // this combination does not exist
			}
			t.state(img)
			checkErofsImage(t, img, tr, nids, o)
		})
	}

	kinds := []struct{ comp, inl func(string) bool }{{never, never}, {never, always}, {always, never}, {always, always}}
	// Images with pieces far apart.
	farTree := tree{".": directory(), "a": file("a"), "d": directory(), "d/f": file("one"), "d/s": directory(), "d/s/g": file(""), "l": link("d/s/g"), "z": file("z")}
	farTree["d/s/g"].data = pattern(1500, 1)
	for _, bits := range []uint8{9, 12, 16} {
		for _, where := range []string{".", "a", "d", "d/f", "d/s/g", "l", "z"} {
			for slots := uint(0); slots <= 58; slots++ {
				for _, blks := range []uint{0, 8, 31 - uint(bits), 32 - uint(bits), 33 - uint(bits), 30, 31} {
					for _, mb := range []uint32{0, 1<<(32-bits) + 1, 1 << 31} {
						for k, kind := range kinds {
							if slots != 0 && slots < 8 || (blks != 0 || mb != 0) && slots%9 != 0 && !c.thorough {
								continue
							}
							o := eopts{bits: bits, metaBlk: mb, compact: kind.comp, inline: kind.inl, build: epoch, trail: int64(k),
								farSlots: func(p string) int64 {
									if p == where && p != "." && slots > 0 {
										return 1 << slots
									}
									return 0
								},
								farBlks: func(p string) int64 {
									if p == where && blks > 0 {
										return 1 << blks
									}
									return 0
								}}
							c.each("far", func() string {
								return fmt.Sprintf("2^%d slots and 2^%d blocks before %q, kind %d, %s", slots, blks, where, k, o)
							}, func(t *t) {
								img, nids, err := encodeErofs(farTree, o, true)
								if err != nil {
									return
								}
								t.state("far", bits, where, slots, blks, mb, k)
								checkErofsSource(t, func() io.ReaderAt { return &sparseImg{size: img.size, segs: img.segs} }, farTree, nids, o)
							})
						}
					}
				}
			}
		}
	}

	// Partitions of directories.
	allNames := []string{"!", "-x", ".a", "..", "a", "ab", "abc", "b", strings.Repeat("c", 60), "d", "e~", "\xff"}
	maxN := 7
	if c.thorough {
		maxN = 9
	}
	for n := 0; n <= maxN; n++ {
		// Some of the names sort before the dots.
		for _, from := range []int{0, 2, 3} {
			var names []string
			for _, k := range allNames[from:] {
				if k != ".." && len(names) < n {
					names = append(names, k)
				}
			}
			if len(names) < n {
				continue
			}
			for _, dots := range []bool{true, false} {
				total := n
				if dots {
					total += 2
				}
				if total == 0 {
					continue
				}
				for cut := 0; cut < 1<<(total-1); cut++ {
					var split []int
					k := 1
					for i := 0; i < total-1; i++ {
						if cut>>i&1 == 1 {
							split = append(split, k)
							k = 0
						}
						k++
					}
					split = append(split, k)
					for _, bits := range []uint8{9, 12, 16} {
						if bits == 16 && cut%5 != 0 {
							continue
						}
						for _, pad := range []int{0, 1, 7, -1} {
							for _, g := range []byte{0, 'x'} {
								if pad < 2 && g != 0 && pad != -1 {
									continue
								}
								for _, inl := range []func(string) bool{never, always} {
									tr := tree{".": directory(), "d": directory()}
									for i, name := range names {
										if i%2 == 0 {
											tr["d/"+name] = file(name)
										} else {
											tr["d/"+name] = directory()
										}
									}
									try("partitions", tr, eopts{bits: bits, padLast: pad, garbage: g, inline: inl, noDots: !dots, compact: never, split: func(p string, n int) []int {
										if p == "d" {
											return split
										}
										return nil
									}}, fmt.Sprintf("blocks %v", split))
								}
							}
						}
					}
				}
			}
		}
	}

	// Data of all sizes.
	for bits := uint8(9); bits <= 16; bits++ {
		bs := 1 << bits
		sizes := map[int]bool{}
		if bits == 9 {
			for n := 0; n <= 2100; n++ {
				sizes[n] = true
			}
		} else {
			for k := 0; k <= 3; k++ {
				for _, d := range []int{-65, -64, -63, -33, -32, -31, -1, 0, 1, 2, 31, 32, 33, 64, bs / 2} {
					if k*bs+d >= 0 {
						sizes[k*bs+d] = true
					}
				}
			}
		}
		var order []int
		for n := range sizes {
			order = append(order, n)
		}
		sort.Ints(order)
		for _, n := range order {
			for ki, k := range kinds {
				for _, sum := range []bool{false, true} {
					tr := tree{".": directory(), "a": file("a"), "f": file(""), "z": file(strings.Repeat("z", 100))}
					tr["f"].data = pattern(n, 3)
					try("sizes", tr, eopts{bits: bits, compact: k.comp, inline: k.inl, sum: sum, garbage: byte(n%3) * 0x41, gap: n % 3, build: time.Unix(77, 88)}, fmt.Sprintf("size %d kind %d", n, ki))
				}
			}
		}
	}

	// Link targets of all sizes that there can be.
	for bits := uint8(9); bits <= 16; bits++ {
		for n := 1; n < 4096; n++ {
			if d := n & (1<<bits - 1); bits > 9 && !c.thorough && d > 65 && d < 1<<bits-65 && n < 4000 {
				continue
			}
			for ki, k := range kinds {
				tr := tree{".": directory(), "a": file("a"), "l": link(string(pattern2(n))), "z": file("z")}
				try("targets", tr, eopts{bits: bits, compact: k.comp, inline: k.inl, garbage: byte(n%3) * 0x41, gap: n % 3, build: time.Unix(77, 88)}, fmt.Sprintf("target of %d bytes, kind %d", n, ki))
			}
		}
	}

	// Assignments of inode kinds and data layouts.
	base := tree{".": directory(), "d": directory(), "d/f": file("one"), "g": file(""), "l": link("d/f")}
	base["g"].data = pattern(1500, 1)
	for i, p := range base.paths() {
		base[p].uid, base[p].gid, base[p].mtime = 10+i, 20+i, time.Unix(int64(1000+i), int64(i))
		base[p].mode = fs.FileMode(0o600 + i)
	}
	bit := map[string]int{".": 0, "d": 1, "d/f": 2, "g": 3, "l": 4}
	for comp := 0; comp < 32; comp++ {
		for inl := 0; inl < 32; inl++ {
			for place := 0; place < 8; place++ {
				bits := []uint8{9, 10, 12}[(comp+inl)%3]
				if c.thorough {
					bits = uint8(9 + (comp+3*inl)%8)
				}
				o := eopts{bits: bits, rootLast: place&1 != 0, reverse: place&2 != 0, garbage: 0xee, build: time.Unix(5, 6),
					compact: func(p string) bool { return comp>>bit[p]&1 == 1 }, inline: func(p string) bool { return inl>>bit[p]&1 == 1 },
					nlink: func(p string) uint32 { return uint32(3 + len(p)*1000) }}
				if place&4 != 0 {
					o.gap, o.slack, o.metaBlk = 2, 3, 9
				}
				try("layouts", base, o, fmt.Sprintf("compact %b inline %b", comp, inl))
			}
		}
	}

	// Directory entries that don't tell what they are, which is a hint only.
	names := base.paths()[1:]
	for set := 1; set < 1<<len(names); set++ {
		for v := 0; v < 8; v++ {
			is := func(b bool) func(string) bool { return func(string) bool { return b } }
			o := eopts{bits: []uint8{9, 12}[v>>2], compact: is(v&1 != 0), inline: is(v&2 != 0), build: time.Unix(5, 6), padLast: v & 1,
				untyped: func(p string) bool { i := slices.Index(names, p); return i >= 0 && set>>i&1 != 0 }}
			try("untyped", base, o, fmt.Sprintf("set %b variant %d", set, v))
		}
	}

	// Inodes of kinds that are not supported, one at a time.
	for _, p := range base.paths() {
		for v := 0; v < 4; v++ {
			comp, inl := v&1 != 0, v&2 != 0
			is := func(b bool) func(string) bool { return func(string) bool { return b } }
			for _, bits := range []uint8{9, 12} {
				o := eopts{bits: bits, compact: is(comp), inline: is(inl), build: time.Unix(5, 6), padLast: 0}
				for layout := uint16(1); layout < 8; layout++ {
					c.each("foreign", func() string {
						return fmt.Sprintf("%q has data layout %d, compact %v, inline %v, block size 2^%d", p, layout, comp, inl, bits)
					}, func(t *t) {
						if layout != 2 {
							checkForeign(t, base, o, p, layout, 0)
						}
					})
				}
				for _, x := range []uint16{1, 2, 3, 4, 16, 255, 256, 0x7fff, 0x8000, 0xffff} {
					c.each("foreign", func() string {
						return fmt.Sprintf("%q has %d extended attribute units, compact %v, inline %v, block size 2^%d", p, x, comp, inl, bits)
					}, func(t *t) { checkForeign(t, base, o, p, 0, x) })
				}
			}
		}
	}

	// Large files, mostly holes.
	for _, bits := range []uint8{9, 12, 16} {
		for _, shift := range []uint{31, 32, 33, 40} {
			for d := int64(-1); d <= 1; d++ {
				for _, inl := range []bool{false, true} {
					size := int64(1)<<shift + d
					c.each("huge-files", func() string { return fmt.Sprintf("bits %d size %d inline %v", bits, size, inl) }, func(t *t) {
						checkHugeFile(t, bits, size, inl)
					})
				}
			}
		}
	}

	// Names that some orders and comparisons put elsewhere or take for each
	// other, in one block and in blocks of their own.
	ti := 0
	eachTricky(func(names []string) {
		ti++
		tr := tree{".": directory(), "d": directory()}
		for i, name := range names {
			tr["d/"+name] = []*node{file("x"), directory(), link("x")}[(i+ti)%3]
		}
		o := eopts{bits: []uint8{9, 12}[ti%2], compact: never, padLast: -1, garbage: byte(ti % 3)}
		if ti%4 < 2 {
			o.split = func(p string, n int) []int {
				var each []int
				for i := 0; i < n; i++ {
					each = append(each, 1)
				}
				return each
			}
		}
		try("tricky-names", tr, o, "")
	})
	// Modes and types.
	for m := 0; m < 4096; m++ {
		tr := tree{".": directory()}
		for i, k := range []byte("fdlcbps") {
			tr[string(k)] = &node{kind: k, mode: tarMode(int64(m)), mtime: time.Unix(int64(i), 0), target: map[bool]string{true: "t"}[k == 'l']}
			if k == 'f' {
				tr["f"].data = []byte("x")
			}
		}
		tr["."].mode = tarMode(int64(m))
		o := eopts{bits: 12, compact: never}
		if m%2 == 1 {
			o.compact, o.inline, o.build = always, always, time.Unix(9, 9)
		}
		try("modes", tr, o, "")
	}
	// Numbers.
	for _, id := range []int{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, sec := range []int64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, -1, -1 << 31} {
			for _, ns := range []int64{0, 1, 999999999} {
				for _, comp := range []bool{false, true} {
					tr := tree{".": directory(), "f": file("x"), "d": directory(), "l": link("f")}
					for p, n := range tr {
						n.uid, n.gid = id, id/3
						if len(p)%2 == 0 {
							n.uid, n.gid = id/5, id
						}
						n.mtime = time.Unix(sec, ns)
					}
					o := eopts{bits: 12, compact: never, nlink: func(string) uint32 { return uint32(id) }}
					if comp {
						if id > 65535 {
							continue
						}
						o.compact, o.build = always, time.Unix(sec, ns)
					}
					try("numbers", tr, o, "")
				}
			}
		}
	}

	// Hard links.
	for mask := 0; mask < 64; mask++ {
		tr := tree{".": directory(), "a": file("shared"), "b": directory(), "c": link("a"), "b/x": file("own")}
		alias := map[string]string{}
		for i, p := range []string{"h1", "b/h2", "b/h3", "zl", "b/al", "!h"} {
			if mask>>i&1 == 1 {
				to := "a"
				if strings.HasSuffix(p, "l") {
					to = "c"
				}
				alias[p] = to
				n := *tr[to]
				tr[p] = &n
			}
		}
		for _, k := range kinds {
			try("hardlinks", tr, eopts{bits: 12, alias: alias, compact: k.comp, inline: k.inl, build: epoch}, "")
		}
	}

	// Names that fill a block, with and without padding.
	for _, bits := range []uint8{9, 10, 12} {
		bs := 1 << bits
		for last := 1; last <= 255; last++ {
			for _, rest := range []int{0, 1, 2, 40} {
				// "." and ".." take 27 bytes, fill up so that rest bytes are left.
				free := bs - 27 - 12 - last - rest
				if free < 0 {
					continue
				}
				tr := tree{".": directory(), "d": directory()}
				i := 0
				for free > 0 {
					l := min(255, free-12)
					if l > 0 && free-12-l > 0 && free-12-l < 13 {
						l -= 13
					}
					if l < 3 {
						break
					}
					tr["d/"+numName(i, l)] = file("")
					free -= 12 + l
					i++
				}
				tr["d/"+strings.Repeat("~", last)] = file("last")
				for _, pad := range []int{0, -1} {
					for _, g := range []byte{0, 'g'} {
						try("full-blocks", tr, eopts{bits: bits, compact: never, inline: never, padLast: pad, garbage: g}, fmt.Sprintf("last %d rest %d", last, rest))
						more := tr.clone()
						more["d/~~~~"+strings.Repeat("~", 251)] = directory()
						more["d/\xff"] = file("very last")
						try("full-blocks", more, eopts{bits: bits, compact: never, inline: always, padLast: pad, garbage: g}, fmt.Sprintf("last %d rest %d", last, rest))
					}
				}
			}
		}
	}

	// Large directories.
	for bits := uint8(9); bits <= 16; bits++ {
		for _, n := range []int{1, 10, 30, 31, 32, 33, 100, 341, 342, 1000, 3000} {
			if n > 1000 && !c.thorough && bits%3 != 0 {
				continue
			}
			for _, l := range []int{3, 4, 20} {
				tr := tree{".": directory()}
				for i := 0; i < n; i++ {
					tr[numName(i, l)] = &node{kind: 'f', mode: 0o644, mtime: epoch}
				}
				for _, g := range []byte{0, 0xfe} {
					try("large", tr, eopts{bits: bits, compact: never, inline: always, garbage: g}, "")
				}
			}
		}
	}
	// The largest blocks, filled completely.
	for _, l := range []int{2, 9, 100, 254, 255} {
		tr := tree{".": directory(), "d": directory()}
		n := (65536 - 27) / (12 + l)
		for i := 0; i < n; i++ {
			tr["d/"+numName(i, max(l, 2))] = &node{kind: 'f', mode: 0o644, mtime: epoch}
		}
		left := 65536 - 27 - n*(12+l)
		for _, one := range []bool{true, false} {
			if one && left > 12 {
				tr["d/"+strings.Repeat("~", min(255, left-12))] = file("last")
			}
			try("large-blocks", tr, eopts{bits: 16, compact: never, inline: never}, "")
			try("large-blocks", tr, eopts{bits: 16, compact: always, inline: never, padLast: -1, garbage: 'y'}, "")
		}
	}
}

func runC07(c *ctx) {
	i := 0
	linkSpaces(c, func(space string, tr tree, queries []string) {
		i++
		i := i
		c.each(space, linkDesc(tr), func(t *t) {
			t.state(tr)
			var img []byte
			switch i % 5 {
			case 0, 1, 2:
				src, _ := newSource(tr, sourceOpts{})
				dst := erofsDest(i, 0)
				if err := erofs.Create(dst, src); err != nil {
					t.fatal("create", "%v", err)
				}
				img = dst.buf
			default:
				o := eopts{bits: []uint8{9, 12, 10}[i%3], compact: never, reverse: i%2 == 0, rootLast: i%4 == 0, garbage: byte(i)}
				if i%5 == 3 {
					o.inline = always
				}
				var err error
				if img, _, err = buildErofs(tr, o); err != nil {
					o.bits, o.inline = 16, nil
					if img, _, err = buildErofs(tr, o); err != nil {
						return
					}
				}
			}
			fsys, err := erofs.Open(ra(img))
			if err != nil {
				t.fatal("open-failed", "%v", err)
			}
			lookupAll(t, fsys, tr, queries)
		})
	})

	// Targets of all lengths x how they are stored.
	for n := 1; n <= 4095; n++ {
		if n > 1100 && n < 4000 && n%7 != 0 {
			continue
		}
		name := string(pattern2(n))
		for v := 0; v < 4; v++ {
			tr := tree{".": directory(), "l": link(name), "k": link("l"), "d": directory(), "d/l": link("../l")}
			c.each("lengths", linkDesc(tr), func(t *t) {
				t.state(tr, v)
				img := []byte(nil)
				if v == 0 {
					src, _ := newSource(tr, sourceOpts{})
					dst := erofsDest(n, 0)
					if err := erofs.Create(dst, src); err != nil {
						t.fatal("create", "%v", err)
					}
					img = dst.buf
				} else {
					o := eopts{bits: 12, compact: func(string) bool { return v == 3 }, build: epoch, garbage: 'G'}
					if v > 1 {
						o.inline = always
					}
					var err error
					if img, _, err = buildErofs(tr, o); err != nil {
						panic(err)
					}
				}
				fsys, err := erofs.Open(ra(img))
				if err != nil {
					t.fatal("open-failed", "%v", err)
				}
				for _, q := range []string{"l", "k", "d/l"} {
					checkLookup(t, fsys, tr, q)
				}
			})
		}
	}
}

func runC08(c *ctx) {
	small := tree{".": directory(), "f": file("x"), "d": directory(), "l": link("f")}
	type image struct {
		name string
		b    []byte
		sum  bool
	}
	var imgs []image
	for bits := uint8(9); bits <= 16; bits++ {
		for _, sum := range []bool{true, false} {
			for _, g := range []byte{0, 0xa5} {
				b, _, err := buildErofs(small, eopts{bits: bits, sum: sum, compact: never, build: time.Unix(3, 4)})
				if err != nil {
					panic(err)
				}
				// Anything may follow the superblock in its block, and precede it.
				for i := 0; i < 1024; i++ {
					b[i] = g
				}
				end := int(roundTo(1025, int64(1)<<bits))
				for i := 1152; i < end && bits > 9; i++ {
					b[i] = g ^ byte(i)&g
				}
				copy(b[1024+48:1024+80], strings.Repeat(string([]byte{g}), 32)) // uuid and volume name
				if sum {
					le.PutUint32(b[1024+4:], erofsSum(b))
				}
				imgs = append(imgs, image{fmt.Sprintf("bits %d sum %v fill %#x", bits, sum, g), b, sum})
			}
		}
	}
	src, _ := newSource(small, sourceOpts{})
	dst := &memFile{}
	if err := erofs.Create(dst, src); err != nil {
		c.each("created", func() string { return "creation" }, func(t *t) { t.fatal("create", "%v", err) })
		return
	}
	own := image{"created by the library", append(dst.buf, make([]byte, 4096)...), false}
	imgs = append(imgs, own)
	// The same with the checksum declared (it is recorded, but not declared).
	decl := append([]byte{}, own.b...)
	decl[1024+8] |= 1
	le.PutUint32(decl[1024+4:], erofsSum(decl))
	imgs = append(imgs, image{"created by the library, checksum declared", decl, true})

	opens := func(b []byte) error {
		_, err := erofs.Open(ra(b))
		_, err2 := erofs.OpenImage(ra(b))
		if (err == nil) != (err2 == nil) {
			return fmt.Errorf("Open and OpenImage disagree: %v, %v", err, err2)
		}
		return err
	}
	for _, im := range imgs {
		c.each("undamaged", func() string { return im.name }, func(t *t) {
			t.state(im.b)
			t.step(1)
			if err := opens(im.b); err != nil {
				t.fatal("undamaged", "opening an undamaged image fails: %v", err)
			}
			fsys, _ := erofs.Open(ra(im.b))
			if got, err := observe(fsys); err != nil {
				t.fatal("undamaged", "%v", err)
			} else if d := diff(small, got, cmpOpts{}); d != "" {
				t.fatal("undamaged", "%s", d)
			}
		})
	}
	refuse := func(space string, what string, b []byte, why string) {
		c.each(space, func() string { return what }, func(t *t) {
			t.state(b[min(1024, len(b)):min(len(b), 5120)])
			t.step(1)
			if err := opens(b); err == nil {
				t.fatal(space, "opening succeeds, but %s", why)
			}
		})
	}
	for _, im := range imgs {
		bits := im.b[1024+12]
		// The magic.
		for i := 0; i < 32; i++ {
			b := append([]byte{}, im.b...)
			b[1024+i/8] ^= 1 << (i % 8)
			refuse("magic", fmt.Sprint(im.name, " bit ", i), b, "the magic is wrong")
			if im.sum {
				le.PutUint32(b[1024+4:], erofsSum(b))
				refuse("magic", fmt.Sprint(im.name, " bit ", i, " with matching checksum"), b, "the magic is wrong")
			}
		}
		// Features.
		for i := 0; i < 32; i++ {
			for j := i; j < 32; j++ {
				b := append([]byte{}, im.b...)
				b[1024+80+i/8] |= 1 << (i % 8)
				b[1024+80+j/8] |= 1 << (j % 8)
				if im.sum {
					le.PutUint32(b[1024+4:], erofsSum(b))
				}
				refuse("features", fmt.Sprint(im.name, " bits ", i, " ", j), b, "unsupported features are required")
			}
		}
		// Compatible features may be ignored.
		for i := 1; i < 32; i++ {
			b := append([]byte{}, im.b...)
			b[1024+8+i/8] |= 1 << (i % 8)
			if im.sum {
				le.PutUint32(b[1024+4:], erofsSum(b))
			}
			c.each("compat", func() string { return fmt.Sprint(im.name, " bit ", i) }, func(t *t) {
				t.state(b[1024:1152])
				t.step(1)
				if err := opens(b); err != nil {
					t.fatal("compat", "a compatible feature is refused: %v", err)
				}
			})
		}
		// Block sizes.
		for v := 0; v < 256; v++ {
			if v >= 9 && v <= 16 {
				continue
			}
			b := append([]byte{}, im.b...)
			b[1024+12] = byte(v)
			refuse("block-size", fmt.Sprint(im.name, " bits ", v), b, "the block size is impossible")
			if im.sum {
				// With a checksum that would match for some size.
				for _, k := range []int64{1152, 2048, 4096, 1 << 16} {
					x := append([]byte{}, b...)
					copy(x[1028:1032], []byte{0, 0, 0, 0})
					le.PutUint32(x[1028:], ^crcOf(x[1024:min(int64(len(x)), k)]))
					refuse("block-size", fmt.Sprint(im.name, " bits ", v, " sum over ", k), x, "the block size is impossible")
				}
			}
		}
		// Directory blocks that are larger than others.
		for v := 1; v < 256; v++ {
			b := append([]byte{}, im.b...)
			b[1024+90] = byte(v)
			if im.sum {
				le.PutUint32(b[1024+4:], erofsSum(b))
			}
			refuse("dir-blocks", fmt.Sprint(im.name, " bits ", v), b, "directory blocks of another size are not supported")
		}
		// Cuts.
		for n := 0; n < 1152; n++ {
			refuse("cut", fmt.Sprint(im.name, " cut to ", n), im.b[:n], "the superblock is cut short")
		}
		if !im.sum {
			continue
		}
		end := int(roundTo(1025, int64(1)<<bits))
		for n := 1152; n < end; n++ {
			if n%5 != 0 && n < end-20 && n > 1200 && !c.thorough {
				continue
			}
			refuse("cut-sum", fmt.Sprint(im.name, " cut to ", n), im.b[:n], "the checksummed block is cut short")
		}

		// Corruption of one or two bits. Bits that take the declaration of the
		// checksum away are excepted.
		nbits := (end - 1024) * 8
		undeclared := 8 * 8
		flip := func(i, j int) {
			if i == undeclared || j == undeclared {
				return
			}
			s := c.enterRange("bits")
			if !c.mine(s) {
				return
			}
			c.one(s, func() string {
				return fmt.Sprintf("%s: bits %d and %d after the beginning of the superblock", im.name, i, j)
			}, func(t *t) {
				b := append([]byte{}, im.b[:min(len(im.b), end)]...)
				b[1024+i/8] ^= 1 << (i % 8)
				if i != j {
					b[1024+j/8] ^= 1 << (j % 8)
				}
				t.state(i, j, im.name)
				t.step(1)
				if err := opens(b); err == nil {
					t.fatal("bits", "opening succeeds with corrupted bits")
				}
			})
		}
		lim := nbits
		if bits > 12 && !c.thorough {
			lim = 8 * 512
		}
		for i := 0; i < nbits; i++ {
			if i > lim && i%97 != 0 && i < nbits-64 {
				continue
			}
			flip(i, i)
		}
		// Pairs.
		if bits != 9 && bits != 10 && bits != 12 || !strings.Contains(im.name, "0xa5") && !strings.Contains(im.name, "library") {
			continue
		}
		for i := 0; i < nbits; i++ {
			for j := i + 1; j < nbits; j++ {
				switch {
				case bits == 9 || i < 128*8 && j < 128*8:
				case c.thorough && (i%16 == 0 || j-i < 64) && j%3 == 0:
				case (i%61 == 0 || j-i < 8) && j%13 == 0:
				default:
					continue
				}
				flip(i, j)
			}
		}
	}

	// Checksums that could be taken for something else: the UUID is chosen so
	// that the checksum has a given value.
	for _, bits := range []uint8{9, 12} {
		base, _, err := buildErofs(small, eopts{bits: bits, sum: true, compact: never})
		if err != nil {
			panic(err)
		}
		end := int(roundTo(1025, int64(1)<<bits))
		base = base[:end]
		var targets []uint32
		for i := 0; i < 32; i++ {
			targets = append(targets, 1<<i, ^(uint32(1) << i))
			if bits == 9 || c.thorough {
				for j := 0; j < i; j++ {
					targets = append(targets, 1<<i|1<<j)
				}
			}
		}
		targets = append(targets, 0, 1<<32-1, 0xe0f5e1e2, 0xe2e1f5e0)
		for _, want := range targets {
			img := func() []byte {
				b := append([]byte{}, base...)
				chooseSum(b, want)
				return b
			}
			s := c.enterRange("chosen-sum")
			if !c.mine(s) {
				continue
			}
			what := fmt.Sprintf("bits %d checksum %#x", bits, want)
			c.one(s, func() string { return what }, func(t *t) {
				b := img()
				t.state(b)
				if le.Uint32(b[1028:]) != want || erofsSum(b) != want {
					panic("wrong checksum")
				}
				if err := opens(b); err != nil {
					t.fatal("undamaged", "opening an undamaged image fails: %v", err)
				}
				try := func(i, j int) {
					if i == 64 || j == 64 {
						return
					}
					b[1024+i/8] ^= 1 << (i % 8)
					if i != j {
						b[1024+j/8] ^= 1 << (j % 8)
					}
					t.step(1)
					if _, err := erofs.Open(ra(b)); err == nil {
						t.fatal("bits", "opening succeeds with bits %d and %d after the beginning of the superblock corrupted", i, j)
					}
					b[1024+i/8] ^= 1 << (i % 8)
					if i != j {
						b[1024+j/8] ^= 1 << (j % 8)
					}
				}
				for i := 32; i < 64; i++ {
					for j := i; j < 64; j++ {
						try(i, j)
					}
				}
				if x := want & -want; want == x || ^want&-^want == ^want || want == 0 || want == 1<<32-1 {
					for i := 0; i < 1024; i++ {
						try(i, i)
						for j := 32; j < 64; j++ {
							try(i, j)
						}
					}
				}
			})
		}
	}
}

// chooseSum sets the UUID of an image so that its checksum is sum.
func chooseSum(b []byte, sum uint32) {
	uuid := b[1024+48:]
	base := erofsSum(b)
	var rows [32]struct{ v, m uint32 } // by highest bit of v
	for i := 0; i < 32; i++ {
		uuid[i/8] ^= 1 << (i % 8)
		v, m := erofsSum(b)^base, uint32(1)<<i
		uuid[i/8] ^= 1 << (i % 8)
		for h := 31; h >= 0 && v != 0; h-- {
			if v>>h&1 == 0 {
				continue
			}
			if rows[h].v == 0 {
				rows[h].v, rows[h].m = v, m
				break
			}
			v, m = v^rows[h].v, m^rows[h].m
		}
	}
	d, m := base^sum, uint32(0)
	for h := 31; h >= 0; h-- {
		if d>>h&1 == 1 {
			d, m = d^rows[h].v, m^rows[h].m
		}
	}
	le.PutUint32(uuid, le.Uint32(uuid)^m)
	le.PutUint32(b[1028:], erofsSum(b))
}
