package main

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"
)

// eachTree calls f with every tree of exactly n nodes below the root: all
// shapes, types and combinations of names that sort in different ways.
func eachTree(n int, names []string, kinds string, f func(tr tree)) {
	type slot struct {
		p    string
		kind byte
	}
	var nodes []slot
	var rec func()
	rec = func() {
		if len(nodes) == n {
			tr := tree{".": directory()}
			for i, s := range nodes {
				var nd *node
				switch s.kind {
				case 'f':
					nd = &node{kind: 'f', data: pattern([]int{5, 0, 700, 1025, 4097}[i%5], byte(i))}
				case 'd':
					nd = &node{kind: 'd'}
				case 'c', 'b', 'p', 's':
					nd = &node{kind: s.kind}
				default:
					nd = &node{kind: 'l', target: []string{"a", "../b", "/x/y", "nope", "."}[i%5]}
				}
				nd.mode = []fs.FileMode{0o644, 0o700 | fs.ModeSetgid, 0o4, 0o751 | fs.ModeSticky, 0o400 | fs.ModeSetuid}[i%5]
				nd.uid, nd.gid = i*7, 1000+i
				nd.mtime = time.Unix(int64(1000000*i), int64(i)*1000)
				tr[s.p] = nd
			}
			f(tr)
			return
		}
		parents := []string{"."}
		for _, s := range nodes {
			if s.kind == 'd' {
				parents = append(parents, s.p)
			}
		}
		for _, d := range parents {
			for _, name := range names {
				p := path.Join(d, name)
				// Nodes are added in increasing order of (depth, path).
				if len(nodes) > 0 && !later(nodes[len(nodes)-1].p, p) {
					continue
				}
				for _, k := range []byte(kinds) {
					nodes = append(nodes, slot{p, k})
					rec()
					nodes = nodes[:len(nodes)-1]
				}
			}
		}
	}
	rec()
}

func later(a, b string) bool {
	da, db := strings.Count(a, "/"), strings.Count(b, "/")
	return da < db || da == db && a < b
}

// Limits of the formats.
var (
	maxNameOf = map[byte]int{'t': 150, 'e': 150, 'a': 16}
	idsOf     = map[byte]int{'t': 1 << 22, 'e': 1 << 22, 'a': 999999}
)

// sourceSpaces enumerates source filesystems for the creation of archives.
// format is 't'ar, 'e'rofs or 'a'r.
func sourceSpaces(c *ctx, format byte, try func(space string, tr tree, o sourceOpts)) {
	flat := format == 'a'
	sysKinds := []byte{'t', 's', 0}

	// All small trees.
	names := []string{"-", "a", "a-b", "a.b"}
	depth := 5
	if c.thorough {
		depth = 6
	}
	if flat {
		names = []string{"-", "a", "a-b", "a.b", ".h"}
		for n := 0; n <= 5; n++ {
			eachTree(n, names, "f", func(tr tree) {
				for _, s := range sysKinds {
					try("trees", tr, sourceOpts{sys: s})
				}
			})
		}
	} else {
		i := 0
		for n := 0; n <= depth; n++ {
			eachTree(n, names, "fdl", func(tr tree) {
				i++
				try("trees", tr, sourceOpts{sys: sysKinds[i%3], zeroTime: i%5 == 0, chunk: i % 4, eofWith: i%7 < 3, noReadDir: i%11 == 0})
			})
		}
	}

	// Names that some orders and comparisons put elsewhere or take for each other.
	ti := 0
	eachTricky(func(names []string) {
		ti++
		tr := tree{".": directory()}
		for i, name := range names {
			tr[name] = file("x" + name)
			if i == 1 && !flat && len(names) == 2 {
				tr[name] = directory()
				for _, sub := range names {
					tr[name+"/"+sub] = link(sub)
				}
			}
		}
		try("tricky-names", tr, sourceOpts{sys: sysKinds[ti%3], zeroTime: ti%2 == 0, noReadDir: ti%11 == 0})
	})

	// Sizes.
	maxSize := map[byte]int{'t': 2600, 'e': 13000, 'a': 1100}[format]
	if c.thorough {
		maxSize *= 3
	}
	for n := 0; n <= maxSize; n++ {
		tr := tree{".": directory(), "a": file("before"), "f": file(""), "z": file("after")}
		tr["f"].data = pattern(n, 9)
		try("sizes", tr, sourceOpts{})
	}
	for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 20, 1<<20 + 1, 3<<20 + 511} {
		tr := tree{".": directory(), "a": file("before"), "f": file(""), "z": file("after")}
		tr["f"].data = pattern(n, 9)
		try("sizes-large", tr, sourceOpts{chunk: 5000})
	}

	// Sequences of sizes.
	crit := map[byte][]int{
		't': {0, 1, 511, 512, 513},
		'e': {0, 1, 31, 32, 33, 960, 1024, 1025, 4096, 4097},
		'a': {0, 1, 2, 59, 60},
	}[format]
	seqLen := 5
	if c.thorough {
		seqLen = 6
	}
	eachSeq(len(crit), seqLen, func(idx []int) {
		tr := tree{".": directory()}
		for i, k := range idx {
			n := file("")
			n.data = pattern(crit[k], byte(i))
			tr[fmt.Sprintf("f%d", i)] = n
		}
		try("size-sequences", tr, sourceOpts{zeroTime: idx[0]%2 == 1})
	})

	// What is particular about one file does not concern the next ones.
	profiles := []func(p string, n *node) string{
		func(p string, n *node) string { return p },
		func(p string, n *node) string { n.data = nil; return p },
		func(p string, n *node) string { return (p + strings.Repeat("-long", 30))[:maxNameOf[format]-1] },
		func(p string, n *node) string { return p + "é" },
		func(p string, n *node) string { n.uid = idsOf[format]; return p },
		func(p string, n *node) string { n.gid = idsOf[format]; return p },
		func(p string, n *node) string { n.mtime = time.Unix(1, 999999999); return p },
		func(p string, n *node) string { n.mtime = time.Unix(-1, 0); return p },
		func(p string, n *node) string { n.mtime = time.Unix(1<<33, 0); return p },
		func(p string, n *node) string { n.mtime = time.Time{}; return p },
		func(p string, n *node) string { n.mode = 0o751 | fs.ModeSetuid | fs.ModeSetgid; return p },
		func(p string, n *node) string { n.mode = 0; return p },
		func(p string, n *node) string { n.data = pattern(5001, 1); return p },
	}
	if !flat {
		profiles = append(profiles,
			func(p string, n *node) string { *n = *directory(); return p },
			func(p string, n *node) string {
				*n = *directory()
				n.mode, n.uid, n.mtime = 0o1700, 1<<22, time.Unix(5, 5)
				return (p + strings.Repeat("-long", 30))[:120]
			},
			func(p string, n *node) string { *n = *link("f"); return p },
			func(p string, n *node) string { *n = *link(strings.Repeat("t", 120)); return p },
			func(p string, n *node) string { *n = *link("é"); n.mtime = time.Unix(7, 7); return p + "-" },
		)
	}
	profLen := 3
	if c.thorough || format != 'e' {
		profLen = 4
	}
	for k := 2; k <= profLen; k++ {
		eachSeq(len(profiles), k, func(idx []int) {
			tr := tree{".": directory()}
			for i, x := range idx {
				n := file("data")
				n.uid, n.gid, n.mtime = 10+i, 20+i, time.Unix(int64(100+i), 0)
				name := profiles[x](string(rune('a'+i)), n)
				tr[name] = n
				if n.kind == 'd' && i == 0 {
					tr[name+"/in"] = file("inside")
				}
			}
			try("profiles", tr, sourceOpts{sys: sysKinds[(idx[0]+idx[1])%2]})
		})
	}

	// Modes.
	for m := 0; m < 4096; m++ {
		mode := tarMode(int64(m))
		tr := tree{".": directory(), "f": file("x")}
		tr["f"].mode = mode
		if !flat {
			tr["."].mode = mode
			tr["d"] = directory()
			tr["d"].mode = mode
			tr["d/e"] = directory()
			tr["d/e"].mode = ^mode & permBits
			tr["l"] = link("f")
			tr["l"].mode = mode
		}
		try("modes", tr, sourceOpts{})
	}

	// Owners.
	ids := []int{0, 1, 255, 65534, 65535, 65536, 99999, 999999}
	if format != 'a' {
		ids = append(ids, 1<<21-1, 1<<21, 1<<31-1, 1<<31, 1<<32-1)
	}
	for _, u := range ids {
		for _, g := range ids {
			for _, s := range sysKinds {
				for _, zt := range []bool{false, true} {
					tr := tree{".": directory(), "f": file("x")}
					tr["f"].uid, tr["f"].gid = u, g
					if !flat {
						tr["."].uid, tr["."].gid = g, u
						tr["d"] = directory()
						tr["d"].uid, tr["d"].gid = g, u
						tr["l"] = link("f")
						tr["l"].uid, tr["l"].gid = u, g
					}
					try("owners", tr, sourceOpts{sys: s, zeroTime: zt})
				}
			}
		}
	}

	// Times.
	secs := []int64{0, 1, 1700000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<33 - 1, 1 << 33, 253402300799}
	if format != 'a' {
		secs = append(secs, -1, -1<<31)
	} else {
		secs = append(secs, -1)
	}
	for _, s := range secs {
		for _, ns := range []int64{0, 1, 499999999, 500000000, 999999999} {
			if s == secs[9] && ns >= 500000000 && format == 't' {
				continue // the year 10000
			}
			tr := tree{".": directory(), "f": file("x"), "g": file("y")}
			tr["f"].mtime = time.Unix(s, ns)
			if !flat {
				tr["."].mtime = time.Unix(s, ns)
				tr["d"] = directory()
				tr["d"].mtime = time.Unix(s, ns)
				tr["l"] = link("f")
				tr["l"].mtime = time.Unix(s, ns)
			}
			try("times", tr, sourceOpts{})
			// Some without a time.
			tr = tr.clone()
			tr["g"].mtime = time.Time{}
			if !flat {
				tr["d"].mtime = time.Time{}
			}
			try("times", tr, sourceOpts{})
		}
	}

	// Names.
	maxName := map[byte]int{'t': 255, 'e': 255, 'a': 16}[format]
	put := func(tr tree, p string, n *node) {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			tr[d] = directory()
		}
		tr[p] = n
	}
	for b := 1; b < 256; b++ {
		if b == '/' {
			continue
		}
		for _, pat := range []string{"%", "%x", "x%", "x%y", "%%", "d/%", "%/f", "x%/f"} {
			name := strings.ReplaceAll(pat, "%", string([]byte{byte(b)}))
			if strings.Contains("/"+name+"/", "/./") {
				continue
			}
			if base := path.Base(name); base == "." || base == ".." || strings.HasPrefix(name, "./") || (flat && strings.Contains(name, "/")) {
				continue
			}
			if flat && strings.TrimSpace(name) != name {
				continue
			}
			tr := tree{".": directory(), "b": file("b")}
			put(tr, name, file("n"))
			if !flat {
				put(tr, "links/l", link(name))
				tr["D"+path.Base(name)] = directory()
			}
			try("name-bytes", tr, sourceOpts{})
		}
	}
	for n := 1; n <= maxName; n++ {
		name := strings.Repeat("n", n)
		tr := tree{".": directory(), name: file("n"), "b": file("b")}
		if !flat {
			put(tr, "d/"+name+"/"+name, file("m"))
			tr["l"] = link(name)
			tr["z"] = directory()
		}
		try("name-lengths", tr, sourceOpts{})
		if !flat && n > 2 {
			tr := tree{".": directory()}
			put(tr, "d/"+strings.Repeat("ü", n/2), directory())
			put(tr, "d/\xff"+strings.Repeat("\x80", n-1), file("bad utf-8"))
			try("name-lengths", tr, sourceOpts{})
		}
	}
	// Pairs that sort around "." and "..", and around each other.
	pool := []string{"!", "-", "-x", ".a", "..a", "...", "..", ".", "\x01", ".-", "..-", "a", "a ", "A", "a.", "a-", "a0", "ab", "b", "\xff", "\x7f", "é"}
	if flat {
		pool = []string{"!", "-", "-x", ".a", "..a", "...", "\x01", ".-", "a", "A", "a.", "a-", "a0", "ab", "b", "\xff", "\x7f", "é", "日本日本日", "a b"}
	}
	for i, x := range pool {
		for j, y := range pool {
			if i >= j || x == "." || x == ".." || y == "." || y == ".." {
				continue
			}
			tr := tree{".": directory(), x: file("x"), y: file("y")}
			try("name-pairs", tr, sourceOpts{})
			if flat {
				continue
			}
			for k, w := range pool {
				if w == "." || w == ".." {
					continue
				}
				tr := tree{".": directory(), x: file("x"), y: directory(), y + "/" + x: link("../" + x)}
				if k > j {
					tr[w] = directory()
					tr[w+"/"+y] = directory()
				} else {
					tr[y+"/"+w] = directory()
				}
				try("name-triples", tr, sourceOpts{})
			}
		}
	}

	if flat {
		for n := 0; n <= 300; n++ {
			if n > 40 && n%7 != 0 {
				continue
			}
			tr := tree{".": directory()}
			for i := 0; i < n; i++ {
				tr[fmt.Sprintf("m%d", i)] = file(strings.Repeat("x", i%3))
			}
			try("members", tr, sourceOpts{sys: 's'})
		}
		return
	}

	// Link targets.
	maxTarget := map[byte]int{'t': 1100, 'e': 4095}[format]
	for n := 1; n <= maxTarget; n++ {
		tr := tree{".": directory(), "a": file("x"), "l": link(string(pattern2(n))), "z": file("z")}
		try("link-lengths", tr, sourceOpts{})
	}
	for b := 1; b < 256; b++ {
		s := string([]byte{byte(b)})
		tr := tree{".": directory(), "l": link(s), "l2": link("x" + s), "l3": link(s + "/x"), "l4": link("//" + s + "//")}
		try("link-bytes", tr, sourceOpts{})
	}

	// Deep directories.
	for n := 1; n <= 60; n++ {
		tr := tree{".": directory()}
		p := "."
		for i := 0; i < n; i++ {
			p = path.Join(p, []string{"d", "e-", ".f"}[i%3])
			tr[p] = directory()
			tr[p].mode = fs.FileMode(0o700 + i%64)
		}
		tr[p+"/leaf"] = file("leaf")
		try("deep", tr, sourceOpts{noReadDir: n%2 == 0})
	}
	// Wide ones.
	for n := 0; n <= 400; n++ {
		if n > 60 && n%9 != 0 {
			continue
		}
		tr := tree{".": directory(), "d": directory(), "z": file("after")}
		for i := 0; i < n; i++ {
			tr[fmt.Sprintf("d/%d", i)] = file("")
			if i%3 == 0 {
				tr[fmt.Sprintf("d/%d", i)] = directory()
			}
		}
		try("wide", tr, sourceOpts{})
	}

	if format != 'e' {
		return
	}

	// Directories around the boundaries of their blocks.
	for l := 1; l <= 255; l++ {
		step := 12 + l
		for k := 1; k <= 3; k++ {
			at := k * 4096 / step
			for n := at - 2; n <= at+2; n++ {
				if n < 0 || l == 1 && n > 200 || (k > 1 && l < 20 && !c.thorough) || (!c.thorough && l%3 != 0 && l < 240) {
					continue
				}
				tr := tree{".": directory(), "d": directory(), "z": file("after")}
				for i := 0; i < n; i++ {
					tr["d/"+numName(i, l)] = file("")
				}
				try("dir-blocks", tr, sourceOpts{zeroTime: k == 2})
			}
		}
	}
	// One name of every length where the block is nearly full.
	for _, l := range []int{200, 100, 31, 255} {
		for m := 1; m <= 255; m++ {
			for _, first := range []bool{true, false} {
				n := (4096 - 27 - 13) / (12 + l)
				if 27+n*(12+l)+12+m > 4096+40 {
					n--
				}
				tr := tree{".": directory(), "d": directory()}
				for i := 0; i < n; i++ {
					tr["d/"+numName(i, l)] = file("")
				}
				// The name sorts before or after the others.
				odd := strings.Repeat("z", m)
				if first {
					odd = strings.Repeat("!", m)
				}
				tr["d/"+odd] = directory()
				try("dir-fits", tr, sourceOpts{})
				// A second block.
				tr = tr.clone()
				for i := 0; i < 20; i++ {
					tr["d/y"+numName(i, l-1)] = file("")
				}
				try("dir-fits", tr, sourceOpts{zeroTime: true})
			}
		}
	}
	// Exact fits: block size reached by the sum of two odd names.
	for m := 1; m <= 255; m++ {
		// 27 bytes for "." and "..", 15 names of 255, two more.
		for total := 4090; total <= 4100; total++ {
			rest := total - 27 - 14*267 - 12 - m - 12
			if rest < 1 || rest > 255 {
				continue
			}
			tr := tree{".": directory(), "d": directory()}
			for i := 0; i < 14; i++ {
				tr["d/"+numName(i, 255)] = file("")
			}
			tr["d/"+strings.Repeat("a", m)] = file("a")
			tr["d/"+strings.Repeat("zz", 130)[:rest]] = file("z")
			try("dir-exact", tr, sourceOpts{})
			if m%5 == 0 {
				tr = tr.clone()
				tr["d/zzz"] = directory()
				for i := 0; i < 16; i++ {
					tr["d/zzz"+numName(i, 200)] = file("")
				}
				try("dir-exact", tr, sourceOpts{zeroTime: true})
			}
		}
	}

	// Every fill level of the metadata block x kind of inode x size.
	for k := 0; k <= 130; k++ {
		for _, compact := range []bool{false, true} {
			for _, n := range []int{0, 1, 32, 63, 64, 65, 500, 991, 992, 993, 1023, 1024, 1025, 4095, 4096, 5120} {
				if !c.thorough && k > 2 && k < 92 && (k+n)%4 != 0 {
					continue
				}
				tr := tree{".": directory(), "m": file(""), "n": file("n"), "o": directory(), "o/p": link("q"), "z": file("z")}
				for i := 0; i < k; i++ {
					f := file("")
					f.mtime = time.Time{}
					tr[fmt.Sprintf("f%03d", i)] = f
				}
				tr["m"].data = pattern(n, 5)
				if compact {
					tr["m"].mtime = time.Time{}
				}
				try("meta-fill", tr, sourceOpts{})
			}
		}
	}
}

// numName returns the i-th name of length l.
func numName(i, l int) string {
	const digits = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwx"
	b := []byte(strings.Repeat("=", l))
	for k := 0; i > 0 || k == 0; k++ {
		if k >= l {
			// Use more of the bytes for very short names.
			b[l-1] = byte(0x80 + i)
			break
		}
		b[k] = digits[i%len(digits)]
		i /= len(digits)
	}
	return string(b)
}

// rejects are trees that cannot be recorded, or only if the format supports
// that type of file.
func rejects(try func(space string, kind byte, tr tree, o sourceOpts)) {
	for _, kind := range []byte("cbpsi") {
		for _, where := range []string{"x", "d/x", "zz/y/x"} {
			tr := tree{".": directory(), "a": file("a"), "d": directory(), "m": file("m")}
			for d := path.Dir(where); d != "."; d = path.Dir(d) {
				tr[d] = directory()
			}
			tr[where] = &node{kind: kind, mode: 0o644, mtime: epoch}
			try("special", kind, tr, sourceOpts{})
			try("special", kind, tr, sourceOpts{zeroTime: true})
			// With data to be read.
			tr = tr.clone()
			tr[where].data = []byte("data")
			try("special", kind, tr, sourceOpts{})
		}
	}
	for _, where := range []string{"x", "d/x"} {
		tr := tree{".": directory(), "d": directory(), where: link("t"), "z": file("z")}
		try("links", 'l', tr, sourceOpts{noLinks: true})
	}
}

// recorded is the tree that should be recorded for a source.
func recorded(tr tree, o sourceOpts) tree {
	want := tr.clone()
	for _, n := range want {
		if o.zeroTime || n.mtime.IsZero() {
			n.mtime = epoch
		}
		if o.sys == 0 {
			n.uid, n.gid = 0, 0
		}
	}
	return want
}

func optsString(o sourceOpts) string {
	return fmt.Sprintf("sys=%q zeroTime=%v chunk=%d eofWith=%v noReadDir=%v noLinks=%v", o.sys, o.zeroTime, o.chunk, o.eofWith, o.noReadDir, o.noLinks)
}

// trickyNames are names whose order and equality depends on comparing bytes.
var trickyNames = []string{
	"0", "00", "1", "01", "9", "09", "10", "99", "100", "1a", "0x1", "1.5", "-1",
	"a", "A", "b", "B", "aa", "aA", "AA", "a1", "a2", "a10", "a01", "a.b", "a-b", "a_b", "a b", "a+b", "ab", "a,b", "a.", "a.B",
	".a", "..a", "...", "-", "_", "~", "!", "*", "[a", "\\", ":", "%41", "#a",
	"\u00e9", "e\u0301", "\u00c9", "e", "ss", "\u00df", "\u017f", "s", "K", "\u212a", "k", "i", "I", "\u0130", "\u0131", "\u65e5", "a\u200d",
	"\x01", "a\x01", "\x7f", "\xff", "\xc3", "a\xff",
}

// eachTricky calls f with every set of 2 and 3 tricky names, in an order that varies.
func eachTricky(f func(names []string)) {
	n := len(trickyNames)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			f([]string{trickyNames[i], trickyNames[j]})
			for k := max(i, j) + 1; k < n; k++ {
				if i < j {
					f([]string{trickyNames[k], trickyNames[i], trickyNames[j]})
				}
			}
		}
	}
}
