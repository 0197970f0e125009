package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
)

func init() {
	register(&check{
		id:    "C11",
		level: "fault_enumeration",
		rule:  "an evaluation is one corrupted archive that is opened and on which, if it opens, every operation is performed on everything it shows; distinct_nontrivial counts distinct archives",
		bounds: []string{
			"20 small archives that together use every feature of the formats",
			"every byte of the metadata with 17 values (thorough: all values) and every other byte with 1 (17) (tar and EROFS: also with a matching checksum)",
			"all pairs of extreme values of structural fields",
			"all graphs of 3 hard and symbolic links; deep (up to 20000 elements, in linear time) and huge names; byte strings of up to 2 bytes",
		},
		run:    runC11,
		budget: 3_000_000,
	})
	register(&check{
		id:    "C12",
		level: "fault_enumeration",
		rule:  "an evaluation is one truncated archive that is opened, listed and read completely; distinct_nontrivial counts distinct truncated archives",
		bounds: []string{
			"every truncation point of 24 small archives that together use every feature of the formats",
			"each before the archive is opened, and while it is open, with files open that are read to 0, 1, half and all of their bytes",
			"every truncation point of archives whose files have sizes around block boundaries; 4 read sizes",
			"every truncation point of all sequences of 2 (thorough: 3) tar records out of 14 and of up to 3 (4) ar members, and of all EROFS images of up to 2 (3) nodes x 3 names x 3 kinds, compact or extended, inline or plain",
		},
		run:    runC12,
		budget: 1 << 30,
	})
}

// ---- C11 ----

func runC11(c *ctx) {
	nodes := 12
	if c.thorough {
		nodes = 24
	}
	try := func(space string, format byte, desc func() string, mk func() []byte) {
		s := c.enterRange(space)
		if !c.mine(s) {
			return
		}
		c.one(s, desc, func(t *t) {
			b := mk()
			t.state(b)
			t.trans++
			var fsys fs.FS
			var err error
			guard(t, len(b), "Open", "", func() { fsys, err = openArchive(format, ra(b)) })
			if err == nil {
				n := nodes
				if strings.Contains(desc(), "erofs loop") && !c.thorough {
					n = 4
				}
				exercise(t, fsys, len(b), n)
			}
		})
	}

	var arch []archive
	for _, a := range corpus() {
		if !a.inodes || c.thorough || strings.Contains(a.name, "compact") {
			arch = append(arch, a)
		}
	}
	// Short strings.
	for _, f := range []byte("tea") {
		for n := 0; n < 1<<16; n++ {
			b := []byte{byte(n), byte(n >> 8)}
			if n < 257 {
				b = b[:min(n, 1)]
			}
			try("short", f, func() string { return fmt.Sprintf("%c %q", f, b) }, func() []byte { return b })
		}
	}
	// Graphs of links.
	targets := []string{"a", "b", "c", "a/b", "../a", "/c/a", ".", "..", "/", "b/..", "nope", "", "a/a", "c/."}
	for kinds := 0; kinds < 8; kinds++ {
		eachSeq(len(targets), 3, func(idx []int) {
			var recs []trec
			for i := range idx {
				typ := byte('1')
				if kinds>>i&1 == 1 {
					typ = '2'
				}
				recs = append(recs, trec{name: string(rune('a' + i)), typ: typ, link: targets[idx[i]], format: 'u'})
			}
			try("links", 't', func() string { return recsString(recs) }, func() []byte { return tarBytes(recs...) })
			if kinds == 0 {
				// Links that are also directories.
				recs2 := append(append([]trec{}, recs...), trec{name: "a/b", typ: '0', format: 'u', data: []byte("x")}, trec{name: "b/c/d", typ: '2', link: "../../a", format: 'u'})
				try("links", 't', func() string { return recsString(recs2) }, func() []byte { return tarBytes(recs2...) })
				recs3 := append([]trec{{name: "c/a", typ: '5', format: 'u'}, {name: "a/b", typ: '0', format: 'u', data: []byte("x")}}, recs...)
				try("links", 't', func() string { return recsString(recs3) }, func() []byte { return tarBytes(recs3...) })
			}
		})
	}
	// Deep and long names, many links.
	for _, n := range []int{100, 1000, 2500, 20000} {
		for v := 0; v < 6; v++ {
			var recs []trec
			deep := strings.Repeat("a/", n)
			switch v {
			case 0:
				recs = []trec{{name: deep + "f", typ: '0', format: 'p', data: []byte("x")}}
			case 1:
				recs = []trec{{name: "l", typ: '2', link: deep, format: 'p'}}
			case 2, 3:
				// These are followed 255 times.
				if n > 2500 {
					continue
				}
			}
			switch v {
			case 2:
				recs = []trec{{name: "l", typ: '2', link: strings.Repeat("../", n) + "l", format: 'p'}}
			case 3:
				recs = []trec{{name: "l", typ: '2', link: strings.Repeat("l/", n), format: 'p'}}
			case 4:
				for i := 0; i < n/4; i++ {
					recs = append(recs, trec{name: fmt.Sprint("h", i), typ: '1', link: fmt.Sprint("h", i+1), format: 'u'})
				}
				recs = append(recs, trec{name: fmt.Sprint("h", n/4), typ: '0', format: 'u', data: []byte("x")})
			case 5:
				for i := 0; i < n/4; i++ {
					recs = append(recs, trec{name: fmt.Sprint("h", i), typ: '2', link: fmt.Sprintf("h%d/../h%d", i+1, i+1), format: 'u'})
				}
				recs = append(recs, trec{name: fmt.Sprint("h", n/4), typ: '5', format: 'u'})
			}
			c.each("deep", func() string { return trunc(recsString(recs), 500) }, func(t *t) {
				b := tarBytes(recs...)
				t.state(b)
				t.trans++
				var fsys fs.FS
				var err error
				defer func() { c.chk.budget = 3_000_000 }()
				// In proportion to the archive, not to its square.
				c.chk.budget = 500_000 + 60*int64(len(b))
				guard(t, 10*len(b)+n*n/20, "Open", "", func() { fsys, err = openArchive('t', ra(b)) })
				if err == nil {
					c.chk.budget = 60_000_000
					exercise(t, fsys, 10*len(b)+500*n, 4) // links may be followed 255 times
				}
			})
		}
	}
	// Links that go through other links several times.
	for _, n := range []int{20, 40, 300} {
		for _, how := range []string{"%s/../%s", "/%s/../%s", "./%s/.././%s", "../d/%s/../%s", "/d/%s/../../d/%s", "%s/../%s/.", "/%s/%s", "%s/%s"} {
			for _, format := range "te" {
				c.each("through", func() string { return fmt.Sprintf("%c: %d links to %s", format, n, how) }, func(t *t) {
					tr := tree{".": directory(), "d": directory()}
					for i := 0; i < n; i++ {
						next := fmt.Sprint("h", i+1)
						tr[fmt.Sprint("d/h", i)] = link(fmt.Sprintf(how, next, next))
						tr[fmt.Sprint("h", i)] = link(fmt.Sprintf(how, next, next))
					}
					tr[fmt.Sprint("d/h", n)] = directory()
					tr[fmt.Sprint("h", n)] = directory()
					var b []byte
					if format == 't' {
						b = tarBytes(treeRecs(tr, 'g')...)
					} else {
						b, _, _ = buildErofs(tr, eopts{bits: 12})
					}
					t.state(b)
					t.trans++
					var fsys fs.FS
					var err error
					c.chk.budget = 60_000_000
					defer func() { c.chk.budget = 3_000_000 }()
					guard(t, 10*len(b), "Open", "", func() { fsys, err = openArchive(byte(format), ra(b)) })
					if err == nil {
						exercise(t, fsys, 10*len(b)+255*1000, 4)
					}
				})
			}
		}
	}
	// Links that climb in and out of a directory that contains itself, so that
	// a short target leads to a deep directory.
	for _, down := range []int{0, 1, 200, 1000} {
		for _, climb := range []int{0, 1, 100, 400} {
			for _, bits := range []uint8{9, 12} {
				if down+climb > 300 && !c.thorough {
					continue
				}
				target := strings.Repeat("d/", down) + strings.Repeat("../d/", climb) + "l"
				c.each("climb", func() string {
					return fmt.Sprintf("blocks of %d bytes, d/d is d, d/l leads to %d times d, %d times ../d, then l", 1<<bits, down, climb)
				}, func(t *t) {
					tr := tree{".": directory(), "d": directory(), "d/d": directory(), "d/l": link(target)}
					b, _, err := buildErofs(tr, eopts{bits: bits, alias: map[string]string{"d/d": "d"}})
					if err != nil {
						panic(err)
					}
					t.state(b)
					t.trans++
					var fsys fs.FS
					guard(t, len(b), "Open", "", func() { fsys, err = openArchive('e', ra(b)) })
					if err != nil {
						t.fatal("open", "%v", err)
					}
					defer func() { c.chk.budget = 3_000_000 }()
					// In proportion to the targets that are followed, 255 of them.
					steps := 255 * (down + 2*climb + 1)
					for i := range readOps {
						c.chk.budget = 3_000_000 + 1000*int64(steps)
						guard(t, len(b)+100*steps, "operation "+readOps[i].name, "d/l", func() { _, _ = readOps[i].f(fsys, "d/l") })
						t.trans++
					}
				})
			}
		}
	}
	// A sparse file that describes much more data than there is.
	for _, size := range []int64{1 << 30, 1 << 40, 1 << 62} {
		for _, v := range []string{"gnu", "0.0", "0.1", "1.0"} {
			for _, at := range []int64{0, 1} {
				if v == "gnu" && size > 1<<33-1 {
					size = 1<<33 - 1
				}
				try("huge-sparse", 't', func() string { return fmt.Sprint(v, " ", size, " ", at) }, func() []byte {
					return tarBytes(hugeSparse(v, size, at), trec{name: "z", typ: '0', format: 'u', data: []byte("after")})
				})
			}
		}
	}
	// Pairs of extreme values of fields.
	for _, a := range arch {
		fields := structFields(a)
		for i := range fields {
			for j := i; j < len(fields); j++ {
				f, g := fields[i], fields[j]
				if i != j && f.off == g.off {
					continue
				}
				// Pairs that are far apart are tried with fewer values.
				for vi, v := range f.vals {
					for wi, w := range g.vals {
						if i == j && vi != wi {
							continue
						}
						if !c.thorough && i != j && (vi+wi)%sparse(a, f, g) != 0 {
							continue
						}
						try("pairs", a.how(), func() string {
							return fmt.Sprintf("%s: %s (byte %d) is %q, %s (byte %d) is %q\n%s", a.name, f.name, f.off, v, g.name, g.off, w, recsString(a.recs))
						}, func() []byte {
							b := append([]byte{}, a.b...)
							copy(b[f.off:], v)
							if i != j {
								copy(b[g.off:], w)
							}
							fixSum(a, b, f.off)
							fixSum(a, b, g.off)
							return b
						})
					}
				}
			}
		}
	}

	// Each byte.
	for _, a := range arch {
		hdr := metaBytes(a)
		for i := range a.b {
			x := a.b[i]
			vals := []byte{^x}
			if hdr[i] || c.thorough {
				vals = []byte{0, 1, '0', '9', ' ', 0x7f, 0x80, 0xff, x + 1, x - 1, x ^ 2, x ^ 4, x ^ 8, x ^ 16, x ^ 32, x ^ 64, x ^ 128}
			}
			all := hdr[i] && c.thorough
			for v := 0; v < 256; v++ {
				if !all && bytes.IndexByte(vals, byte(v)) < 0 || byte(v) == x {
					continue
				}
				for sum := 0; sum < 2; sum++ {
					if sum == 1 && (a.format == 'a' || !hdr[i]) {
						continue
					}
					if sum == 0 && a.format == 't' && hdr[i] && byte(v) != x^1 && !c.thorough {
						// The checksum does not match.
						continue
					}
					try("bytes", a.how(), func() string {
						return fmt.Sprintf("%s, byte %d is %#x, checksum matches: %v\n%s", a.name, i, v, sum == 1, recsString(a.recs))
					}, func() []byte {
						b := append([]byte{}, a.b...)
						b[i] = byte(v)
						if sum == 1 {
							fixSum(a, b, i)
						}
						return b
					})
				}
			}
		}
	}

}

// sparse tells which share of the pairs of values of two fields is tried by the
// quick tier: the farther apart they are, the fewer.
func sparse(a archive, f, g field) int {
	d := max(g.off-f.off, f.off-g.off)
	n := 1 + min(11, d/160)
	if a.format == 'e' {
		n = 2 + min(15, d/48)
		if strings.Contains(a.name, "loop") {
			n = 60
		}
	}
	return n
}

// hugeSparse is a sparse file with a huge hole.
func hugeSparse(v string, size, at int64) trec {
	r := trec{name: "s", typ: '0', mode: 0o644, format: 'p'}
	frags := fmt.Sprintf("%d,0", size)
	if at == 1 {
		frags = fmt.Sprintf("0,1,%d,1", size-1)
	}
	f := strings.Split(frags, ",")
	data := pattern(int(2*at), 1)
	switch v {
	case "gnu":
		r.typ, r.format, r.sparse = 'S', 'g', ""
		// Encoded by hand below.
		h := trec{name: "s", typ: '0', mode: 0o644, format: 'g', data: data}.encode()
		h[156] = 'S'
		for i := 0; i+1 < len(f); i += 2 {
			var o, n int64
			fmt.Sscan(f[i], &o)
			fmt.Sscan(f[i+1], &n)
			octal(h[386+12*i:386+12*i+12], o)
			octal(h[386+12*i+12:386+12*i+24], n)
		}
		octal(h[483:495], size)
		checksum(h[:512])
		return trec{raw: h}
	case "0.0":
		r.data = data
		body := paxRecord("GNU.sparse.size", fmt.Sprint(size)) + paxRecord("GNU.sparse.numblocks", fmt.Sprint(len(f)/2))
		for i := 0; i+1 < len(f); i += 2 {
			body += paxRecord("GNU.sparse.offset", f[i]) + paxRecord("GNU.sparse.numbytes", f[i+1])
		}
		return trec{raw: append(metaRec('x', "PaxHeaders.0/x", []byte(body), 'p'), r.encode()...)}
	case "0.1":
		r.data = data
		r.pax = map[string]string{"GNU.sparse.size": fmt.Sprint(size), "GNU.sparse.numblocks": fmt.Sprint(len(f) / 2), "GNU.sparse.map": frags}
	case "1.0":
		r.data = append(padBlk([]byte(fmt.Sprintf("%d\n%s\n", len(f)/2, strings.Join(f, "\n")))), data...)
		r.pax = map[string]string{"GNU.sparse.major": "1", "GNU.sparse.minor": "0", "GNU.sparse.name": "s", "GNU.sparse.realsize": fmt.Sprint(size)}
	}
	return r
}

// metaBytes tells which bytes of an archive are metadata.
func metaBytes(a archive) map[int]bool {
	out := map[int]bool{}
	mark := func(from, n int) {
		for i := from; i < from+n && i < len(a.b); i++ {
			out[i] = true
		}
	}
	switch a.format {
	case 't':
		for off := 0; off+512 <= len(a.b); off += 512 {
			b := a.b[off : off+512]
			if string(b[257:262]) == "ustar" {
				for i, x := range b {
					// Not all of the NULs.
					if x != 0 || i > 0 && b[i-1] != 0 {
						out[off+i] = true
					}
				}
			} else if bytes.Contains(b, []byte("=")) || bytes.HasPrefix(b, []byte("2\n0\n")) {
				mark(off, 60)
			}
		}
	case 'a':
		mark(0, 8)
		off := 8
		for _, r := range a.ars {
			mark(off, 60)
			off += len(r.encode())
		}
	case 'e':
		mark(1024, 96)
		bits := a.b[1036]
		base := int(le.Uint32(a.b[1064:])) << bits
		for _, nid := range a.nids {
			off := base + int(nid)*32
			mark(off, 48)
			// Directory data.
			if le.Uint16(a.b[off+4:])&sIFMT == sIFDIR {
				size := int(le.Uint32(a.b[off+8:]))
				isize := 32
				if a.b[off]&1 == 1 {
					isize = 64
				}
				if a.b[off]>>1&7 == 2 {
					mark(off+isize, size%(1<<bits))
					size = size >> bits << bits
				}
				mark(int(le.Uint32(a.b[off+16:]))<<bits, min(size, 512))
			}
		}
	}
	return out
}

// fixSum makes the checksum that covers a byte match.
func fixSum(a archive, b []byte, i int) {
	switch a.format {
	case 't':
		off := i &^ 511
		if off+512 <= len(b) && string(a.b[off+257:off+262]) == "ustar" {
			checksum(b[off : off+512])
		}
	case 'e':
		if b[1032]&1 == 1 {
			end := min(int64(len(b)), roundTo(1025, 1<<(b[1036]&31)))
			if end > 1152 {
				old := append([]byte{}, b[1028:1032]...)
				copy(b[1028:], []byte{0, 0, 0, 0})
				sum := ^crcOf(b[1024:end])
				copy(b[1028:], old)
				le.PutUint32(b[1028:], sum)
			}
		}
	}
}

// field is a structural field of an archive with extreme values.
type field struct {
	name string
	off  int
	vals []string
}

func leBytes(n int, vals ...uint64) []string {
	var out []string
	for _, v := range vals {
		b := make([]byte, 8)
		le.PutUint64(b, v)
		out = append(out, string(b[:n]))
	}
	return out
}

func structFields(a archive) []field {
	var out []field
	switch a.format {
	case 't':
		for off := 0; off+512 <= len(a.b); off += 512 {
			b := a.b[off : off+512]
			if string(b[257:262]) != "ustar" {
				if string(b[:4]) == "2\n0\n" {
					for _, v := range []string{"0\n0\n", "9\n0\n", "-1\n0", "9999999999999999999\n1\n", "2\n9223372036854775807\n1\n1\n1\n", "2\n1\n9223372036854775807\n1\n1\n", "2\n0\n-2\n1\n1\n", "\n\n\n\n", "2 0 "} {
						out = append(out, field{"sparse map", off, []string{v}})
					}
				}
				continue
			}
			nums := []string{"0", "00000000001\x00", "00000000777\x00", "00000001000\x00", "00000001001\x00", "77777777777\x00", "-0000000001\x00", "zzzzzzzzzzz\x00", "\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff", "\x80\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\xff\xff\xff\xff\x80\x00\x00\x00\x00\x00\x00\x00", strings.Repeat("\x00", 12)}
			out = append(out, field{"size", off + 124, nums}, field{"mtime", off + 136, nums[7:]})
			out = append(out, field{"type", off + 156, strings.Split("\x00,0,1,2,3,4,5,6,7,g,x,L,K,S,D,M,V,X,Z,\xff", ",")})
			out = append(out, field{"name", off, []string{strings.Repeat("n", 100), strings.Repeat("\x00", 100), "/\x00", "../x\x00", strings.Repeat("a/", 50), strings.Repeat("\xff", 100), "a/GNUSparseFile.0/b\x00"}})
			out = append(out, field{"linkname", off + 157, []string{strings.Repeat("../", 33), strings.Repeat("\x00", 100), "/\x00", "d/l\x00", ".\x00"}})
			out = append(out, field{"magic", off + 257, []string{"ustar\x0000", "ustar  \x00", strings.Repeat("\x00", 8)}})
			out = append(out, field{"mode", off + 100, []string{"777777\x00", "\xff\xff\xff\xff\xff\xff\xff\xff", "\x80\x00\x00\x00\xff\xff\xff\xff"}})
			if b[156] == 'S' || strings.Contains(a.name, "gnu") {
				big := []string{"00000000000\x00", "00000000001\x00", "00000001000\x00", "77777777777\x00", "\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", strings.Repeat("\x00", 12)}
				for k := 0; k < 8; k += 1 {
					out = append(out, field{"sparse entry", off + 386 + 12*k, big})
				}
				out = append(out, field{"extended", off + 482, []string{"\x00", "\x01", "\xff"}}, field{"realsize", off + 483, big})
			}
			if b[156] == 'x' || b[156] == 'g' {
				for _, v := range []string{"0", "1", "9", "99 ", "999999999999999999999 ", "-1 ", "6 =\n\n", "5 a=\n", "\x00", "18 GNU.sparse.map=", "29 GNU.sparse.numblocks=9999\n", "25 GNU.sparse.size=9999\n", "20 size=99999999999\n", "11 size=-1\n", "9 path=\n", "11 path=..\n", "22 GNU.sparse.major=1\n22 GNU.sparse.minor=0\n32 GNU.sparse.realsize=9999999\n"} {
					out = append(out, field{"pax record", off + 512, []string{v}})
				}
			}
		}
	case 'a':
		off := 8
		for _, r := range a.ars {
			size := []string{"0         ", "1         ", "2         ", "9999999999", "-1        ", "-60       ", "-61       ", "-62       ", "-68       ", "4294967295", "-999999999", "0x10      ", "          ", fmt.Sprintf("%-10d", len(a.b)), fmt.Sprintf("%-10d", -off-60)}
			out = append(out, field{"size", off + 48, size})
			out = append(out, field{"name", off, []string{"                ", "/               ", "//              ", "../             ", "a/b             ", ".               ", strings.Repeat("\x00", 16), strings.Repeat("\xff", 16)}})
			out = append(out, field{"mode", off + 40, []string{"        ", "77777777", "40755   ", "-1      ", "120777  "}})
			out = append(out, field{"mtime", off + 16, []string{"            ", "999999999999", "-99999999999", "x           "}})
			out = append(out, field{"terminator", off + 58, []string{"  ", "\n`"}})
			off += len(r.encode())
		}
	case 'e':
		bits := a.b[1036]
		sb := []field{
			{"blkszbits", 1036, leBytes(1, 9, 10, 12, 16, 8, 17, 31, 32, 63, 64, 255)},
			{"rootnid", 1038, leBytes(2, 0, 1, 2, 3, 0xffff)},
			{"meta", 1064, leBytes(4, 0, 1, 2, 3, 0x7fffffff, 0xffffffff)},
			{"compat", 1032, leBytes(4, 0, 1, 2)},
		}
		out = append(out, sb...)
		base := int(le.Uint32(a.b[1064:])) << bits
		seen := map[uint64]bool{}
		var nids []uint64
		for _, p := range a.tr.paths() {
			if nid, ok := a.nids[p]; ok && !seen[nid] && len(nids) < 9 {
				seen[nid] = true
				nids = append(nids, nid)
			}
		}
		var some []uint64
		for _, p := range []string{".", "d", "d/f", "c"} {
			if nid, ok := a.nids[p]; ok {
				some = append(some, nid)
			}
		}
		targets := leBytes(8, append(some, 0, 1, 1<<32, 1<<58, 1<<59, 1<<63, 1<<64-1)...)
		for _, nid := range nids {
			off := base + int(nid)*32
			bs := uint64(1) << bits
			sizes := []uint64{0, 1, 11, 12, 13, bs - 64, bs - 32, bs - 31, bs - 1, bs, bs + 1, 2 * bs, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			n := 4
			if a.b[off]&1 == 1 {
				n = 8
				sizes = append(sizes, 1<<32, 1<<40, 1<<62-1, 1<<62, 1<<63-1, 1<<63, 1<<64-1)
			}
			out = append(out,
				field{"inode format", off, leBytes(2, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xffff)},
				field{"inode xattrs", off + 2, leBytes(2, 1, 0xffff)},
				field{"inode mode", off + 4, leBytes(2, 0, sIFREG|0o644, sIFDIR|0o755, sIFLNK|0o777, sIFCHR, sIFBLK, sIFIFO, sIFSOC, 0xffff)},
				field{"inode size", off + 8, leBytes(n, sizes...)},
				field{"inode blkaddr", off + 16, leBytes(4, 0, 1, 2, 3, uint64(base)>>bits, 0x7fffffff, 0xffffffff)},
			)
			if le.Uint16(a.b[off+4:])&sIFMT != sIFDIR {
				continue
			}
			isize := 32
			if n == 8 {
				isize = 64
			}
			size := int(le.Uint32(a.b[off+8:]))
			data := int(le.Uint32(a.b[off+16:])) << bits
			if a.b[off]>>1&7 == 2 && size < 1<<bits {
				data = off + isize
			}
			k := int(le.Uint16(a.b[data+8:])) / 12
			for i := 0; i < k && i < 5; i++ {
				d := data + 12*i
				out = append(out,
					field{"dirent nid", d, targets},
					field{"dirent nameoff", d + 8, leBytes(2, 0, 1, 11, 12, 13, 23, 24, uint64(12*k), uint64(12*k+1), uint64(size-1), uint64(size), uint64(size+1), bs-1, bs, 0x8000, 0xffff)},
					field{"dirent type", d + 10, leBytes(1, 0, 1, 2, 7, 8, 255)},
				)
			}
		}
	}
	return out
}

// ---- C12 ----

func runC12(c *ctx) {
	arch := corpus()
	// Sizes around block boundaries.
	for _, n := range []int{1, 2, 31, 32, 33, 511, 512, 513, 1023, 1024, 1025} {
		arch = append(arch,
			tarArchive(fmt.Sprint("size ", n), trec{name: "a", typ: '0', format: 'u', data: pattern(n, 1)}, trec{name: "b", typ: '0', format: 'g', data: pattern(n, 2)}),
			arArchive(fmt.Sprint("size ", n), arec{name: "a", mtime: "1", uid: "0", gid: "0", mode: "644", data: pattern(n, 1)}, arec{name: "b", mtime: "1", uid: "0", gid: "0", mode: "644", data: pattern(n, 2)}),
		)
		tr := tree{".": directory(), "a": file(""), "b": file(""), "l": link(string(pattern2(n)))}
		tr["a"].data, tr["b"].data = pattern(n, 1), pattern(n, 2)
		for _, inl := range []func(string) bool{always, never} {
			if b, nids, err := buildErofs(tr, eopts{bits: 9, compact: always, inline: inl, build: epoch}); err == nil && n < 512 {
				arch = append(arch, archive{name: fmt.Sprint("erofs size ", n), format: 'e', b: b, nids: nids, tr: wantErofs(tr, eopts{compact: always, build: epoch})})
			}
		}
	}
	for i := range arch {
		switch a := &arch[i]; a.format {
		case 't':
			a.tr, _ = modelTar(a.recs)
		case 'a':
			a.tr, _ = modelAr(a.b)
		}
	}
	// Sequences of members, and trees.
	depth := 2
	if c.thorough {
		depth = 3
	}
	for k := 2; k <= depth; k++ {
		eachSeq(len(tarAlphabet), k, func(idx []int) {
			var recs []trec
			for _, i := range idx {
				recs = append(recs, tarAlphabet[i])
			}
			if tr, ok := modelTar(recs); ok {
				cuts(c, "cut sequence", func() archive {
					a := tarArchive("sequence", recs...)
					a.tr = tr
					return a
				})
			}
		})
	}
	for k := 2; k <= depth+1; k++ {
		eachSeq(len(arAlphabet), k, func(idx []int) {
			var recs []arec
			for _, i := range idx {
				recs = append(recs, arAlphabet[i])
			}
			a := arArchive("sequence", recs...)
			if tr, v := modelAr(a.b); v == arOpens {
				a.tr = tr
				cuts(c, "cut sequence", func() archive { return a })
			}
		})
	}
	for k := 1; k <= depth; k++ {
		eachTree(k, []string{"a", "b", "d"}, "fdl", func(tr tree) {
			for v := 0; v < 4; v++ {
				o := eopts{bits: 9, compact: never, inline: never, build: epoch}
				if v&1 == 1 {
					o.compact = always
				}
				if v&2 == 2 {
					o.inline = always
				}
				cuts(c, "cut tree", func() archive {
					a := erofsArchive("tree", tr, o)
					a.tr = wantErofs(tr, o)
					return a
				})
			}
		})
	}
	// Large ones, cut around every 512th byte.
	for _, a := range largeArchives() {
		for n := 0; n < len(a.b); n++ {
			if n%512 > 1 && n%512 < 511 {
				continue
			}
			c.each("cut large", func() string { return fmt.Sprintf("%s cut to %d of %d bytes", a.name, n, len(a.b)) }, func(t *t) {
				t.state(a.name, n)
				for _, eager := range []bool{false, true} {
					checkCut(t, a, n, eager)
				}
			})
		}
	}
	for _, a := range arch {
		for n := 0; n < len(a.b); n++ {
			c.each("cut", func() string { return fmt.Sprintf("%s cut to %d of %d bytes\n%s", a.name, n, len(a.b), a.tr) }, func(t *t) {
				t.state(a.b[:n])
				for _, eager := range []bool{false, true} {
					checkCut(t, a, n, eager)
				}
			})
		}
		// The undamaged archive is complete.
		c.each("complete", func() string { return a.name }, func(t *t) {
			fsys, err := openArchive(a.how(), ra(a.b))
			if err != nil {
				t.fatal("open", "%v", err)
			}
			got, err := observe(fsys)
			if err != nil {
				t.fatal("observe", "%v", err)
			}
			if d := diff(a.tr, got, cmpOpts{noRoot: true}); d != "" {
				t.fatal("diff", "%s", d)
			}
		})
	}
}

// cuts explores all truncation points of an archive.
func cuts(c *ctx, space string, mk func() archive) {
	c.each(space, func() string {
		a := mk()
		return fmt.Sprintf("%s %q\n%s", a.name, trunc(string(a.b), 4000), a.tr)
	}, func(t *t) {
		a := mk()
		t.state(a.b)
		for n := 0; n < len(a.b); n++ {
			t.prefix = fmt.Sprintf("cut to %d of %d bytes: ", n, len(a.b))
			for _, eager := range []bool{false, true} {
				checkCut(t, a, n, eager)
			}
		}
	})
}

func checkCut(t *t, a archive, n int, eager bool) {
	r := ra(a.b[:n])
	r.eagerly = eager
	fsys, err := openArchive(a.how(), r)
	t.step(1)
	must, opens := cutModel(a, n)
	var whole tree // everything that is wholly there
	if opens {
		if a.format == 't' {
			var recs []trec
			off := 0
			for _, r := range a.recs {
				if off += len(r.encode()); off <= n {
					recs = append(recs, r)
				}
			}
			// The target of a hard link may be missing.
			whole, opens = modelTar(recs)
		} else {
			whole, _ = modelAr(a.b[:n])
		}
	}
	if err != nil {
		if opens {
			t.fatal("refused", "cut between records, but opening fails: %v", err)
		}
		return
	}
	if must {
		t.fatal("accepted", "cut in the middle of a member, but opening succeeds")
	}
	if opens {
		got, err := observe(fsys)
		if err != nil {
			t.fatal("observe", "cut between records: %v", err)
		}
		if d := diff(whole, got, cmpOpts{noRoot: true}); d != "" {
			t.fatal("partial", "cut between records: %s", d)
		}
	}
	checkShown(t, a, fsys, n, false)
	lateCut(t, a, n, eager)
}

// lateCut cuts an archive that is open already, and some of whose files are.
func lateCut(t *t, a archive, n int, eager bool) {
	r := ra(a.b)
	r.eagerly = eager
	fsys, err := openArchive(a.how(), r)
	if err != nil {
		t.fatal("open", "%v", err)
	}
	type part struct {
		p    string
		f    fs.File
		got  []byte
		want []byte
	}
	var open []*part
	for _, p := range a.tr.paths() {
		want := a.tr[p]
		if want.kind != 'f' || len(open) >= 20 {
			continue
		}
		for _, k := range []int{0, 1, len(want.data) / 2, len(want.data)} {
			f, err := fsys.Open(p)
			if err != nil {
				t.fatal("open", "%q: %v", p, err)
			}
			h := &part{p: p, f: f, got: make([]byte, k), want: want.data}
			if _, err := io.ReadFull(f, h.got[:min(k, len(want.data))]); err != nil && k <= len(want.data) {
				t.fatal("open", "%q: %v", p, err)
			}
			h.got = h.got[:min(k, len(want.data))]
			open = append(open, h)
		}
	}
	r.b = a.b[:n]
	for _, h := range open {
		rest, err := io.ReadAll(h.f)
		h.f.Close()
		t.step(1)
		if err != nil {
			if errors.Is(err, io.EOF) {
				t.fatal("late", "reading on in %q, of which %d of %d bytes are read, after the cut: %v", h.p, len(h.got), len(h.want), err)
			}
			continue
		}
		if got := append(h.got, rest...); !bytes.Equal(got, h.want) {
			t.fatal("late", "reading on in %q, of which %d bytes are read, after the cut: %s", h.p, len(h.got)-len(rest), diffBytes(h.want, got))
		}
	}
	checkShown(t, a, fsys, n, true)
}

// checkShown checks that whatever is presented is complete or fails. late: the
// archive was complete when it was opened.
func checkShown(t *t, a archive, fsys fs.FS, n int, late bool) {
	todo := []string{"."}
	for len(todo) > 0 && len(todo) < 1000 {
		dir := todo[0]
		todo = todo[1:]
		es, err := fs.ReadDir(fsys, dir)
		if err != nil {
			continue
		}
		if a.format == 'e' {
			var names []string
			for _, e := range es {
				names = append(names, e.Name())
			}
			if g, w := strings.Join(names, "|"), strings.Join(a.tr.kids(dir), "|"); g != w {
				t.fatal("listing", "directory %q lists %q, want %q or an error", dir, g, w)
			}
		}
		for _, e := range es {
			p := path.Join(dir, e.Name())
			want := a.tr[p]
			if want == nil && a.format != 'a' {
				t.fatal("listing", "%q is listed", p)
			}
			fi, err := e.Info()
			if err == nil && want != nil && (kindOf(fi.Mode()) != want.kind || want.kind == 'f' && fi.Size() != int64(len(want.data)) && a.format == 'e') {
				t.fatal("info", "%q is listed as %v with %d bytes, want %v", p, fi.Mode(), fi.Size(), want)
			}
			if e.IsDir() {
				todo = append(todo, p)
				continue
			}
			if err == nil && kindOf(fi.Mode()) == 'l' {
				if target, err := fsys.(interface{ ReadLink(string) (string, error) }).ReadLink(p); err == nil && target != want.target {
					t.fatal("link", "link %q is %q, want %q or an error", p, target, want.target)
				}
				continue
			}
			for _, size := range []int{1, 100, 512, 8192} {
				if size == 1 && n%4 != 0 {
					continue
				}
				t.step(1)
				f, err := fsys.Open(p)
				if err != nil && late {
					continue
				}
				var b []byte
				if err == nil {
					b, err = readHandle(f, size)
					f.Close()
				}
				if err != nil {
					if err == errShort || err == errNoProgress || errors.Is(err, io.EOF) {
						t.fatal("short", "reading %q in steps of %d: %v (%d bytes)", p, size, err, len(b))
					}
					continue
				}
				if want != nil && !bytes.Equal(b, want.data) && (a.format == 'e' || late) {
					t.fatal("short", "reading %q in steps of %d: %s", p, size, diffBytes(want.data, b))
				}
			}
			// Through the helper everybody uses.
			if fi != nil {
				if b, err := fs.ReadFile(fsys, p); err == nil && int64(len(b)) != fi.Size() {
					t.fatal("short", "ReadFile(%q) returns %d of %d bytes", p, len(b), fi.Size())
				}
			}
		}
	}
}

// cutModel tells whether opening an archive that is cut to n bytes must fail,
// or must succeed.
func cutModel(a archive, n int) (mustFail, mustOpen bool) {
	switch a.format {
	case 't':
		off := 0
		for _, r := range a.recs {
			if n == off {
				return false, true
			}
			enc := r.encode()
			if n < off+len(enc) {
				// The last block may be padding.
				phys := off + len(enc)
				if d := physical(r); d > 0 {
					phys -= (512 - d%512) % 512
				}
				if n >= phys {
					return false, false // padding
				}
				// Between an auxiliary header and the member.
				return !afterAux(enc, n-off), false
			}
			off += len(enc)
		}
		if n == off || n == off+512 {
			return false, true
		}
		return false, false
	case 'a':
		off := 8
		if n < 8 {
			return true, false
		}
		for _, r := range a.ars {
			if n == off {
				return false, true
			}
			enc := r.encode()
			if n < off+len(enc) {
				if n-off == 60+len(r.data) {
					return false, false // lacks the padding
				}
				return true, false
			}
			off += len(enc)
		}
		return false, true
	}
	return n < 1152, false
}

// physical is the number of data bytes recorded for a member.
func physical(r trec) int {
	if r.typ == 'g' {
		n := 0
		for k, v := range r.pax {
			n += len(paxRecord(k, v))
		}
		return n
	}
	if r.sparse == "" {
		return len(r.data)
	}
	n := 0
	for _, f := range r.frags {
		n += int(f.n)
	}
	return n
}

// afterAux tells whether a cut is after an auxiliary record (or in the padding
// that follows it).
func afterAux(enc []byte, at int) bool {
	off := 0
	for off+512 <= len(enc) {
		h := enc[off : off+512]
		var size int64
		fmt.Sscanf(strings.Trim(string(h[124:135]), "\x00 "), "%o", &size)
		switch h[156] {
		case 'x', 'L', 'K', 'g':
			end := off + 512 + int(size)
			off += 512 + int(roundTo(size, 512))
			if at >= end && at <= off {
				return true
			}
		default:
			return false
		}
	}
	return false
}
