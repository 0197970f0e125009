package main

import (
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

func init() {
	register(&check{
		id:    "C09",
		level: "model_checking",
		rule:  "a state is a distinct archive; transitions are observations (listing, stat, lookups of present and absent names, data) compared with the members the independent decoder finds, or refusals",
		bounds: []string{
			"all sequences of up to 5 (thorough: 6) members over an alphabet of 13",
			"all member sizes 0..1100 (thorough: 0..9000) followed by another member; all 4096 modes; owners and times of every width",
			"a member of more than 4 GiB (thorough: 9 sizes around powers of two)",
			"every byte value at 4 places of a name x all name lengths",
			"names: every pair and set of 3 of 69 names that some orders and comparisons put elsewhere or take for each other (numbers, both cases, letters that fold or are composed, bytes that are no text)",
			"every value of every byte of the signature and of the headers of a three-member archive; pairs of extreme field values",
		},
		run:    runC09,
		budget: 100_000_000,
	})
}

const (
	arOpens   = 1
	arRefused = -1
	arEither  = 0
)

// modelAr is the reference: what an archive contains, and whether it has to
// open.
func modelAr(b []byte) (tree, int) {
	if len(b) < 8 || string(b[:8]) != "!<arch>\n" {
		return nil, arRefused
	}
	tr := tree{".": directory()}
	verdict := arOpens
	off := 8
	for off < len(b) {
		if len(b)-off < 60 {
			if len(b)-off == 1 && b[off] == '\n' {
				return tr, verdict // surplus padding
			}
			return nil, arRefused
		}
		h := b[off : off+60]
		if string(h[58:]) != "`\n" {
			return nil, arRefused
		}
		vals := [5]int64{}
		for i, f := range [][]byte{h[16:28], h[28:34], h[34:40], h[40:48], h[48:58]} {
			base := 10
			if i == 3 {
				base = 8
			}
			s := strings.TrimRight(string(f), " ")
			core := strings.TrimSpace(s)
			if core == "" {
				if i == 4 {
					return nil, arEither
				}
				if i == 3 {
					verdict = arEither
				}
				continue // blank is 0
			}
			if core != s || core[0] == '+' || core[0] == '-' {
				// Other blanks, and signs: a matter of taste.
				if core[0] == '+' || core[0] == '-' {
					core = core[1:]
				}
				if core == "" || strings.Trim(core, "0123456789"[:base]) != "" {
					return nil, arRefused
				}
				if i == 4 && strings.Contains(s, "-") && strings.Trim(core, "0") != "" {
					return nil, arRefused // a negative size
				}
				return nil, arEither
			}
			v := int64(0)
			for _, c := range []byte(s) {
				if c < '0' || int(c-'0') >= base {
					return nil, arRefused
				}
				v = v*int64(base) + int64(c-'0')
			}
			vals[i] = v
		}
		name := strings.TrimRight(string(h[:16]), " ")
		name = strings.TrimSuffix(name, "/")
		size := vals[4]
		if size > int64(len(b)-off-60) {
			return nil, arRefused
		}
		n := &node{kind: 'f', mtime: time.Unix(vals[0], 0), uid: int(vals[1]), gid: int(vals[2]), mode: tarMode(vals[3]), data: b[off+60 : off+60+int(size)]}
		if t := vals[3] &^ 0o7777; t != 0 && t != sIFREG {
			verdict = arEither // not a regular file
		}
		switch {
		case name == "":
		case name == "." || name == ".." || strings.Contains(name, "/") || strings.TrimSpace(name) != name:
			verdict = arEither
		default:
			tr[name] = n
		}
		off += 60 + int(size)
		if size%2 == 1 {
			if off == len(b) {
				break // lacks the padding
			}
			off++
		}
	}
	return tr, verdict
}

// checkAr opens an archive and compares it with the model.
func checkAr(t *t, b []byte) {
	want, verdict := modelAr(b)
	t.state(b)
	t.step(1)
	fsys, err := arfs.Open(ra(b))
	if verdict == arRefused {
		if err == nil {
			t.fatal("accepted", "opening a malformed archive succeeds")
		}
		return
	}
	if verdict == arEither {
		if err == nil {
			_, _ = observe(fsys)
		}
		return
	}
	if err != nil {
		t.fatal("refused", "opening a well-formed archive fails: %v", err)
	}
	got, err := observe(fsys)
	if err != nil {
		t.fatal("observe", "%v", err)
	}
	if d := diff(want, got, cmpOpts{noRoot: true}); d != "" {
		t.fatal("diff", "%s", d)
	}
	t.step(4 * len(want))
	for p, n := range want {
		if p == "." {
			continue
		}
		fi, err := fsys.Stat(p)
		if err != nil {
			t.fatal("stat", "Stat(%q): %v", p, err)
		}
		if fi.Name() != p || fi.Size() != int64(len(n.data)) || kindOf(fi.Mode()) != 'f' || fi.Mode()&permBits != n.mode || !fi.ModTime().Equal(n.mtime) {
			t.fatal("stat", "Stat(%q) is %q, %d bytes, %v, %v", p, fi.Name(), fi.Size(), fi.Mode(), fi.ModTime())
		}
		e, ok := fi.Sys().(*arfs.Entry)
		if !ok || e.Uid != int64(n.uid) || e.Gid != int64(n.gid) || e.FileSize != int64(len(n.data)) || e.Timestamp != n.mtime.Unix() {
			t.fatal("stat", "Stat(%q).Sys() is %+v", p, fi.Sys())
		}
		for _, a := range absentNames([]string{p}) {
			if want[a] != nil || strings.TrimSpace(a) != a {
				continue
			}
			if _, err := fsys.Stat(a); !errors.Is(err, fs.ErrNotExist) {
				t.fatal("absent", "Stat(%q) gives %v", a, err)
			}
			if _, err := fsys.Open(a); !errors.Is(err, fs.ErrNotExist) {
				t.fatal("absent", "Open(%q) gives %v", a, err)
			}
		}
		if _, err := fsys.Open(p + "/x"); err == nil {
			t.fatal("absent", "Open(%q) succeeds", p+"/x")
		}
	}
}

var arAlphabet = []arec{
	{name: "a", mtime: "1", uid: "2", gid: "3", mode: "100644", data: []byte("odd")},
	{name: "a/", mtime: "4", uid: "5", gid: "6", mode: "600", data: []byte("even")},
	{name: "b", mtime: "0", uid: "0", gid: "0", mode: "0", data: nil},
	{name: "b/", mtime: "999999999999", uid: "999999", gid: "999999", mode: "104755", data: []byte("x")},
	{name: ".h", mtime: "7", uid: "8", gid: "9", mode: "755", data: []byte("\n")},
	{name: "abcdefghijklmnop", mtime: "10", uid: "11", gid: "12", mode: "107777", data: []byte("!<arch>\n")},
	{name: "abcdefghijklmno/", mtime: "13", uid: "14", gid: "15", mode: "400", data: []byte("`\n")},
	{name: "/", mtime: "0", uid: "0", gid: "0", mode: "0", data: []byte("\x00\x00\x00\x00")},
	{name: "//", mtime: "0", uid: "0", gid: "0", mode: "0", data: []byte("long.o/\n\n")},
	{name: "a b", mtime: "16", uid: "17", gid: "18", mode: "100640", data: pattern(61, 1)},
	{name: "__.SYMDEF", mtime: "19", uid: "20", gid: "21", mode: "100664", data: pattern(60, 1)},
	{name: "\xff", mtime: "22", uid: "23", gid: "24", mode: "100666", data: pattern(59, 1)},
	{name: "-", mtime: "0025", uid: "0026", gid: "0027", mode: "00100604", data: pattern(8, 1)},
}

func runC09(c *ctx) {
	runHugeOpen(c, 'a')
	try := func(space string, b []byte, desc func() string) {
		c.each(space, desc, func(t *t) { checkAr(t, b) })
	}
	rec := func(space string, recs ...arec) {
		s := c.enterRange(space)
		if !c.mine(s) {
			return
		}
		c.one(s, func() string { return arString(recs) }, func(t *t) {
			b := arBytes(recs...)
			checkAr(t, b)
			// What follows the last member.
			checkAr(t, append(b[:len(b):len(b)], '\n'))
			if n := len(recs); n > 0 && len(recs[n-1].data)%2 == 1 {
				checkAr(t, b[:len(b)-1])
			}
			// Without a signature, or with another.
			if len(recs) <= 2 {
				for n := 1; n <= 8; n++ {
					checkAr(t, b[n:])
				}
				checkAr(t, append([]byte("!<thin>\n"), b[8:]...))
				checkAr(t, append([]byte("!<arch>\n"), b...))
			}
		})
	}

	depth := 5
	if c.thorough {
		depth = 6
	}
	for n := 0; n <= depth; n++ {
		eachSeq(len(arAlphabet), n, func(idx []int) {
			var recs []arec
			for _, i := range idx {
				recs = append(recs, arAlphabet[i])
			}
			rec("sequences", recs...)
		})
	}
	// Orders of many members.
	eachPerm(7, func(idx []int) {
		var recs []arec
		for _, i := range idx {
			recs = append(recs, arec{name: string(rune('a'+i)) + "-/.b"[:i%3], mtime: fmt.Sprint(i), uid: "1", gid: "1", mode: "644", data: pattern(i, byte(i))})
		}
		rec("orders", recs...)
	})

	eachTricky(func(names []string) {
		var recs []arec
		for i, name := range names {
			recs = append(recs, arec{name: name, mtime: fmt.Sprint(i), uid: "1", gid: "2", mode: "644", data: []byte(name)})
		}
		rec("tricky-names", recs...)
	})

	z := arAlphabet[4]
	maxSize := 1100
	if c.thorough {
		maxSize = 9000
	}
	for n := 0; n <= maxSize; n++ {
		for _, m := range []int{0, 1} {
			rec("sizes", arec{name: "f", mtime: "1", uid: "1", gid: "1", mode: "644", data: pattern(n, 1)}, z, arec{name: "g", mtime: "1", uid: "1", gid: "1", mode: "644", data: pattern(m, 1)})
		}
	}
	for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<20 + 1} {
		rec("sizes", arec{name: "f", mtime: "1", uid: "1", gid: "1", mode: "644", data: pattern(n, 1)}, z)
	}
	for m := 0; m < 4096; m++ {
		for _, f := range []string{"%o", "%08o", "10%04o"} {
			rec("modes", arec{name: "f", mtime: "1", uid: "1", gid: "1", mode: fmt.Sprintf(f, m), data: []byte("x")}, z)
		}
	}
	var nums []string
	for w := 1; w <= 12; w++ {
		nums = append(nums, strings.Repeat("9", w), "1"+strings.Repeat("0", w-1), strings.Repeat("0", w), strings.Repeat("0", w-1)+"7", strings.Repeat("12", w)[:w])
	}
	for i, x := range nums {
		for j, y := range nums {
			if len(x) <= 6 && len(y) <= 6 {
				rec("numbers", arec{name: "f", mtime: "1", uid: x, gid: y, mode: "644", data: []byte("x")}, z)
			}
			if (i+j)%3 == 0 && len(y) <= 6 {
				rec("numbers", arec{name: "f", mtime: x, uid: y, gid: "1", mode: "644", data: []byte("x")}, z)
			}
		}
	}

	for b := 1; b < 256; b++ {
		for n := 1; n <= 16; n++ {
			s := string([]byte{byte(b)})
			pad := strings.Repeat("n", n-1)
			names := []string{s + pad, pad + s, strings.Repeat(s, n)}
			if n > 2 {
				names = append(names, pad[:n/2]+s+pad[n/2:])
			}
			for _, name := range names {
				rec("names", arec{name: name, mtime: "1", uid: "1", gid: "1", mode: "644", data: []byte("x")}, z)
				if n < 16 {
					rec("names", z, arec{name: name + "/", mtime: "1", uid: "1", gid: "1", mode: "644", data: []byte("x")})
				}
			}
		}
	}
	for _, n := range []int{10, 100, 1000} {
		var recs []arec
		for i := 0; i < n; i++ {
			recs = append(recs, arec{name: fmt.Sprintf("m%d", i*7919%n), mtime: "1", uid: "1", gid: "1", mode: "644", data: pattern(i%5, 1)})
		}
		rec("many", recs...)
	}

	// Every value of every byte of the signature and the headers.
	base := [][]arec{
		{arAlphabet[0], arAlphabet[3], arAlphabet[1]},
		{arAlphabet[5], arAlphabet[4], arAlphabet[9]},
		{arAlphabet[7], arAlphabet[2], arAlphabet[6]},
	}
	for bi, recs := range base {
		b := arBytes(recs...)
		hdr := map[int]bool{}
		for i := 0; i < 8; i++ {
			hdr[i] = true
		}
		off := 8
		for _, r := range recs {
			for i := 0; i < 60; i++ {
				hdr[off+i] = true
			}
			off += len(r.encode())
		}
		for i := range b {
			if !hdr[i] {
				continue
			}
			for v := 0; v < 256; v++ {
				x := append([]byte{}, b...)
				x[i] = byte(v)
				try("bytes", x, func() string { return fmt.Sprintf("archive %d, byte %d = %#x", bi, i, v) })
			}
		}
		for n := 0; n < 8; n++ {
			try("bytes", b[:n], func() string { return fmt.Sprintf("archive %d cut to %d", bi, n) })
		}
	}
	// Field values of the middle member.
	vals := []string{"", "0", "1", "7", "8", "9", "a", "x1", "1x", "0x1", "0o1", "1_0", "1 2", " 1", "-", "+", "-1", "+1", "--1", "-0", "1-", "1.0", "1e1", "\x00", "1\x00", "777777", "999999", "888888", "\t1", "1\t", "1\n", "٣"}
	for i := 0; i < 5; i++ {
		for j := i; j < 5; j++ {
			for _, x := range vals {
				for _, y := range vals {
					if i == j && x != y {
						continue
					}
					f := [5]string{"1", "2", "3", "644", "3"}
					f[i], f[j] = x, y
					m := arec{name: "m", mtime: f[0], uid: f[1], gid: f[2], mode: f[3], size: f[4], data: []byte("xyz")}
					rec("fields", z, m, arAlphabet[0])
				}
			}
		}
	}
}
