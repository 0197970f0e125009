package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// trec is a record of a tar archive, encoded from the format's specification.
type trec struct {
	name    string
	typ     byte // '0', '\0', '1', '2', '3', '4', '5', '6', '7', 'g', 'S'
	mode    int64
	uid     int
	gid     int
	mtime   int64
	nsec    int // needs format 'p'
	link    string
	data    []byte // contents; for sparse files the expanded contents
	format  byte   // 'u' ustar, 'p' pax, 'g' gnu, '7' v7
	uname   string
	gname   string
	pax     map[string]string
	sparse  string // "", "gnu", "0.0", "0.1", "1.0"
	frags   []frag // data fragments of a sparse file
	devices [2]int64
	// longPax puts every field that can be into the pax header.
	allPax bool
	raw    []byte // the encoded record
}

type frag struct{ off, n int64 }

func (r trec) String() string {
	s := fmt.Sprintf("%c(%c) %q mode %o %d:%d @%d.%09d", max(r.typ, '0'), r.format, trunc(r.name, 120), r.mode, r.uid, r.gid, r.mtime, r.nsec)
	if r.typ == '1' || r.typ == '2' {
		s += fmt.Sprintf(" -> %q", trunc(r.link, 120))
	}
	if len(r.data) > 0 {
		s += fmt.Sprintf(" [%d bytes]", len(r.data))
	}
	if r.sparse != "" {
		s += fmt.Sprintf(" sparse %s %v", r.sparse, r.frags)
	}
	if len(r.pax) > 0 {
		s += fmt.Sprintf(" pax %q", r.pax)
	}
	return s
}

func recsString(recs []trec) string {
	var b strings.Builder
	for i, r := range recs {
		fmt.Fprintf(&b, "%d. %v\n", i+1, r)
	}
	return b.String()
}

const blk = 512

func putStr(b []byte, s string) { copy(b, s) }

// octal writes an octal number, NUL terminated; false if it does not fit.
func octal(b []byte, v int64) bool {
	if v < 0 {
		return false
	}
	s := fmt.Sprintf("%0*o", len(b)-1, v)
	if len(s) > len(b)-1 {
		return false
	}
	copy(b, s)
	return true
}

func base256(b []byte, v int64) {
	u := v
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(u)
		u >>= 8
	}
	b[0] |= 0x80
	if v < 0 {
		b[0] = 0xff
	} else {
		b[0] = 0x80 | b[0]&0x7f
	}
}

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	s := ""
	for {
		s = fmt.Sprintf("%d %s=%s\n", n, k, v)
		if len(s) == n {
			return s
		}
		n = len(s)
	}
}

func checksum(h []byte) {
	copy(h[148:156], "        ")
	sum := 0
	for _, c := range h {
		sum += int(c)
	}
	copy(h[148:156], fmt.Sprintf("%06o\x00 ", sum))
}

func padBlk(b []byte) []byte {
	if r := len(b) % blk; r != 0 {
		b = append(b, make([]byte, blk-r)...)
	}
	return b
}

// metaRec encodes an auxiliary record (pax header, GNU long name).
func metaRec(typ byte, name string, body []byte, format byte) []byte {
	h := make([]byte, blk)
	putStr(h[0:100], name)
	octal(h[100:108], 0o644)
	octal(h[108:116], 0)
	octal(h[116:124], 0)
	octal(h[124:136], int64(len(body)))
	octal(h[136:148], 0)
	h[156] = typ
	magic(h, format)
	checksum(h)
	return append(h, padBlk(append([]byte{}, body...))...)
}

func magic(h []byte, format byte) {
	switch format {
	case 'u', 'p':
		copy(h[257:], "ustar\x0000")
	case 'g':
		copy(h[257:], "ustar  \x00")
	}
}

// encode returns the blocks of a record.
func (r trec) encode() []byte {
	if r.raw != nil {
		return r.raw
	}
	var out []byte
	pax := map[string]string{}
	for k, v := range r.pax {
		pax[k] = v
	}

	if r.typ == 'g' {
		var body []byte
		for _, k := range sortedKeys(pax) {
			body = append(body, paxRecord(k, pax[k])...)
		}
		return metaRec('g', "pax_global_header", body, 'u')
	}

	h := make([]byte, blk)
	name, link := r.name, r.link

	// Physical data.
	data := r.data
	realSize := int64(len(r.data))
	if r.sparse != "" {
		data = nil
		for _, f := range r.frags {
			data = append(data, r.data[f.off:f.off+f.n]...)
		}
		switch r.sparse {
		case "0.0", "0.1":
			pax["GNU.sparse.size"] = fmt.Sprint(realSize)
			pax["GNU.sparse.numblocks"] = fmt.Sprint(len(r.frags))
			if r.sparse == "0.1" {
				var m []string
				for _, f := range r.frags {
					m = append(m, fmt.Sprint(f.off), fmt.Sprint(f.n))
				}
				pax["GNU.sparse.map"] = strings.Join(m, ",")
				pax["GNU.sparse.name"] = name
				name = "GNUSparseFile.1/x"
			}
		case "1.0":
			pax["GNU.sparse.major"] = "1"
			pax["GNU.sparse.minor"] = "0"
			pax["GNU.sparse.name"] = name
			pax["GNU.sparse.realsize"] = fmt.Sprint(realSize)
			name = "GNUSparseFile.1/x"
			m := fmt.Sprintf("%d\n", len(r.frags))
			for _, f := range r.frags {
				m += fmt.Sprintf("%d\n%d\n", f.off, f.n)
			}
			data = append(padBlk([]byte(m)), data...)
		}
	}

	ascii := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 || s[i] == 0 {
				return false
			}
		}
		return true
	}

	// Names.
	switch {
	case r.format == 'p' && (len(name) > 100 || !ascii(name) || r.allPax):
		pax["path"] = name
		putStr(h[0:100], asciiOnly(name))
	case len(name) <= 100:
		putStr(h[0:100], name)
	case r.format == 'g':
		out = append(out, metaRec('L', "././@LongLink", append([]byte(name), 0), 'g')...)
		putStr(h[0:100], name)
	default:
		// ustar prefix.
		i := len(name) - 101
		if i < 0 {
			i = 0
		}
		j := strings.IndexByte(name[i:], '/')
		if j < 0 || i+j > 155 {
			pax["path"] = name
			putStr(h[0:100], name)
		} else {
			putStr(h[345:500], name[:i+j])
			putStr(h[0:100], name[i+j+1:])
		}
	}
	switch {
	case r.format == 'p' && (len(link) > 100 || !ascii(link) || (r.allPax && link != "")):
		pax["linkpath"] = link
		putStr(h[157:257], asciiOnly(link))
	case len(link) <= 100:
		putStr(h[157:257], link)
	case r.format == 'g':
		out = append(out, metaRec('K', "././@LongLink", append([]byte(link), 0), 'g')...)
		putStr(h[157:257], link)
	default:
		pax["linkpath"] = link
		putStr(h[157:257], link)
	}

	num := func(lo, hi int, v int64, key string) {
		if r.allPax && key != "" {
			pax[key] = fmt.Sprint(v)
			octal(h[lo:hi], 0)
			return
		}
		if octal(h[lo:hi], v) {
			return
		}
		if r.format == 'g' {
			base256(h[lo:hi], v)
			return
		}
		pax[key] = fmt.Sprint(v)
		octal(h[lo:hi], 0)
	}
	num(100, 108, r.mode, "")
	num(108, 116, int64(r.uid), "uid")
	num(116, 124, int64(r.gid), "gid")
	size := int64(len(data))
	if r.typ != '0' && r.typ != 0 && r.typ != 'S' && r.typ != '7' {
		size, data = 0, nil
	}
	octal(h[124:136], size)
	if r.nsec != 0 || r.mtime < 0 && r.format == 'p' {
		pax["mtime"] = paxTime(r.mtime, r.nsec)
		octal(h[136:148], max(r.mtime, 0))
	} else {
		num(136, 148, r.mtime, "mtime")
	}
	h[156] = r.typ
	magic(h, r.format)
	if r.format != '7' {
		putStr(h[265:297], r.uname)
		putStr(h[297:329], r.gname)
	}
	if r.typ == '3' || r.typ == '4' {
		octal(h[329:337], r.devices[0])
		octal(h[337:345], r.devices[1])
	}

	var ext []byte
	if r.sparse == "gnu" {
		h[156] = 'S'
		copy(h[257:], "ustar  \x00")
		put := func(b []byte, f frag) {
			octal(b[0:12], f.off)
			octal(b[12:24], f.n)
		}
		fr := r.frags
		for i := 0; i < 4 && len(fr) > 0; i++ {
			put(h[386+24*i:], fr[0])
			fr = fr[1:]
		}
		if len(fr) > 0 {
			h[482] = 1
		}
		octal(h[483:495], realSize)
		for len(fr) > 0 {
			e := make([]byte, blk)
			for i := 0; i < 21 && len(fr) > 0; i++ {
				put(e[24*i:], fr[0])
				fr = fr[1:]
			}
			if len(fr) > 0 {
				e[504] = 1
			}
			ext = append(ext, e...)
		}
	}
	checksum(h)

	if len(pax) > 0 {
		var body []byte
		if r.sparse == "0.0" {
			body = append(body, paxRecord("GNU.sparse.size", pax["GNU.sparse.size"])...)
			body = append(body, paxRecord("GNU.sparse.numblocks", pax["GNU.sparse.numblocks"])...)
			for _, f := range r.frags {
				body = append(body, paxRecord("GNU.sparse.offset", fmt.Sprint(f.off))...)
				body = append(body, paxRecord("GNU.sparse.numbytes", fmt.Sprint(f.n))...)
			}
			delete(pax, "GNU.sparse.size")
			delete(pax, "GNU.sparse.numblocks")
		}
		for _, k := range sortedKeys(pax) {
			body = append(body, paxRecord(k, pax[k])...)
		}
		out = append(out, metaRec('x', "PaxHeaders.0/x", body, 'p')...)
	}
	out = append(out, h...)
	out = append(out, ext...)
	return append(out, padBlk(append([]byte{}, data...))...)
}

func asciiOnly(s string) string {
	b := []byte(trunc0(s, 100))
	for i := range b {
		if b[i] >= 0x80 || b[i] == 0 {
			b[i] = '_'
		}
	}
	return string(b)
}

func trunc0(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func paxTime(sec int64, nsec int) string {
	if nsec == 0 {
		return fmt.Sprint(sec)
	}
	neg := ""
	if sec < 0 {
		// sec + nsec/1e9 = -(|sec| - nsec/1e9)
		neg = "-"
		sec, nsec = -sec-1, 1_000_000_000-nsec
	}
	return strings.TrimRight(fmt.Sprintf("%s%d.%09d", neg, sec, nsec), "0")
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// tarBytes encodes an archive with its end marker.
func tarBytes(recs ...trec) []byte {
	var b bytes.Buffer
	for _, r := range recs {
		b.Write(r.encode())
	}
	b.Write(make([]byte, 2*blk))
	return b.Bytes()
}

// arec is a member of an ar archive.
type arec struct {
	name  string // as written into the name field
	mtime string
	uid   string
	gid   string
	mode  string
	size  string // default: the length of data
	data  []byte
}

func (r arec) String() string {
	return fmt.Sprintf("%q mtime %q %q:%q mode %q size %q [%d bytes]", r.name, r.mtime, r.uid, r.gid, r.mode, r.size, len(r.data))
}

func arString(recs []arec) string {
	var b strings.Builder
	for i, r := range recs {
		fmt.Fprintf(&b, "%d. %v\n", i+1, r)
	}
	return b.String()
}

func (r arec) encode() []byte {
	size := r.size
	if size == "" {
		size = fmt.Sprint(len(r.data))
	}
	field := func(s string, n int) string {
		if len(s) > n {
			panic("field too wide: " + s)
		}
		return s + strings.Repeat(" ", n-len(s))
	}
	h := field(r.name, 16) + field(r.mtime, 12) + field(r.uid, 6) + field(r.gid, 6) + field(r.mode, 8) + field(size, 10) + "`\n"
	out := append([]byte(h), r.data...)
	if len(r.data)%2 == 1 {
		out = append(out, '\n')
	}
	return out
}

func arBytes(recs ...arec) []byte {
	b := []byte("!<arch>\n")
	for _, r := range recs {
		b = append(b, r.encode()...)
	}
	return b
}
