package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"
)

// An encoder and a decoder for EROFS images, written from the description of
// the on-disk format (https://docs.kernel.org/filesystems/erofs.html).

var le = binary.LittleEndian

// stat mode bits
const (
	sIFMT  = 0o170000
	sIFREG = 0o100000
	sIFDIR = 0o040000
	sIFLNK = 0o120000
	sIFCHR = 0o020000
	sIFBLK = 0o060000
	sIFIFO = 0o010000
	sIFSOC = 0o140000
)

func statMode(n *node) uint16 {
	m := uint16(n.mode.Perm())
	if n.mode&fs.ModeSetuid != 0 {
		m |= 0o4000
	}
	if n.mode&fs.ModeSetgid != 0 {
		m |= 0o2000
	}
	if n.mode&fs.ModeSticky != 0 {
		m |= 0o1000
	}
	switch n.kind {
	case 'f':
		m |= sIFREG
	case 'd':
		m |= sIFDIR
	case 'l':
		m |= sIFLNK
	case 'c':
		m |= sIFCHR
	case 'b':
		m |= sIFBLK
	case 'p':
		m |= sIFIFO
	case 's':
		m |= sIFSOC
	}
	return m
}

func fileType(kind byte) uint8 {
	return map[byte]uint8{'f': 1, 'd': 2, 'c': 3, 'b': 4, 'p': 5, 's': 6, 'l': 7}[kind]
}

func modeFromStat(m uint16) (byte, fs.FileMode) {
	mode := fs.FileMode(m & 0o777)
	if m&0o4000 != 0 {
		mode |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		mode |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		mode |= fs.ModeSticky
	}
	kinds := map[uint16]byte{sIFREG: 'f', sIFDIR: 'd', sIFLNK: 'l', sIFCHR: 'c', sIFBLK: 'b', sIFIFO: 'p', sIFSOC: 's'}
	return kinds[m&sIFMT], mode
}

// edirent is a directory entry to be encoded.
type edirent struct {
	name string
	nid  uint64
	typ  uint8
}

// eopts configure the encoder.
type eopts struct {
	bits     uint8 // block size
	metaBlk  uint32
	slack    int                         // slots left free before the first inode
	compact  func(p string) bool         // compact inode?
	inline   func(p string) bool         // tail-packed?
	split    func(p string, n int) []int // sizes of the directory blocks, in entries
	padLast  int                         // NULs at the end of the last directory block (-1: to the end of the block)
	garbage  byte                        // what follows the terminating NUL in padding
	alias    map[string]string           // hard links: path -> path
	rootLast bool                        // put the root inode last
	sum      bool                        // checksum
	build    time.Time                   // build time, used by compact inodes
	raw      map[string][]byte           // raw directory data
	nlink    func(p string) uint32
	gap      int  // free slots between inodes
	reverse  bool // inodes in reverse order
	noDots   bool
	untyped  func(p string) bool // the entry doesn't tell what it is

	// Sparse images only: how many slots, and data blocks, are skipped before
	// an inode and its data.
	farSlots, farBlks func(p string) int64
	trail             int64 // blocks at the end
}

// fileType is the type that the directory entry of a path has.
func (o eopts) fileType(p string, n *node) uint8 {
	if o.untyped != nil && o.untyped(p) {
		return 0
	}
	return fileType(n.kind)
}

func roundTo(x, a int64) int64 { return (x + a - 1) / a * a }

type elayout struct {
	p      string
	n      *node
	comp   bool
	inl    bool
	data   []byte
	size   uint64
	off    int64 // relative to the metadata area
	blk    uint32
	isize  int64
	nlinks uint32
}

// encodeDir encodes the entries of a directory, split into blocks.
func encodeDir(es []edirent, split []int, bs int, padLast int, garbage byte) ([]byte, bool) {
	var out []byte
	if len(es) == 0 {
		return nil, true
	}
	for bi, k := range split {
		blkEs := es[:k]
		es = es[k:]
		b := make([]byte, 12*k)
		off := 12 * k
		for i, e := range blkEs {
			le.PutUint64(b[12*i:], e.nid)
			le.PutUint16(b[12*i+8:], uint16(off))
			b[12*i+10] = e.typ
			off += len(e.name)
		}
		for _, e := range blkEs {
			b = append(b, e.name...)
		}
		if len(b) > bs {
			return nil, false
		}
		pad := 0
		if bi < len(split)-1 || padLast < 0 {
			pad = bs - len(b)
		} else {
			pad = min(padLast, bs-len(b))
		}
		for i := 0; i < pad; i++ {
			if i == 0 {
				b = append(b, 0)
			} else {
				b = append(b, garbage)
			}
		}
		out = append(out, b...)
	}
	return out, true
}

// greedySplit fills each block as far as possible.
func greedySplit(es []edirent, bs int) []int {
	var out []int
	n, size := 0, 0
	for _, e := range es {
		if size+12+len(e.name) > bs {
			out = append(out, n)
			n, size = 0, 0
		}
		n++
		size += 12 + len(e.name)
	}
	return append(out, n)
}

// sparseImg is an image that is mostly holes.
type sparseImg struct {
	size  int64
	segs  []seg // in order
	calls int
}

type seg struct {
	off int64
	b   []byte
}

func (s *sparseImg) ReadAt(p []byte, off int64) (int, error) {
	s.calls++
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= s.size {
		return 0, io.EOF
	}
	var err error
	if int64(len(p)) > s.size-off {
		p, err = p[:s.size-off], io.EOF
	}
	clear(p)
	i := sort.Search(len(s.segs), func(i int) bool { return s.segs[i].off+int64(len(s.segs[i].b)) > off })
	for ; i < len(s.segs) && s.segs[i].off < off+int64(len(p)); i++ {
		if g := s.segs[i]; g.off >= off {
			copy(p[g.off-off:], g.b)
		} else {
			copy(p, g.b[off-g.off:])
		}
	}
	return len(p), err
}

// buildErofs encodes an image. It returns the inode numbers by path.
func buildErofs(tr tree, o eopts) ([]byte, map[string]uint64, error) {
	img, nids, err := encodeErofs(tr, o, false)
	if err != nil {
		return nil, nil, err
	}
	return img.segs[0].b, nids, nil
}

// encodeErofs encodes an image as one segment, or a segment for each piece.
func encodeErofs(tr tree, o eopts, sparse bool) (*sparseImg, map[string]uint64, error) {
	bs := int64(1) << o.bits
	if o.metaBlk == 0 {
		o.metaBlk = uint32(roundTo(1024+128, bs) / bs)
	}
	var order []string
	for _, p := range tr.paths() {
		if o.alias[p] == "" {
			order = append(order, p)
		}
	}
	if o.rootLast {
		order = append(order[1:], order[0])
	}
	if o.reverse {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	lay := map[string]*elayout{}
	canon := func(p string) string {
		if a := o.alias[p]; a != "" {
			return a
		}
		return p
	}
	nids := map[string]uint64{}
	// Two passes: sizes do not depend on inode numbers.
	dirData := func(p string) ([]byte, error) {
		if b, ok := o.raw[p]; ok {
			return b, nil
		}
		es := []edirent{{".", nids[p], 2}, {"..", nids[path.Dir(p)], 2}}
		if o.noDots {
			es = nil
		}
		for _, k := range tr.kids(p) {
			c := canon(path.Join(p, k))
			es = append(es, edirent{k, nids[c], o.fileType(path.Join(p, k), tr[c])})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
		var split []int
		if o.split != nil {
			split = o.split(p, len(es))
		}
		if split == nil {
			split = greedySplit(es, int(bs))
		}
		b, ok := encodeDir(es, split, int(bs), o.padLast, o.garbage)
		if !ok {
			return nil, errors.New("split does not fit")
		}
		return b, nil
	}
	meta := int64(o.slack) * 32
	data := int64(0)
	for _, p := range order {
		n := tr[p]
		l := &elayout{p: p, n: n, isize: 64}
		if o.compact != nil && o.compact(p) {
			l.comp, l.isize = true, 32
		}
		switch n.kind {
		case 'f':
			l.data = n.data
		case 'l':
			l.data = []byte(n.target)
		case 'd':
			b, err := dirData(p)
			if err != nil {
				return nil, nil, err
			}
			l.data = b
		}
		l.size = uint64(len(l.data))
		if o.farSlots != nil {
			meta += 32 * o.farSlots(p)
		}
		if o.farBlks != nil {
			data += o.farBlks(p)
		}
		tail := int64(l.size) % bs
		l.inl = o.inline != nil && o.inline(p) && tail != 0 && tail <= bs-l.isize
		if l.inl {
			// The tail may not cross a block boundary.
			start := meta + l.isize
			if start/bs != (start+tail-1)/bs {
				meta = roundTo(start, bs) - l.isize
				for meta%32 != 0 || (meta+l.isize)%bs+tail > bs {
					meta = roundTo(meta+1, 32)
				}
			}
		}
		l.off = meta
		nids[p] = uint64(meta / 32)
		meta += l.isize
		if l.inl {
			meta += tail
			l.blk = uint32(data)
			data += (int64(l.size) - tail) / bs
		} else {
			l.blk = uint32(data)
			data += roundTo(int64(l.size), bs) / bs
		}
		meta = roundTo(meta, 32) + int64(o.gap)*32
		lay[p] = l
	}
	metaBlocks := roundTo(meta, bs) / bs
	dataBlk := int64(o.metaBlk) + metaBlocks
	out := &sparseImg{size: (dataBlk + data + o.trail) * bs}
	if out.size/bs > 1<<32-1 || data < 0 || meta < 0 || out.size < 0 {
		return nil, nil, errors.New("too large")
	}
	var img []byte
	at := func(off, n int64) []byte {
		if sparse {
			b := make([]byte, n)
			if n > 0 {
				out.segs = append(out.segs, seg{off, b})
			}
			return b
		}
		return img[off : off+n]
	}
	if !sparse {
		img = make([]byte, out.size)
		out.segs = []seg{{0, img}}
		for i := range img {
			if o.garbage != 0 && int64(i) >= roundTo(1152, bs) {
				img[i] = o.garbage
			}
		}
	}
	for _, p := range order {
		l := lay[p]
		if l.n.kind == 'd' {
			b, err := dirData(p)
			if err != nil {
				return nil, nil, err
			}
			l.data = b
		}
		l.nlinks = 1
		if o.nlink != nil {
			l.nlinks = o.nlink(p)
		}
		off := int64(o.metaBlk)*bs + l.off
		b := at(off, l.isize)
		for i := range b {
			b[i] = 0
		}
		format := uint16(0)
		if !l.comp {
			format |= 1
		}
		if l.inl {
			format |= 2 << 1
		}
		raw := uint32(0)
		if int64(l.size) >= bs || !l.inl {
			raw = uint32(dataBlk) + l.blk
		}
		le.PutUint16(b[0:], format)
		le.PutUint16(b[4:], statMode(l.n))
		if l.comp {
			le.PutUint16(b[6:], uint16(l.nlinks))
			le.PutUint32(b[8:], uint32(l.size))
			le.PutUint32(b[16:], raw)
			le.PutUint32(b[20:], uint32(nids[p]))
			le.PutUint16(b[24:], uint16(l.n.uid))
			le.PutUint16(b[26:], uint16(l.n.gid))
		} else {
			le.PutUint64(b[8:], l.size)
			le.PutUint32(b[16:], raw)
			le.PutUint32(b[20:], uint32(nids[p]))
			le.PutUint32(b[24:], uint32(l.n.uid))
			le.PutUint32(b[28:], uint32(l.n.gid))
			le.PutUint64(b[32:], uint64(l.n.mtime.Unix()))
			le.PutUint32(b[40:], uint32(l.n.mtime.Nanosecond()))
			le.PutUint32(b[44:], l.nlinks)
		}
		main := l.data
		if l.inl {
			tail := int64(l.size) % bs
			copy(at(off+l.isize, tail), l.data[int64(l.size)-tail:])
			main = l.data[:int64(l.size)-tail]
		}
		copy(at((dataBlk+int64(l.blk))*bs, int64(len(main))), main)
	}
	if nids["."] > 0xffff {
		return nil, nil, errors.New("root out of range")
	}
	sb := at(1024, 128)
	le.PutUint32(sb[0:], 0xe0f5e1e2)
	sb[12] = o.bits
	le.PutUint16(sb[14:], uint16(nids["."]))
	le.PutUint64(sb[16:], uint64(len(order)))
	le.PutUint64(sb[24:], uint64(o.build.Unix()))
	le.PutUint32(sb[32:], uint32(o.build.Nanosecond()))
	le.PutUint32(sb[36:], uint32(out.size/bs))
	le.PutUint32(sb[40:], o.metaBlk)
	if o.sum && !sparse {
		le.PutUint32(sb[8:], 1)
		le.PutUint32(sb[4:], erofsSum(img))
	}
	for p, a := range o.alias {
		nids[p] = nids[a]
	}
	sort.Slice(out.segs, func(i, j int) bool { return out.segs[i].off < out.segs[j].off })
	return out, nids, nil
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func crcOf(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }

// erofsSum computes the superblock checksum of an image.
func erofsSum(img []byte) uint32 {
	bs := int64(1) << img[1024+12]
	end := roundTo(1025, bs)
	b := append([]byte{}, img[1024:min(end, int64(len(img)))]...)
	copy(b[4:8], []byte{0, 0, 0, 0})
	return ^crc32.Checksum(b, castagnoli)
}

// decodeErofs decodes and validates an image written by erofs.Create. It
// returns the first violation of the on-disk format.
func decodeErofs(img []byte, padded bool) (tree, error) {
	get := func(off, n int64) ([]byte, error) {
		if off < 0 || n < 0 || off+n > int64(len(img)) {
			if !padded && off >= 0 && n >= 0 {
				// Destinations other than regular files end with the last write.
				b := make([]byte, n)
				if off < int64(len(img)) {
					copy(b, img[off:])
				}
				return b, nil
			}
			return nil, fmt.Errorf("bytes [%d,%d) are outside of the image of %d bytes", off, off+n, len(img))
		}
		return img[off : off+n], nil
	}
	sb, err := get(1024, 128)
	if err != nil {
		return nil, err
	}
	if le.Uint32(sb) != 0xe0f5e1e2 {
		return nil, fmt.Errorf("magic is %#x", le.Uint32(sb))
	}
	bits := sb[12]
	if bits != 12 {
		return nil, fmt.Errorf("block size bits are %d", bits)
	}
	bs := int64(1) << bits
	if len(img) < int(bs) {
		return nil, errors.New("image is shorter than a block")
	}
	if f := le.Uint32(sb[80:]); f != 0 {
		return nil, fmt.Errorf("incompatible features %#x", f)
	}
	// The checksum must be right even if it is not declared in FeatureCompat,
	// as it is recorded.
	if got, want := le.Uint32(sb[4:]), erofsSum(img); got != want && (le.Uint32(sb[8:])&1 != 0 || got != 0) {
		return nil, fmt.Errorf("checksum is %#x, want %#x", got, want)
	}
	rootNid := uint64(le.Uint16(sb[14:]))
	inodes := le.Uint64(sb[16:])
	blocks := int64(le.Uint32(sb[36:]))
	metaBlk := int64(le.Uint32(sb[40:]))
	if padded && int64(len(img)) != blocks*bs {
		return nil, fmt.Errorf("the file has %d bytes, the superblock says %d blocks", len(img), blocks)
	}
	if !padded && int64(len(img)) > blocks*bs {
		return nil, fmt.Errorf("the image has %d bytes, the superblock says %d blocks", len(img), blocks)
	}
	if metaBlk >= blocks {
		return nil, fmt.Errorf("metadata block address is %d of %d", metaBlk, blocks)
	}

	type span struct {
		lo, hi int64
		what   string
	}
	var spans []span
	claim := func(lo, hi int64, what string) error {
		if hi > blocks*bs {
			return fmt.Errorf("%s at [%d,%d) is beyond the %d blocks of the image", what, lo, hi, blocks)
		}
		if lo < hi {
			spans = append(spans, span{lo, hi, what})
		}
		return nil
	}
	if err := claim(0, 1024+128, "superblock"); err != nil {
		return nil, err
	}
	got := tree{}
	seen := map[uint64]string{}
	type ino struct {
		nid, parent uint64
		p           string
		typ         uint8
	}
	todo := []ino{{rootNid, rootNid, ".", 2}}
	for len(todo) > 0 {
		it := todo[0]
		todo = todo[1:]
		if prev, ok := seen[it.nid]; ok {
			return nil, fmt.Errorf("%q and %q share inode %d", prev, it.p, it.nid)
		}
		seen[it.nid] = it.p
		off := metaBlk*bs + int64(it.nid)*32
		b, err := get(off, 32)
		if err != nil {
			return nil, fmt.Errorf("inode of %q: %w", it.p, err)
		}
		format := le.Uint16(b)
		isize := int64(32)
		if format&1 == 1 {
			isize = 64
			if b, err = get(off, 64); err != nil {
				return nil, fmt.Errorf("inode of %q: %w", it.p, err)
			}
		}
		if format>>4 != 0 {
			return nil, fmt.Errorf("inode of %q has reserved format bits: %#x", it.p, format)
		}
		if le.Uint16(b[2:]) != 0 {
			return nil, fmt.Errorf("inode of %q has extended attributes", it.p)
		}
		kind, mode := modeFromStat(le.Uint16(b[4:]))
		n := &node{kind: kind, mode: mode}
		var size int64
		raw := int64(le.Uint32(b[16:]))
		if isize == 32 {
			size = int64(le.Uint32(b[8:]))
			n.uid, n.gid = int(le.Uint16(b[24:])), int(le.Uint16(b[26:]))
			n.mtime = time.Unix(int64(le.Uint64(sb[24:])), int64(le.Uint32(sb[32:])))
			if le.Uint16(b[6:]) == 0 {
				return nil, fmt.Errorf("inode of %q has no links", it.p)
			}
		} else {
			size = int64(le.Uint64(b[8:]))
			n.uid, n.gid = int(le.Uint32(b[24:])), int(le.Uint32(b[28:]))
			n.mtime = time.Unix(int64(le.Uint64(b[32:])), int64(le.Uint32(b[40:])))
			if le.Uint32(b[40:]) >= 1_000_000_000 {
				return nil, fmt.Errorf("inode of %q has nanoseconds %d", it.p, le.Uint32(b[40:]))
			}
			if le.Uint32(b[44:]) == 0 {
				return nil, fmt.Errorf("inode of %q has no links", it.p)
			}
		}
		if size < 0 {
			return nil, fmt.Errorf("inode of %q has size %d", it.p, size)
		}
		if kind == 0 || fileType(kind) != it.typ {
			return nil, fmt.Errorf("inode of %q has type %c, its directory entry type %d", it.p, max(kind, '?'), it.typ)
		}
		if err := claim(off, off+isize, "inode of "+it.p); err != nil {
			return nil, err
		}
		var data []byte
		// segments of the data: (offset, length)
		layout := format >> 1 & 7
		switch layout {
		case 0: // plain
			if size > 0 {
				if err := claim(raw*bs, raw*bs+roundTo(size, bs), "data of "+it.p); err != nil {
					return nil, err
				}
				if data, err = get(raw*bs, size); err != nil {
					return nil, fmt.Errorf("data of %q: %w", it.p, err)
				}
			}
		case 2: // inline
			tail := size % bs
			if tail == 0 {
				return nil, fmt.Errorf("inode of %q is inline without a tail (size %d)", it.p, size)
			}
			if full := size - tail; full > 0 {
				if err := claim(raw*bs, raw*bs+full, "data of "+it.p); err != nil {
					return nil, err
				}
				d, err := get(raw*bs, full)
				if err != nil {
					return nil, fmt.Errorf("data of %q: %w", it.p, err)
				}
				data = append(data, d...)
			}
			start := off + isize
			if start/bs != (start+tail-1)/bs {
				return nil, fmt.Errorf("inline data of %q crosses a block boundary: [%d,%d)", it.p, start, start+tail)
			}
			if err := claim(start, start+tail, "inline data of "+it.p); err != nil {
				return nil, err
			}
			d, err := get(start, tail)
			if err != nil {
				return nil, fmt.Errorf("inline data of %q: %w", it.p, err)
			}
			data = append(data, d...)
		default:
			return nil, fmt.Errorf("inode of %q has data layout %d", it.p, layout)
		}
		got[it.p] = n
		switch kind {
		case 'f':
			n.data = data
		case 'l':
			if size >= bs {
				return nil, fmt.Errorf("target of link %q has %d bytes", it.p, size)
			}
			n.target = string(data)
		case 'd':
			if size == 0 {
				return nil, fmt.Errorf("directory %q is empty on disk", it.p)
			}
			last := ""
			dots := 0
			for bo := int64(0); bo < size; bo += bs {
				block := data[bo:min(bo+bs, size)]
				if len(block) < 12 {
					return nil, fmt.Errorf("directory %q has a block of %d bytes", it.p, len(block))
				}
				off0 := int(le.Uint16(block[8:]))
				if off0 == 0 || off0%12 != 0 || off0 > len(block) {
					return nil, fmt.Errorf("directory %q has first name offset %d", it.p, off0)
				}
				k := off0 / 12
				for i := 0; i < k; i++ {
					e := block[12*i:]
					nid := le.Uint64(e)
					a := int(le.Uint16(e[8:]))
					typ := e[10]
					z := len(block)
					if i+1 < k {
						z = int(le.Uint16(block[12*i+20:]))
					}
					if a < off0 || a > z || z > len(block) {
						return nil, fmt.Errorf("directory %q has a name at [%d,%d)", it.p, a, z)
					}
					name := string(block[a:z])
					if i+1 == k {
						if j := strings.IndexByte(name, 0); j >= 0 {
							name = name[:j]
						}
					}
					if name == "" || len(name) > 255 || strings.ContainsAny(name, "/\x00") {
						return nil, fmt.Errorf("directory %q has the name %q", it.p, trunc(name, 80))
					}
					if (bo > 0 || i > 0) && name <= last {
						return nil, fmt.Errorf("directory %q: %q is not in order after %q", it.p, trunc(name, 80), trunc(last, 80))
					}
					last = name
					switch name {
					case ".", "..":
						dots++
						want := it.nid
						if name == ".." {
							want = it.parent
						}
						if nid != want || typ != 2 {
							return nil, fmt.Errorf("directory %q: %q leads to inode %d (type %d), want %d", it.p, name, nid, typ, want)
						}
					default:
						todo = append(todo, ino{nid, it.nid, path.Join(it.p, name), typ})
					}
				}
			}
			if dots != 2 {
				return nil, fmt.Errorf("directory %q has %d of the entries '.' and '..'", it.p, dots)
			}
		default:
			if size != 0 {
				return nil, fmt.Errorf("device %q has %d bytes", it.p, size)
			}
		}
		if len(got) > 10*maxNodes {
			return nil, errors.New("too many inodes")
		}
	}
	if uint64(len(seen)) != inodes {
		return nil, fmt.Errorf("the superblock says %d inodes, there are %d", inodes, len(seen))
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if spans[i].lo < spans[i-1].hi {
			return nil, fmt.Errorf("%s [%d,%d) overlaps %s [%d,%d)", spans[i].what, spans[i].lo, spans[i].hi, spans[i-1].what, spans[i-1].lo, spans[i-1].hi)
		}
	}
	end := spans[len(spans)-1].hi
	if roundTo(end, bs) != blocks*bs {
		return nil, fmt.Errorf("the superblock says %d blocks, %d are used", blocks, roundTo(end, bs)/bs)
	}
	return got, nil
}
