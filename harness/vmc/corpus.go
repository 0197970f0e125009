package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/internal/vrt"
	"github.com/dpeckett/archivefs/tarfs"
)

// archive is a small archive of the corpus.
type archive struct {
	name   string
	format byte // 't', 'e', 'a'
	b      []byte
	recs   []trec
	ars    []arec
	opts   eopts
	nids   map[string]uint64
	tr     tree
	inodes bool // used by the lower-level interface
}

// how tells how the archive is opened.
func (a archive) how() byte {
	if a.inodes {
		return 'i'
	}
	return a.format
}

// openArchive opens an archive of any format.
func openArchive(format byte, r io.ReaderAt) (fs.FS, error) {
	var fsys fs.FS
	var err error
	switch format {
	case 't':
		var f *tarfs.FS
		if f, err = tarfs.Open(r); err == nil {
			fsys = f
		}
	case 'e':
		var f *erofs.Filesystem
		if f, err = erofs.Open(r); err == nil {
			fsys = f
		}
	case 'i':
		var f *inodeFS
		if f, err = openInodes(r); err == nil {
			fsys = f
		}
	default:
		var f *arfs.FS
		if f, err = arfs.Open(r); err == nil {
			fsys = f
		}
	}
	return fsys, err
}

func tarArchive(name string, recs ...trec) archive {
	return archive{name: "tar " + name, format: 't', b: tarBytes(recs...), recs: recs}
}

func erofsArchive(name string, tr tree, o eopts) archive {
	b, nids, err := buildErofs(tr, o)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return archive{name: "erofs " + name, format: 'e', b: b, opts: o, nids: nids, tr: tr}
}

func arArchive(name string, recs ...arec) archive {
	return archive{name: "ar " + name, format: 'a', b: arBytes(recs...), ars: recs}
}

// corpus returns small archives that together use every feature.
func corpus() []archive {
	var out []archive
	long := strings.Repeat("long/", 25) + "name"
	holes := append(append([]byte("ab"), make([]byte, 1500)...), "cdefg"...)
	out = append(out,
		tarArchive("empty"),
		tarArchive("basic",
			trec{name: "d/", typ: '5', mode: 0o750, format: 'u', uname: "u", gname: "g", uid: 5, gid: 6, mtime: 7},
			trec{name: "d/f", typ: '0', mode: 0o4644, format: 'u', data: pattern(700, 1)},
			trec{name: "empty", typ: '0', mode: 0o600, format: '7'},
			trec{name: "x/y/z", typ: 0, mode: 0o604, format: '7', data: pattern(512, 2)},
			trec{name: "d/l", typ: '2', mode: 0o777, link: "../x/y", format: 'u'},
		),
		tarArchive("links",
			trec{name: "h", typ: '1', link: "g", format: 'u'},
			trec{name: "g", typ: '1', link: "d/f", format: 'u'},
			trec{name: "d/f", typ: '0', mode: 0o644, format: 'u', data: []byte("file")},
			trec{name: "l", typ: '2', link: "d", format: 'u'},
			trec{name: "d/m", typ: '2', link: "/l/f", format: 'u'},
			trec{name: "c", typ: '2', link: "c2", format: 'u'},
			trec{name: "c2", typ: '2', link: "c", format: 'u'},
		),
		tarArchive("pax",
			trec{name: "x", typ: 'g', pax: map[string]string{"comment": "global"}},
			trec{name: "é", typ: '0', mode: 0o644, format: 'p', nsec: 123456789, mtime: 99, data: pattern(513, 3), pax: map[string]string{"SCHILY.xattr.user.a": "b"}},
			trec{name: long, typ: '2', link: strings.Repeat("t", 150), format: 'p'},
		),
		tarArchive("gnu",
			trec{name: long, typ: '0', mode: 0o644, format: 'g', data: []byte("gnu"), uid: 1 << 30},
			trec{name: "l", typ: '2', link: strings.Repeat("t", 150), format: 'g'},
		),
		tarArchive("sparse-gnu",
			trec{name: "s", typ: 'S', mode: 0o644, format: 'g', sparse: "gnu", data: holes, frags: []frag{{0, 2}, {1502, 5}}},
			trec{name: "t", typ: '0', mode: 0o644, format: 'u', data: []byte("after")},
		),
		tarArchive("sparse-gnu-extended",
			trec{name: "s", typ: 'S', mode: 0o644, format: 'g', sparse: "gnu", data: pattern(60, 1), frags: []frag{{0, 10}, {10, 10}, {20, 10}, {30, 10}, {40, 10}, {50, 10}}},
			trec{name: "t", typ: '0', mode: 0o644, format: 'u', data: []byte("after")},
		),
	)
	for _, v := range []string{"0.0", "0.1", "1.0"} {
		out = append(out, tarArchive("sparse-"+v,
			trec{name: "s", typ: '0', mode: 0o644, format: 'p', sparse: v, data: holes, frags: []frag{{0, 2}, {1502, 5}}},
			trec{name: "t", typ: '0', mode: 0o644, format: 'u', data: []byte("after")},
		))
	}
	for i := range out {
		out[i].tr, _ = modelTar(out[i].recs)
	}

	small := tree{
		".": directory(), "d": directory(), "d/e": directory(), "d/f": file("hello"), "g": file(""), "d/l": link("../g"),
		"c": link("c2"), "c2": link("/g"), "m": link("d/e/../f"), "h": nil,
	}
	small["g"].data = pattern(1100, 4)
	small["h"] = small["g"]
	alias := map[string]string{"h": "g"}
	for p, n := range small {
		n.uid, n.gid, n.mtime = len(p), 100+len(p), time.Unix(int64(len(p)), 5)
	}
	loop := tree{".": directory(), "c": link("c2"), "c2": link("/d/c"), "d": link(".")}
	big := tree{".": directory(), "d": directory()}
	for i := 0; i < 30; i++ {
		big["d/"+numName(i, 20)] = file("")
	}
	out = append(out,
		erofsArchive("extended-plain", small, eopts{bits: 9, compact: never, inline: never, alias: alias}),
		erofsArchive("compact-inline", small, eopts{bits: 9, compact: always, inline: always, alias: alias, build: time.Unix(9, 9), garbage: 0x5a}),
		erofsArchive("mixed", small, eopts{bits: 10, compact: func(p string) bool { return len(p)%2 == 0 }, inline: func(p string) bool { return len(p)%3 == 0 }, alias: alias, rootLast: true, gap: 1, sum: true, padLast: -1}),
		erofsArchive("untyped", small, eopts{bits: 9, compact: never, inline: always, alias: alias, untyped: always}),
		erofsArchive("loop", loop, eopts{bits: 9, compact: always, inline: always}),
		erofsArchive("blocks", big, eopts{bits: 9, compact: never, inline: always, garbage: 0x31}),
	)
	own := tree{".": directory(), "d": directory(), "d/f": file("inline"), "g": file(""), "l": link("d/f"), "e": file("")}
	own["g"].data = pattern(5000, 5)
	own["e"].mtime = time.Time{}
	src, _ := newSource(own, sourceOpts{sys: 's'})
	dst := &memFile{}
	if err := erofs.Create(dst, src); err == nil {
		ownRec := recorded(own, sourceOpts{sys: 's'})
		out = append(out, archive{name: "erofs own", format: 'e', b: dst.buf, tr: ownRec})
	}

	out = append(out,
		arArchive("empty"),
		arArchive("basic", arAlphabet[0], arAlphabet[3], arAlphabet[4], arAlphabet[2]),
		arArchive("tables", arAlphabet[7], arAlphabet[8], arAlphabet[9], arAlphabet[10]),
		arArchive("odd end", arAlphabet[5], arec{name: "blank", mtime: "", uid: "", gid: "12", mode: "604", data: []byte("bl")}, arec{name: "last", mtime: "1", uid: "3", gid: "", mode: "644", data: []byte("odd")}),
	)
	for _, a := range out {
		if strings.Contains(a.name, "erofs compact-inline") || strings.Contains(a.name, "erofs blocks") {
			a.name += ", by inodes"
			a.inodes = true
			out = append(out, a)
		}
	}
	for i := range out {
		if out[i].format == 'a' {
			out[i].tr, _ = modelAr(out[i].b)
		}
	}
	for i := range out {
		if out[i].format == 'e' && out[i].opts.bits != 0 {
			out[i].tr = wantErofs(out[i].tr, out[i].opts)
		}
	}
	return out
}

// largeArchives returns archives with large files and a directory of many
// entries.
func largeArchives() []archive {
	tr := tree{".": directory(), "d": directory(), "a": file(""), "b": file(""), "l": link("a")}
	tr["a"].data, tr["b"].data = pattern(70001, 6), pattern(33000, 7)
	for i := 0; i < 70; i++ {
		tr["d/"+numName(i, 30)] = file("in d")
	}
	out := []archive{
		tarArchive("large", toTar(tr)...),
		tarArchive("large sparse", trec{name: "a", typ: '0', mode: 0o644, format: 'p', sparse: "1.0", data: append(append(pattern(9000, 1), make([]byte, 30000)...), pattern(9001, 2)...), frags: []frag{{0, 9000}, {39000, 9001}}},
			trec{name: "b", typ: '0', mode: 0o644, format: 'u', data: pattern(5000, 3)}),
		erofsArchive("large", tr, eopts{bits: 12, compact: always, inline: always, build: epoch}),
		arArchive("large", arec{name: "a", mtime: "1", uid: "0", gid: "0", mode: "644", data: pattern(70001, 1)}, arec{name: "b", mtime: "1", uid: "0", gid: "0", mode: "644", data: pattern(33001, 2)}),
	}
	for i := range out {
		switch a := &out[i]; a.format {
		case 't':
			a.tr, _ = modelTar(a.recs)
		case 'e':
			a.tr = wantErofs(tr, a.opts)
		case 'a':
			a.tr, _ = modelAr(a.b)
		}
	}
	return out
}

// infoString describes a FileInfo.
func infoString(fi fs.FileInfo) string {
	u, g, _ := ownerOf(fi.Sys())
	return fmt.Sprintf("%q %d %v %d.%09d %d:%d %v", fi.Name(), fi.Size(), fi.Mode(), fi.ModTime().Unix(), fi.ModTime().Nanosecond(), u, g, fi.IsDir())
}

// op is an operation on a path; it returns a description of its result.
type op struct {
	name string
	f    func(fsys fs.FS, p string) (string, error)
}

// maxList bounds how much of a listing is used.
const maxList = 64

var errTooLong = errors.New("too long")

// readOps are all the operations, on any filesystem.
var readOps = []op{
	{"stat", func(fsys fs.FS, p string) (string, error) {
		fi, err := fs.Stat(fsys, p)
		if err != nil {
			return "", err
		}
		return infoString(fi), nil
	}},
	{"statlink", func(fsys fs.FS, p string) (string, error) {
		l, ok := fsys.(archivefs.ReadLinkFS)
		if !ok {
			return "", nil
		}
		fi, err := l.StatLink(p)
		if err != nil {
			return "", err
		}
		return infoString(fi), nil
	}},
	{"readlink", func(fsys fs.FS, p string) (string, error) {
		l, ok := fsys.(archivefs.ReadLinkFS)
		if !ok {
			return "", nil
		}
		return l.ReadLink(p)
	}},
	{"readdir", func(fsys fs.FS, p string) (string, error) {
		es, err := fs.ReadDir(fsys, p)
		if err != nil {
			return "", err
		}
		var b strings.Builder
		for i, e := range es {
			if i < maxList {
				fmt.Fprintf(&b, "%q %c %v; ", e.Name(), kindOf(e.Type()), e.IsDir())
			}
		}
		return b.String(), nil
	}},
	{"infos", func(fsys fs.FS, p string) (string, error) {
		es, err := fs.ReadDir(fsys, p)
		if err != nil {
			return "", err
		}
		var b strings.Builder
		var first error
		for i, e := range es {
			if i >= maxList {
				break
			}
			fi, err := e.Info()
			if err != nil {
				if first == nil {
					first = err
				}
				continue
			}
			fmt.Fprintf(&b, "%s; ", infoString(fi))
		}
		return b.String(), first
	}},
	{"read", func(fsys fs.FS, p string) (string, error) { return readSome(fsys, p, 600) }},
	{"pages", func(fsys fs.FS, p string) (string, error) {
		f, err := fsys.Open(p)
		if err != nil {
			return "", err
		}
		defer f.Close()
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			return "not a directory", nil
		}
		var b strings.Builder
		for i := 0; i < maxList; i++ {
			es, err := d.ReadDir(1)
			for _, e := range es {
				fmt.Fprintf(&b, "%q %c; ", e.Name(), kindOf(e.Type()))
			}
			if err == io.EOF {
				return b.String(), nil
			}
			if err != nil {
				return b.String(), err
			}
		}
		return b.String(), nil
	}},
}

// readSome reads (the beginning of) a file. Directories read as nothing.
func readSome(fsys fs.FS, p string, bufSize int) (string, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return "", err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return "", err
	}
	if fi.IsDir() {
		return "directory", nil
	}
	var out []byte
	buf := make([]byte, bufSize)
	for i := 0; i < 200; i++ {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if int64(len(out)) < fi.Size() {
				return string(out), errShort
			}
			return string(out), nil
		}
		if err != nil {
			return string(out), err
		}
		if n == 0 && i > 100 {
			return string(out), errNoProgress
		}
	}
	return string(out), errTooLong
}

// exercise performs all operations on what an archive shows, within bounds.
func exercise(t *t, fsys fs.FS, size int, limit int) {
	all := func(p string) {
		guard(t, size, "all operations", p, func() {
			for i := range readOps {
				vrt.SetBudget(t.c.chk.budget)
				_, _ = readOps[i].f(fsys, p)
				t.trans++
			}
		})
	}
	todo := []string{"."}
	n := 0
	for len(todo) > 0 && n < limit {
		p := todo[0]
		todo = todo[1:]
		n++
		all(p)
		if strings.Count(p, "/") > 3 {
			continue
		}
		es, err := fs.ReadDir(fsys, p)
		if err != nil {
			continue
		}
		for i, e := range es {
			if i > maxList {
				break
			}
			todo = append(todo, path.Join(p, e.Name()))
		}
	}
	for _, p := range []string{"nope", "../x", "/"} {
		all(p)
	}
}

// allocLimit is how much a single operation on an archive may allocate.
func allocLimit(size int) uint64 { return 6<<20 + 100*uint64(size) }

// guard runs one operation within its limits.
func guard(t *t, size int, name, p string, f func()) {
	vrt.SetBudget(t.c.chk.budget)
	a := allocated()
	f()
	if d := allocated() - a; d > allocLimit(size) {
		t.fatal("allocation", "%s(%q) allocates %d bytes for an archive of %d bytes", name, p, d, size)
	}
}

var _ = bytes.Equal
