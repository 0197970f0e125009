package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&check{
		id:    "C19",
		level: "model_checking",
		rule:  "a state is a distinct state of the files, handles, buffers and listings held, as computed by the reference model; a transition is one operation on the real filesystem, after which everything held is compared with the model",
		bounds: []string{
			"memfs: every history of 5 (thorough: 6) operations out of 18 on two files and their handles: writing from one shared buffer (short, long, through a view, from a buffer filled by a read), clobbering the buffers, opening, reading, draining, closing, reading what is closed, listing and clobbering the list, paging, ReadFile and clobbering the result",
			"the same with contents of a few kilobytes, of 4 (5), and around 100 kB, of 3 (4) operations; archives with files of up to 70 kB, of 3 (4) operations",
			"what an info offers through Sys: on every archive of the corpus, for every path and every way to an info (Stat, StatLink, a handle's Stat, a listing, a listing from a handle), garbling every field and clearing all of it, after which every operation on every path and every other info and entry obtained before are compared with what they gave",
			"archives: every history of 4 (thorough: 5) of the operations that don't write, on every archive of the corpus (and flat ones with blocks of data)",
		},
		run:    runC19,
		budget: 5_000_000,
	})
}

// hold is an open handle and what it must show.
type hold struct {
	f      fs.File
	p      string
	data   []byte
	info   string
	off    int
	closed bool
}

// kept is something that was returned and must not change.
type kept struct {
	what string
	now  func() string
	then string
}

// hist is a history in progress.
type hist struct {
	t      *t
	fsys   fs.FS
	mem    *memfs.FS
	view   *memfs.FS
	files  map[string][]byte
	paths  [2]string
	dir    string
	list   []string // what listing the directory gives
	slots  [2]*hold
	old    []*hold
	kept   []kept
	wbuf   []byte
	shadow []byte
	rbuf   []byte
	rlen   int
	pager  fs.ReadDirFile
	paged  []string
	pages  [][]string // what the pages may add up to
	asked  bool
	scale  int // contents and buffers are so many times as long
}

// big returns the data, scaled.
func (h *hist) big(data string) string { return strings.Repeat(data, h.scale) }

func (h *hist) open(i int, p string) {
	if h.slots[i] != nil {
		h.old = append(h.old, h.slots[i])
	}
	f, err := h.fsys.Open(p)
	if err != nil {
		h.t.fatal("open", "Open(%q): %v", p, err)
	}
	fi, err := f.Stat()
	if err != nil {
		h.t.fatal("open", "Stat of %q: %v", p, err)
	}
	h.slots[i] = &hold{f: f, p: p, data: h.files[p], info: infoString(fi)}
	if fi.Size() != int64(len(h.files[p])) {
		h.t.fatal("open", "%q is opened with size %d, want %d", p, fi.Size(), len(h.files[p]))
	}
}

func (h *hist) read(x *hold, buf []byte) int {
	n, err := x.f.Read(buf)
	if x.closed {
		return max(n, 0)
	}
	left := x.data[x.off:]
	if n < 0 || n > len(buf) || n > len(left) || !bytes.Equal(buf[:n], left[:n]) ||
		err != nil && (err != io.EOF || n < len(left)) || err == nil && n == 0 {
		h.t.fatal("handle", "a handle of %q opened with %q gives at %d: %q, %v", x.p, trunc(string(x.data), 60), x.off, trunc(string(buf[:max(0, min(n, len(buf)))]), 60), err)
	}
	x.off += n
	return n
}

func (h *hist) statHold(x *hold) {
	if x.closed {
		return
	}
	fi, err := x.f.Stat()
	if err != nil || infoString(fi) != x.info {
		h.t.fatal("handle-stat", "Stat of a handle of %q gives %v, %v, want %s", x.p, fi, err, x.info)
	}
}

func (h *hist) drain(x *hold) {
	if x.closed {
		return
	}
	b, err := io.ReadAll(x.f)
	if err != nil || !bytes.Equal(b, x.data[x.off:]) {
		h.t.fatal("handle", "the rest of a handle of %q opened with %q reads at %d as %q, %v", x.p, trunc(string(x.data), 60), x.off, trunc(string(b), 60), err)
	}
	x.off = len(x.data)
}

// look checks that the files are what they should be.
func (h *hist) look() {
	for p, want := range h.files {
		b, err := fs.ReadFile(h.fsys, p)
		if err != nil || !bytes.Equal(b, want) {
			h.t.fatal("file", "%q reads as %q, %v, want %q", p, trunc(string(b), 60), err, trunc(string(want), 60))
		}
		fi, err := fs.Stat(h.fsys, p)
		if err != nil || fi.Size() != int64(len(want)) {
			h.t.fatal("stat", "Stat(%q): %v, %v, want size %d", p, fi, err, len(want))
		}
	}
	if !bytes.Equal(h.wbuf, h.shadow) {
		h.t.fatal("caller-buffer", "the caller's buffer has become %q, want %q", h.wbuf, h.shadow)
	}
}

func (h *hist) write(p, data string, view bool) {
	data = h.big(data)
	copy(h.wbuf, data)
	copy(h.shadow, data)
	h.writeBytes(p, h.wbuf[:len(data)], view)
}

func (h *hist) writeBytes(p string, b []byte, view bool) {
	var err error
	if view {
		err = h.view.WriteFile(strings.TrimPrefix(p, h.dir+"/"), b, 0o644)
	} else {
		err = h.mem.WriteFile(p, b, 0o644)
	}
	if err != nil {
		h.t.fatal("write", "%v", err)
	}
	if _, ok := h.files[p]; !ok {
		h.list = append(slices.Clone(h.list), strings.TrimPrefix(p, h.dir+"/"))
		slices.Sort(h.list)
		if h.pager != nil && !h.asked {
			h.pages = append(h.pages, h.list)
		}
	}
	h.files[p] = bytes.Clone(b)
}

func (h *hist) keep(what string, now func() string) {
	h.kept = append(h.kept, kept{what, now, now()})
}

func entriesString(es []fs.DirEntry, infos bool) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%q %v %v", e.Name(), e.Type(), e.IsDir())
		if infos {
			fi, err := e.Info()
			if err != nil {
				fmt.Fprintf(&b, " %v", err)
			} else {
				fmt.Fprintf(&b, " %s", infoString(fi))
			}
		}
		b.WriteString("; ")
	}
	return b.String()
}

func (h *hist) page() {
	if h.pager == nil {
		f, err := h.fsys.Open(h.dir)
		if err != nil {
			h.t.fatal("open", "%v", err)
		}
		h.pager = f.(fs.ReadDirFile)
		h.pages = [][]string{h.list}
		return
	}
	es, err := h.pager.ReadDir(1)
	h.asked = true
	if err != nil && err != io.EOF {
		h.t.fatal("page", "%v", err)
	}
	h.keepPage(es)
	if len(h.paged)%2 == 0 {
		// The caller may do what it likes with what it was given.
		for i := range es {
			es[i] = nil
		}
	}
}

// keepPage takes note of a page.
func (h *hist) keepPage(es []fs.DirEntry) {
	for _, e := range es {
		h.paged = append(h.paged, e.Name())
	}
	if len(h.paged)%2 == 1 {
		h.keep("a page", func() string { return entriesString(es, true) })
	}
}

var writeHops = []struct {
	name string
	f    func(h *hist)
}{
	{"write a, long", func(h *hist) { h.write(h.paths[0], "longer content", false) }},
	{"write a, short", func(h *hist) { h.write(h.paths[0], "abc", false) }},
	{"write b", func(h *hist) { h.write(h.paths[1], "of b", false) }},
	{"write a new file through the view", func(h *hist) { h.write(h.dir+"/new", "newer", true) }},
	{"clobber the written buffer", func(h *hist) {
		for i := range h.wbuf {
			h.wbuf[i], h.shadow[i] = '!', '!'
		}
	}},
	{"write b from the read buffer", func(h *hist) { h.writeBytes(h.paths[1], h.rbuf[:h.rlen], false) }},
}

var readHops = []struct {
	name string
	f    func(h *hist)
}{
	{"x = open a", func(h *hist) { h.open(0, h.paths[0]) }},
	{"y = open a", func(h *hist) { h.open(1, h.paths[0]) }},
	{"y = open b", func(h *hist) { h.open(1, h.paths[1]) }},
	{"read x by 2", func(h *hist) {
		if h.slots[0] != nil {
			h.rlen = h.read(h.slots[0], h.rbuf[:2*h.scale])
		}
	}},
	{"read y by 2", func(h *hist) {
		if h.slots[1] != nil {
			h.rlen = h.read(h.slots[1], h.rbuf[:2*h.scale])
		}
	}},
	{"read x by much", func(h *hist) {
		if h.slots[0] != nil {
			h.rlen = h.read(h.slots[0], h.rbuf)
		}
	}},
	{"clobber the read buffer", func(h *hist) {
		for i := range h.rbuf {
			h.rbuf[i] = '?'
		}
	}},
	{"close x", func(h *hist) {
		if x := h.slots[0]; x != nil {
			_ = x.f.Close()
			x.closed = true
		}
	}},
	{"list", func(h *hist) {
		es, err := fs.ReadDir(h.fsys, h.dir)
		if err != nil || len(es) != len(h.list) {
			h.t.fatal("list", "%d entries, %v, want %q", len(es), err, h.list)
		}
		mine := slices.Clone(es)
		h.keep("a listing", func() string { return entriesString(mine, true) })
		slices.Reverse(es)
		if len(es) > 0 {
			es[0] = nil
		}
	}},
	{"page", func(h *hist) { h.page() }},
	{"ReadFile and clobber", func(h *hist) {
		b, err := fs.ReadFile(h.fsys, h.paths[0])
		if err != nil || !bytes.Equal(b, h.files[h.paths[0]]) {
			h.t.fatal("file", "ReadFile(%q): %q, %v", h.paths[0], trunc(string(b), 60), err)
		}
		mine := b[:len(b):len(b)]
		for i := range b {
			b[i] = '#'
		}
		b = append(b, "tail"...)
		h.keep("the bytes of ReadFile", func() string { return string(mine) })
	}},
	{"copy all of y, stat", func(h *hist) {
		fi, err := fs.Stat(h.fsys, h.paths[0])
		if err != nil {
			h.t.fatal("stat", "%v", err)
		}
		h.keep("a FileInfo", func() string { return infoString(fi) })
		y := h.slots[1]
		if y == nil || y.closed {
			return
		}
		var b bytes.Buffer
		if _, err := io.Copy(&b, y.f); err != nil || !bytes.Equal(b.Bytes(), y.data[y.off:]) {
			h.t.fatal("handle", "copying the rest of a handle of %q opened with %q gives at %d: %q, %v", y.p, trunc(string(y.data), 60), y.off, trunc(b.String(), 60), err)
		}
		y.off = len(y.data)
		got := b.Bytes()
		for i := range got {
			got[i] = '$'
		}
	}},
}

func (h *hist) run(ops []func(h *hist)) {
	h.rbuf = make([]byte, max(300, 10*h.scale))
	h.wbuf, h.shadow = make([]byte, 20*h.scale), make([]byte, 20*h.scale)
	for _, f := range ops {
		h.t.step(1)
		f(h)
		if h.mem != nil {
			h.look()
		}
	}
	for _, x := range append(h.old, h.slots[:]...) {
		if x == nil {
			continue
		}
		h.statHold(x)
		h.t.state(h.mem != nil, x.p, x.off, string(x.data), x.closed, len(h.kept), fmt.Sprint(h.paged), h.list, string(h.files[h.paths[0]]), string(h.files[h.paths[1]]))
		h.drain(x)
		h.statHold(x)
	}
	if h.pager != nil {
		for len(h.paged) < 100 {
			es, err := h.pager.ReadDir(2)
			h.asked = true
			h.keepPage(es)
			if err == io.EOF {
				break
			}
			if err != nil {
				h.t.fatal("page", "%v", err)
			}
		}
		ok := false
		for _, l := range h.pages {
			ok = ok || fmt.Sprint(l) == fmt.Sprint(h.paged)
		}
		if !ok {
			h.t.fail("page", "the pages of %q give %q, want one of %q", h.dir, h.paged, h.pages)
		}
		_ = h.pager.Close()
	}
	for _, k := range h.kept {
		if now := k.now(); now != k.then {
			h.t.fail("kept", "%s has become %s, was %s", k.what, now, k.then)
		}
	}
	h.look()
	for _, x := range append(h.old, h.slots[:]...) {
		if x != nil && !x.closed {
			_ = x.f.Close()
		}
	}
	es, err := fs.ReadDir(h.fsys, h.dir)
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	if err != nil || fmt.Sprint(names) != fmt.Sprint(h.list) {
		h.t.fail("list", "%q lists %q, %v, want %q", h.dir, names, err, h.list)
	}
}

func runC19(c *ctx) {
	depth, adepth := 5, 4
	if c.thorough {
		depth, adepth = 6, 5
	}
	all := append(slices.Clone(writeHops), readHops...)
	pick := func(set []struct {
		name string
		f    func(h *hist)
	}, idx []int) (string, []func(h *hist)) {
		var names []string
		var fs []func(h *hist)
		for _, i := range idx {
			names = append(names, set[i].name)
			fs = append(fs, set[i].f)
		}
		return strings.Join(names, "; "), fs
	}
	inMemory := func(space string, scale int, idx []int) {
		c.each(space, func() string { s, _ := pick(all, idx); return s }, func(t *t) {
			_, ops := pick(all, idx)
			m := memfs.New()
			h := &hist{t: t, fsys: m, mem: m, files: map[string][]byte{}, paths: [2]string{"a", "d/b"}, dir: "d", list: []string{"b"}, scale: scale}
			if err := m.MkdirAll("d", 0o755); err != nil {
				t.fatal("mkdir", "%v", err)
			}
			v, err := m.Sub("d")
			if err != nil {
				t.fatal("sub", "%v", err)
			}
			h.view = v.(*memfs.FS)
			for i, p := range h.paths {
				data := []byte(h.big([]string{"initial", "b0"}[i]))
				if err := m.WriteFile(p, data, 0o644); err != nil {
					t.fatal("write", "%v", err)
				}
				h.files[p] = data
			}
			h.run(ops)
		})
	}
	eachSeq(len(all), depth, func(idx []int) { inMemory("memfs", 1, idx) })
	for i, scale := range []int{400, 9000} {
		eachSeq(len(all), depth-1-i, func(idx []int) { inMemory(fmt.Sprintf("memfs-by-%d", scale), scale, idx) })
	}

	type target struct {
		a     archive
		paths [2]string
		dir   string
	}
	var targets []target
	for _, a := range append(corpus(), largeArchives()...) {
		var files []string
		for _, p := range a.tr.paths() {
			if a.tr[p].kind == 'f' {
				files = append(files, p)
			}
		}
		// The biggest file, and another one.
		slices.SortStableFunc(files, func(p, q string) int { return len(a.tr[q].data) - len(a.tr[p].data) })
		if len(files) == 0 {
			continue
		}
		dir := "."
		if n := a.tr["d"]; n != nil && n.kind == 'd' && len(a.tr.kids("d")) > len(a.tr.kids(".")) {
			dir = "d"
		}
		targets = append(targets, target{a, [2]string{files[0], files[min(1, len(files)-1)]}, dir})
	}
	for _, x := range targets {
		scale, adepth := 1, adepth
		if strings.Contains(x.a.name, "large") {
			scale, adepth = 2500, adepth-1
		}
		eachSeq(len(readHops), adepth, func(idx []int) {
			c.each("archives", func() string { s, _ := pick(readHops, idx); return x.a.name + ": " + s }, func(t *t) {
				_, ops := pick(readHops, idx)
				fsys, err := openArchive(x.a.how(), ra(x.a.b))
				if err != nil {
					t.fatal("open", "%v", err)
				}
				h := &hist{t: t, fsys: fsys, files: map[string][]byte{}, paths: x.paths, dir: x.dir, list: x.a.tr.kids(x.dir), scale: scale}
				for _, p := range x.paths {
					h.files[p] = x.a.tr[p].data
				}
				h.run(ops)
			})
		})
	}

	for _, a := range corpus() {
		// The harness's filesystem of inodes is built out of them.
		if !a.inodes {
			editSys(c, a)
		}
	}
}

// infoWays are the ways to the infos of a path.
var infoWays = []struct {
	name string
	f    func(fsys fs.FS, p string) []fs.FileInfo
}{
	{"Stat", func(fsys fs.FS, p string) []fs.FileInfo {
		fi, err := fs.Stat(fsys, p)
		if err != nil {
			return nil
		}
		return []fs.FileInfo{fi}
	}},
	{"StatLink", func(fsys fs.FS, p string) []fs.FileInfo {
		l, ok := fsys.(archivefs.ReadLinkFS)
		if !ok {
			return nil
		}
		fi, err := l.StatLink(p)
		if err != nil {
			return nil
		}
		return []fs.FileInfo{fi}
	}},
	{"a handle's Stat", func(fsys fs.FS, p string) []fs.FileInfo {
		f, err := fsys.Open(p)
		if err != nil {
			return nil
		}
		fi, err := f.Stat()
		if err != nil {
			return nil
		}
		return []fs.FileInfo{fi}
	}},
	{"ReadDir", func(fsys fs.FS, p string) []fs.FileInfo {
		es, err := fs.ReadDir(fsys, p)
		if err != nil {
			return nil
		}
		return entryInfos(es)
	}},
	{"a handle's ReadDir", func(fsys fs.FS, p string) []fs.FileInfo {
		f, err := fsys.Open(p)
		if err != nil {
			return nil
		}
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			return nil
		}
		es, err := d.ReadDir(-1)
		if err != nil {
			return nil
		}
		return entryInfos(es)
	}},
}

func entryInfos(es []fs.DirEntry) []fs.FileInfo {
	var out []fs.FileInfo
	for _, e := range es {
		if fi, err := e.Info(); err == nil {
			out = append(out, fi)
		}
	}
	return out
}

// sysEdits are what a caller does to what Sys gave it, which is a pointer to a
// structure.
var sysEdits = []struct {
	name string
	f    func(v reflect.Value)
}{
	{"garble", func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			switch f.Kind() {
			case reflect.String:
				f.SetString("garbled/" + f.String())
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				f.SetInt(f.Int() ^ 0x55)
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				f.SetUint(f.Uint() ^ 0x55)
			case reflect.Map:
				for _, k := range f.MapKeys() {
					f.SetMapIndex(k, reflect.Zero(f.Type().Elem()))
				}
			}
			if tm, ok := f.Addr().Interface().(*time.Time); ok {
				*tm = tm.Add(time.Hour)
			}
		}
	}},
	{"clear", func(v reflect.Value) { v.SetZero() }},
}

// sysString describes an info with everything that it offers.
func sysString(fi fs.FileInfo) string {
	b, err := json.Marshal(fi.Sys())
	return fmt.Sprintf("%s %s %v", infoString(fi), b, err)
}

// editSys changes what the infos of an archive offer through Sys, which is the
// caller's to change.
func editSys(c *ctx, a archive) {
	paths := append([]string{"."}, a.tr.paths()...)
	for _, p := range paths {
		for _, way := range infoWays {
			for _, edit := range sysEdits {
				c.each("sys", func() string { return fmt.Sprintf("%s: %s of %q, %s", a.name, way.name, p, edit.name) }, func(t *t) {
					fsys, err := openArchive(a.how(), ra(a.b))
					if err != nil {
						t.fatal("open", "%v", err)
					}
					look := func() []string {
						var out []string
						for _, q := range paths {
							for _, o := range readOps {
								s, err := o.f(fsys, q)
								out = append(out, fmt.Sprintf("%s of %q: %s %v", o.name, q, s, err))
							}
							for _, w := range infoWays {
								for _, fi := range w.f(fsys, q) {
									out = append(out, fmt.Sprintf("%s of %q: %s", w.name, q, sysString(fi)))
								}
							}
						}
						return out
					}
					before := look()
					var held []fs.FileInfo
					var was []string
					for _, q := range paths {
						for _, w := range infoWays {
							for _, fi := range w.f(fsys, q) {
								held = append(held, fi)
								was = append(was, sysString(fi))
							}
						}
					}
					n := 0
					for _, fi := range way.f(fsys, p) {
						v := reflect.ValueOf(fi.Sys())
						if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
							continue
						}
						edit.f(v.Elem())
						n++
					}
					t.step(n)
					t.state(a.name, p, way.name, edit.name)
					after := look()
					for i := range before {
						if i >= len(after) || after[i] != before[i] {
							got := "nothing"
							if i < len(after) {
								got = after[i]
							}
							t.fatal("sys-changes-fs", "changing what Sys gave changed the filesystem, %s\ninstead of %s", got, before[i])
						}
					}
					for i, fi := range held {
						if got := sysString(fi); got != was[i] {
							t.fatal("sys-changes-info", "changing what Sys gave changed an info obtained before, it is %s\ninstead of %s", got, was[i])
						}
					}
				})
			}
		}
	}
}
