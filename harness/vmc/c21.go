package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/dpeckett/archivefs"
)

func init() {
	register(&check{
		id:    "C21",
		level: "model_checking",
		rule:  "a state is a distinct archive or query; transitions are the names listed, paths walked and lookups compared with the containment predicate and the model",
		bounds: []string{
			"tar-names: every name of up to 4 (thorough: 5) elements out of {.., ., empty, a, b}, of 4 types and 3 ways to record it, before, between and after 3 ordinary entries; every pair of names of up to 2 (thorough: 3) elements",
			"tar-links, erofs-links: a link with every target of up to 4 (thorough: 5) elements out of {.., ., empty, a, d} at 3 places, and pairs of links with targets of up to 2 elements, looked up directly and as an intermediate element; hard links with every such target",
			"erofs-names, ar-names: every name of up to 3 elements out of the same, and with slashes and NUL bytes, among ordinary entries, as files, directories and links",
			"queries: every path of up to 4 (thorough: 5) elements, on every filesystem",
		},
		run:    runC21,
		budget: 20_000_000,
	})
}

// hostileNames are all sequences of elements.
func hostileNames(elems []string, depth int) []string {
	seen := map[string]bool{}
	var out []string
	for _, p := range append(allPaths(elems, depth), "") {
		for _, q := range []string{p, "/" + p} {
			if !seen[q] {
				seen[q] = true
				out = append(out, q)
			}
		}
	}
	return out
}

// contained checks that everything is where it should be: listed names are
// path elements, what is walked opens by its path.
func contained(t *t, fsys fs.FS, allowed func(p string) bool) (found map[string]fs.DirEntry, ok bool) {
	found = map[string]fs.DirEntry{}
	lfs, hasLinks := fsys.(archivefs.ReadLinkFS)
	todo := []string{"."}
	for len(todo) > 0 {
		dir := todo[0]
		todo = todo[1:]
		es, err := fs.ReadDir(fsys, dir)
		t.step(1)
		if err != nil {
			// Refused, in part.
			ok = false
			if dir == "." {
				return found, false
			}
			continue
		}
		for _, e := range es {
			name := e.Name()
			if !goodName(name) {
				t.fatal("name", "listing %q has the name %q", dir, name)
			}
			p := path.Join(dir, name)
			if !fs.ValidPath(p) {
				continue // not UTF-8
			}
			if _, dup := found[p]; dup {
				t.fatal("duplicate", "%q is listed twice", p)
			}
			if allowed != nil && !allowed(p) {
				t.fatal("elsewhere", "%q is listed, but nothing of that name is recorded", p)
			}
			found[p] = e
			if len(found) > 1000 {
				t.fatal("endless", "more than 1000 paths, for example %q", p)
			}
			fi, err := e.Info()
			if err != nil {
				t.fatal("info", "Info of %q: %v", p, err)
			}
			if fi.Name() != name {
				t.fatal("name", "%q has info named %q", p, fi.Name())
			}
			if e.IsDir() {
				todo = append(todo, p)
			}
			if hasLinks {
				li, err := lfs.StatLink(p)
				if err != nil || li.Name() != name || li.Mode() != fi.Mode() {
					t.fatal("path", "StatLink(%q), which was listed as %v, gives %v, %v", p, fi.Mode(), li, err)
				}
			}
			if kindOf(e.Type()) == 'l' {
				continue // may dangle
			}
			f, err := fsys.Open(p)
			if err != nil {
				t.fatal("path", "Open(%q), which was listed, gives %v", p, err)
			}
			hi, err := f.Stat()
			if err != nil || hi.Mode() != fi.Mode() || hi.Size() != fi.Size() {
				t.fatal("path", "Open(%q), which was listed as %v, gives %v, %v", p, fi.Mode(), hi, err)
			}
			f.Close()
			si, err := fs.Stat(fsys, p)
			if err != nil || si.Mode() != fi.Mode() || si.Size() != fi.Size() {
				t.fatal("path", "Stat(%q), which was listed as %v, gives %v, %v", p, fi.Mode(), si, err)
			}
		}
	}
	// The standard library's own idea.
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if p != "." && found[p] == nil && fs.ValidPath(p) {
			t.fatal("walk", "WalkDir finds %q", p)
		}
		return nil
	})
	if err != nil {
		t.fatal("walk", "WalkDir: %v", err)
	}
	return found, true
}

// tarContained checks an archive that has entries with hostile names.
func tarContained(t *t, recs []trec) {
	t.state(recsString(recs))
	fsys, err := openArchive('t', ra(tarBytes(recs...)))
	t.step(1)
	if err != nil {
		return // refused
	}
	paths := map[string]bool{}
	kinds := map[string]byte{}
	dup := map[string]bool{}
	for _, r := range recs {
		p := cleanTarName(r.name)
		if _, ok := kinds[p]; ok {
			dup[p] = true
		}
		kinds[p] = r.node().kind
		for p != "" && p != "." {
			paths[p] = true
			p = path.Dir(p)
		}
	}
	// What lies below a link goes where the link leads.
	allowed := func(p string) bool { return paths[p] }
	clash := map[string]bool{}
	for p := range kinds {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if k, ok := kinds[d]; ok && k != 'd' {
				clash[d], clash[p] = true, true
				if k == 'l' {
					allowed = nil
				}
			}
		}
	}
	found, ok := contained(t, fsys, allowed)
	if !ok {
		t.fatal("unreachable", "the root can't be listed")
	}
	// Whatever isn't in conflict with something else is there.
	for _, r := range recs {
		p := cleanTarName(r.name)
		if p == "" || dup[p] || r.typ == '1' {
			continue
		}
		if clash[p] || allowed == nil {
			continue
		}
		e := found[p]
		if e == nil {
			if strings.Contains("/"+r.name+"/", "/../") {
				continue // refused
			}
			t.fatal("unreachable", "%q can't be reached", p)
		}
		if k := kindOf(e.Type()); k != r.node().kind {
			t.fatal("unreachable", "%q has type %c, want %c", p, k, r.node().kind)
		}
		if r.node().kind == 'f' {
			if b, err := fs.ReadFile(fsys, p); err != nil || !bytes.Equal(b, r.data) {
				t.fatal("unreachable", "%q reads as %q, %v, want %q", p, trunc(string(b), 40), err, trunc(string(r.data), 40))
			}
		}
	}
}

func runC21(c *ctx) {
	depth := 4
	if c.thorough {
		depth = 5
	}
	names := hostileNames([]string{"..", ".", "", "a", "b"}, depth)
	short := hostileNames([]string{"..", ".", "", "a", "b"}, depth-2)

	c21Tar(c, names, short)
	targets := hostileNames([]string{"..", ".", "", "a", "d"}, depth)
	c21Links(c, targets)
	c21Erofs(c)
	c21Ar(c)
	c21Queries(c, names)
}

func c21Tar(c *ctx, names, short []string) {
	normal := []trec{
		{name: "a/x", typ: '0', mode: 0o644, format: 'u', data: []byte("ax")},
		{name: "b", typ: '0', mode: 0o644, format: 'u', data: []byte("b")},
		{name: "c/d", typ: '5', mode: 0o755, format: 'u'},
	}
	try := func(space string, recs []trec) {
		recs = append([]trec{}, recs...)
		c.each(space, func() string { return recsString(recs) }, func(t *t) { tarContained(t, recs) })
	}
	for _, name := range names {
		for _, typ := range []byte{'0', '5', '2', '1'} {
			for _, format := range []byte("upg") {
				r := trec{name: name, typ: typ, mode: 0o640, format: format}
				switch typ {
				case '0':
					r.data = []byte("hostile")
				case '2', '1':
					r.link = "c"
					if typ == '1' {
						r.link = "a/x"
					}
				}
				for at := 0; at <= 3; at++ {
					if at == 2 && format != 'u' {
						continue
					}
					recs := append([]trec{}, normal[:at]...)
					recs = append(recs, r)
					recs = append(recs, normal[at:]...)
					try("tar-names", recs)
				}
			}
			// With a longer prefix: in names recorded in two parts.
			if len(name) > 1 {
				p := strings.Repeat("../", 40) + name
				try("tar-long-names", append([]trec{{name: p, typ: '5', mode: 0o755, format: 'g'}}, normal...))
				try("tar-long-names", append([]trec{{name: p, typ: '5', mode: 0o755, format: 'p'}}, normal...))
				try("tar-long-names", append([]trec{{name: p, typ: '5', mode: 0o755, format: 'u'}}, normal...))
			}
		}
		// Hard links with hostile targets.
		for at := 0; at <= 3; at += 3 {
			r := trec{name: "h", typ: '1', link: name, mode: 0o644, format: 'u'}
			recs := append([]trec{}, normal[:at]...)
			recs = append(recs, r)
			recs = append(recs, normal[at:]...)
			c.each("tar-hardlinks", func() string { return recsString(recs) }, func(t *t) {
				t.state(name, at)
				fsys, err := openArchive('t', ra(tarBytes(recs...)))
				t.step(1)
				to := cleanTarName(name)
				want := map[string]string{"a/x": "ax", "b": "b"}[to]
				if to == "a" || to == "c" || to == "c/d" {
					if err == nil { // a hard link to a directory
						contained(t, fsys, nil)
					}
					return
				}
				if want == "" {
					if err == nil {
						t.fatal("hardlink", "opening succeeds, but %q leads to no file", name)
					}
					return
				}
				if err != nil {
					return // refused
				}
				if b, err := fs.ReadFile(fsys, "h"); err != nil || string(b) != want {
					t.fatal("hardlink", "a hard link to %q reads as %q, %v", name, b, err)
				}
				contained(t, fsys, nil)
			})
		}
	}
	for _, a := range short {
		for _, b := range short {
			for _, types := range []string{"00", "05", "50", "02", "20", "55"} {
				var recs []trec
				for i, name := range []string{a, b} {
					r := trec{name: name, typ: types[i], mode: 0o640, format: 'u'}
					switch r.typ {
					case '0':
						r.data = []byte{byte('0' + i)}
					case '2':
						r.link = ".."
					}
					recs = append(recs, r)
				}
				try("tar-pairs", append(recs, normal[2]))
			}
		}
	}
}

// c21Links checks that links lead where they lead in the tree, and nowhere
// else.
func c21Links(c *ctx, targets []string) {
	base := func() tree {
		tr := tree{".": directory(), "a": directory(), "a/x": file("ax"), "d": directory(), "d/a": directory(), "d/a/x": file("dax"), "x": file("x"), "d/d": file("dd")}
		for i, p := range tr.paths() {
			tr[p].mode = 0o700 + fs.FileMode(i)
		}
		return tr
	}
	check := func(space string, tr tree, queries []string) {
		for _, format := range []byte("te") {
			c.each(space, func() string { return string(format) + ": " + tr.String() }, func(t *t) {
				t.state(tr, format)
				s := inAll(tr, string(format))[0]
				for _, q := range queries {
					checkLookup(t, s.fsys.(linkFS), s.tr, q)
				}
				contained(t, s.fsys, func(p string) bool { return tr[p] != nil })
			})
		}
	}
	for _, target := range targets {
		if target == "" {
			continue
		}
		for _, place := range []string{"l", "a/l", "d/a/l"} {
			tr := base()
			tr[place] = link(target)
			check("links", tr, []string{place, place + "/x", place + "/a", place + "/a/x", place + "/l", place + "/d/a/x", "a/x"})
		}
	}
	few := hostileNames([]string{"..", "a", "l", "m"}, 2)
	for _, a := range few {
		for _, b := range few {
			if a == "" || b == "" {
				continue
			}
			for _, pp := range [][2]string{{"l", "a/m"}, {"d/l", "m"}, {"a/l", "a/m"}} {
				tr := base()
				tr[pp[0]], tr[pp[1]] = link(a), link(b)
				check("two-links", tr, []string{pp[0], pp[1], pp[0] + "/x", pp[1] + "/x", pp[0] + "/m", pp[1] + "/l/x"})
			}
		}
	}
}

// c21Erofs puts hostile names in directories.
func c21Erofs(c *ctx) {
	names := hostileNames([]string{"..", ".", "", "a", "b"}, 3)
	names = append(names, "a\x00b", "\x00", "\x00a", "a\x00", "a/\x00", "...", ".a", "a/..", "/a/b", "//", "a\\b", "\xff", "a\xff/")
	for _, name := range names {
		for _, kind := range []byte("fdl") {
			for _, dir := range []string{".", "d"} {
				for _, sorted := range []bool{true, false} {
					for _, dots := range []bool{true, false} {
						c.each("erofs-names", func() string {
							return fmt.Sprintf("%q of kind %c in %q, sorted: %v, dots: %v", name, kind, dir, sorted, dots)
						}, func(t *t) {
							t.state(name, kind, dir, sorted, dots)
							tr := tree{".": directory(), "d": directory(), "d/f": file("df"), "f": file("f"), path.Join(dir, "zz"): file("hostile")}
							switch p := path.Join(dir, "zz"); kind {
							case 'd':
								tr[p] = directory()
								tr[p+"/in"] = file("in")
							case 'l':
								tr[p] = link("d/f")
							}
							var nids map[string]uint64
							var img []byte
							for pass := 0; pass < 2; pass++ {
								es := []edirent{}
								if dots {
									es = append(es, edirent{".", nids[dir], 2}, edirent{"..", nids["."], 2})
								}
								for _, k := range tr.kids(dir) {
									p := path.Join(dir, k)
									e := edirent{k, nids[p], fileType(tr[p].kind)}
									if k == "zz" {
										e.name = name
									}
									es = append(es, e)
								}
								if sorted {
									sort.SliceStable(es, func(i, j int) bool { return es[i].name < es[j].name })
								}
								raw, _ := encodeDir(es, []int{len(es)}, 4096, 0, 0)
								var err error
								img, nids, err = buildErofs(tr, eopts{bits: 12, inline: always, compact: never, raw: map[string][]byte{dir: raw}})
								if err != nil {
									t.fatal("build", "%v", err)
								}
							}
							fsys, err := openArchive('e', ra(img))
							t.step(1)
							if err != nil {
								return
							}
							if sorted && !strings.Contains(name, "\x00") && name != "f" && name != "d" {
								contained(t, fsys, nil)
							} else {
								// Lookups may fail, as the directory isn't in order.
								_ = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
									if p != "." && (!goodName(d.Name()) || path.Base(p) != d.Name()) {
										t.fatal("name", "listing %q has the name %q", path.Dir(p), d.Name())
									}
									return nil
								})
							}
							// The rest can be reached, in a directory that is in order.
							if dir == "d" {
								if b, err := fs.ReadFile(fsys, "f"); err != nil || string(b) != "f" {
									t.fatal("unreachable", "%q: %q, %v", "f", b, err)
								}
							}
							for _, q := range []string{name, path.Join(dir, name), "d/../f", "../f", "zz", dir + "/" + name} {
								for i := range readOps {
									_, _ = readOps[i].f(fsys, q)
								}
							}
						})
					}
				}
			}
		}
	}
}

func c21Ar(c *ctx) {
	names := hostileNames([]string{"..", ".", "", "a", "b"}, 4)
	names = append(names, "a\x00b", "\x00", "...", ".a", "a\\b", "\xff", "a/", "a/b/", "//", "/1", "/SYM64/", "#1/3", "a b", " a", "../../../../a")
	for _, name := range names {
		if len(name) > 16 {
			continue
		}
		for at := 0; at < 2; at++ {
			for _, mode := range []string{"100644", "40755", "120777", "644"} {
				c.each("ar-names", func() string { return fmt.Sprintf("%q mode %s at %d", name, mode, at) }, func(t *t) {
					t.state(name, mode, at)
					h := arec{name: name, mtime: "1", uid: "0", gid: "0", mode: mode, data: []byte("hostile")}
					n := arec{name: "ok", mtime: "1", uid: "0", gid: "0", mode: "644", data: []byte("fine")}
					recs := []arec{h, n}
					if at == 1 {
						recs = []arec{n, h}
					}
					fsys, err := openArchive('a', ra(arBytes(recs...)))
					t.step(1)
					if err != nil {
						return
					}
					clean := cleanTarName(name)
					contained(t, fsys, func(p string) bool { return p == "ok" || p == clean || p == strings.TrimSpace(clean) })
					if b, err := fs.ReadFile(fsys, "ok"); err != nil || string(b) != "fine" {
						t.fatal("unreachable", "%q: %q, %v", "ok", b, err)
					}
					if fi, err := fs.Stat(fsys, "."); err != nil || !fi.IsDir() {
						t.fatal("root", "%v, %v", fi, err)
					}
					for _, q := range []string{name, "/" + name, "../ok", "x/../ok", "ok/..", "ok/../ok"} {
						for i := range readOps {
							_, _ = readOps[i].f(fsys, q)
						}
					}
				})
			}
		}
	}
}

// c21Queries asks for hostile paths.
func c21Queries(c *ctx, names []string) {
	tr := tree{".": directory(), "a": directory(), "a/b": file("ab"), "b": directory(), "b/b": directory(), "b/b/a": file("bba"), "b/a": link("../.."), "a/a": link("/b/../a/b")}
	for i, p := range tr.paths() {
		tr[p].mode = 0o700 + fs.FileMode(i)
	}
	plain := tr.clone()
	delete(plain, "b/a")
	delete(plain, "a/a")
	flat := tree{".": directory(), "a": file("a"), "b": file("b")}
	sets := append(append(inAll(tr, "te"), inAll(plain, "m")...), inAll(flat, "a")...)
	for _, s := range sets {
		for _, q := range names {
			if q == "" {
				continue
			}
			c.each("queries", func() string { return s.what + ": " + q }, func(t *t) {
				t.state(s.what, q)
				t.step(5)
				// Where the path may lead: as POSIX has it, or cleaned first.
				ok := map[string]bool{cleanTarName(q): true}
				if p, err := s.tr.walkPOSIX(q, true); err == nil {
					ok[p] = true
				}
				if p, err := s.tr.walkPOSIX(cleanTarName(q), true); err == nil {
					ok[p] = true
				}
				if p, err := s.tr.walkPOSIX(q, false); err == nil {
					ok[p] = true
				}
				inside := func(fi fs.FileInfo) {
					for p := range ok {
						n := s.tr[p]
						if p == "" {
							n = s.tr["."]
						}
						if n != nil && kindOf(fi.Mode()) == n.kind && (n.kind != 'f' || fi.Size() == int64(len(n.data))) &&
							(n.kind == 'd' || fi.Mode().Perm() == n.mode.Perm()) {
							return
						}
					}
					t.fatal("escape", "%q leads to %q %v", q, fi.Name(), fi.Mode())
				}
				if fi, err := fs.Stat(s.fsys, q); err == nil {
					inside(fi)
				}
				if l, isL := s.fsys.(archivefs.ReadLinkFS); isL {
					if fi, err := l.StatLink(q); err == nil {
						inside(fi)
					}
				}
				if f, err := s.fsys.Open(q); err == nil {
					fi, err := f.Stat()
					if err != nil {
						t.fatal("stat", "%v", err)
					}
					inside(fi)
					f.Close()
				}
				if es, err := fs.ReadDir(s.fsys, q); err == nil {
					good := false
					for p := range ok {
						if p == "" {
							p = "."
						}
						n := s.tr[p]
						if n == nil || n.kind != 'd' {
							continue
						}
						var names []string
						for _, e := range es {
							names = append(names, e.Name())
						}
						good = good || fmt.Sprint(names) == fmt.Sprint(s.tr.kids(p))
					}
					if !good {
						t.fatal("escape", "ReadDir(%q) gives %s", q, entriesString(es, false))
					}
				}
				for i := range readOps {
					_, _ = readOps[i].f(s.fsys, q)
				}
			})
		}
	}
}
