package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"strings"

	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&check{
		id:    "C15",
		level: "model_checking",
		rule:  "a state is a distinct tree of directories and files (with contents, permissions and held views), as computed by the reference model; a transition is one operation on the real filesystem in such a state, its result and the whole tree compared with the model",
		bounds: []string{
			"closure: every state reachable over 7 paths (2 names, depth 3), 2 contents (thorough: 3) and 2 permissions, and every operation in each of them (directly and through a view of the parent), reached by a shortest history",
			"histories: every sequence of 5 (thorough: 6) operations out of 16, failing ones and ones through held views included",
			"names: operations on every name of one byte and on invalid paths; contents of 0..70000 bytes; every permission; directories of up to 1025 entries and 60 levels",
			"names: every pair and set of 3 of 69 names that some orders and comparisons put elsewhere or take for each other (numbers, both cases, letters that fold or are composed, bytes that are no text)",
		},
		run:    runC15,
		budget: 5_000_000,
	})
}

// mop is an operation on the in-memory filesystem.
type mop struct {
	kind byte // 'm'kdir, 'w'rite, 's'ub (sets the view)
	path string
	data string
	perm fs.FileMode
	view bool // performed on the view
}

func (o mop) String() string {
	s := ""
	if o.view {
		s = "view."
	}
	switch o.kind {
	case 'm':
		return fmt.Sprintf("%sMkdirAll(%q, %#o)", s, o.path, o.perm)
	case 'w':
		return fmt.Sprintf("%sWriteFile(%q, %q, %#o)", s, o.path, trunc(o.data, 40), o.perm)
	}
	return fmt.Sprintf("view = %sSub(%q)", s, o.path)
}

func mopsString(ops []mop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// mmodel is the model of the in-memory filesystem.
type mmodel struct {
	tr   tree
	view string // path of the view, "" if there is none
}

func newMmodel() *mmodel { return &mmodel{tr: tree{".": &node{kind: 'd'}}} }

// apply performs an operation and returns the errors it may fail with, nil if
// it must succeed.
func (m *mmodel) apply(o mop) []error {
	if !fs.ValidPath(o.path) {
		return []error{fs.ErrInvalid}
	}
	p := o.path
	if o.view {
		p = path.Join(m.view, o.path)
	}
	switch o.kind {
	case 's':
		switch n := m.tr[p]; {
		case n == nil:
			return []error{fs.ErrNotExist}
		case n.kind != 'd':
			return []error{fs.ErrNotExist, fs.ErrInvalid}
		}
		m.view = p
	case 'm':
		if p == "." {
			return nil
		}
		cur := "."
		for _, e := range strings.Split(p, "/") {
			cur = path.Join(cur, e)
			switch n := m.tr[cur]; {
			case n == nil:
				m.tr[cur] = &node{kind: 'd', mode: o.perm}
			case n.kind != 'd':
				return []error{fs.ErrInvalid}
			}
		}
	case 'w':
		if o.path == "." {
			return []error{fs.ErrInvalid, fs.ErrExist}
		}
		for d := path.Dir(p); ; d = path.Dir(d) {
			if n := m.tr[d]; n != nil {
				if n.kind != 'd' {
					return []error{fs.ErrNotExist, fs.ErrInvalid}
				}
				break
			}
		}
		if m.tr[path.Dir(p)] == nil {
			return []error{fs.ErrNotExist}
		}
		n := m.tr[p]
		switch {
		case n == nil:
			m.tr[p] = &node{kind: 'f', mode: o.perm, data: []byte(o.data)}
		case n.kind == 'd':
			return []error{fs.ErrExist}
		default:
			m.tr[p] = &node{kind: 'f', mode: n.mode, data: []byte(o.data)}
		}
	}
	return nil
}

// mimpl is the implementation.
type mimpl struct {
	root, view *memfs.FS
}

func (i *mimpl) apply(o mop) error {
	f := i.root
	if o.view {
		f = i.view
	}
	switch o.kind {
	case 'm':
		return f.MkdirAll(o.path, o.perm)
	case 'w':
		b := []byte(o.data)
		err := f.WriteFile(o.path, b, o.perm)
		for i := range b {
			b[i] = '!'
		}
		return err
	}
	s, err := f.Sub(o.path)
	if err != nil {
		return err
	}
	v, ok := s.(*memfs.FS)
	if !ok {
		return fmt.Errorf("Sub returned a %T", s)
	}
	i.view = v
	return nil
}

// checkResult compares the result of an operation.
func checkResult(t *t, o fmt.Stringer, want []error, err error) {
	if len(want) == 0 {
		if err != nil {
			t.fail("fails", "%v fails with %v", o, err)
		}
		return
	}
	if err == nil {
		t.fail("succeeds", "%v succeeds, want %v", o, want)
		return
	}
	for _, w := range want {
		if errors.Is(err, w) {
			return
		}
	}
	t.fail("error", "%v fails with %v, want %v", o, err, want)
}

var memCmp = cmpOpts{noRoot: true, noOwner: true, noTime: true}

// subtree is a part of a tree.
func (tr tree) subtree(dir string) tree {
	if dir == "." {
		return tr
	}
	out := tree{}
	for p, n := range tr {
		if p == dir {
			out["."] = n
		} else if strings.HasPrefix(p, dir+"/") {
			out[p[len(dir)+1:]] = n
		}
	}
	return out
}

// checkMem compares everything a filesystem shows with the model.
func checkMem(t *t, fsys fs.FS, want tree, paths []string) {
	got, err := observe(fsys)
	if err != nil {
		t.fail("observe", "%v", err)
		return
	}
	if d := diff(want, got, memCmp); d != "" {
		t.fail("diff", "%s", d)
		return
	}
	for _, p := range paths {
		n := want[p]
		fi, err := fs.Stat(fsys, p)
		switch {
		case n == nil:
			if err == nil {
				t.fail("ghost", "Stat(%q) succeeds", p)
			} else if !throughFile(want, p) && !errors.Is(err, fs.ErrNotExist) {
				t.fail("stat-error", "Stat(%q) fails with %v", p, err)
			}
		case err != nil:
			t.fail("stat", "Stat(%q) fails with %v", p, err)
		case p != "." && (fi.Mode() != n.mode|n.typ() || fi.Name() != path.Base(p) || fi.IsDir() != (n.kind == 'd')):
			t.fail("stat", "Stat(%q) is %q %v, want %v", p, fi.Name(), fi.Mode(), n)
		case n.kind == 'f':
			if fi.Size() != int64(len(n.data)) {
				t.fail("size", "Stat(%q) gives size %d, want %d", p, fi.Size(), len(n.data))
			}
			if b, err := fs.ReadFile(fsys, p); err != nil || !bytes.Equal(b, n.data) {
				t.fail("content", "%q reads as %q, %v, want %q", p, trunc(string(b), 60), err, trunc(string(n.data), 60))
			}
		}
	}
}

// throughFile reports whether a path leads through something that isn't a
// directory.
func throughFile(tr tree, p string) bool {
	for d := path.Dir(p); d != "."; d = path.Dir(d) {
		if n := tr[d]; n != nil && n.kind != 'd' {
			return true
		}
	}
	return false
}

func runC15(c *ctx) {
	c15Closure(c)
	c15Histories(c)
	c15Names(c)
}

// The states of the closure: what is at each path.
var c15Paths = []string{"a", "b", "a/a", "a/b", "b/a", "b/b", "a/a/a"}

type c15State [7]byte // 0: absent, 1+c*2+p: file with content c and perm p, 100+p: directory

var c15Perms = []fs.FileMode{0o600, 0o755}
var c15Contents = []string{"", "xy", "some more"}

func (s c15State) tree() tree {
	tr := tree{".": &node{kind: 'd'}}
	for i, v := range s {
		switch {
		case v >= 100:
			tr[c15Paths[i]] = &node{kind: 'd', mode: c15Perms[v-100]}
		case v > 0:
			tr[c15Paths[i]] = &node{kind: 'f', mode: c15Perms[(v-1)%2], data: []byte(c15Contents[(v-1)/2])}
		}
	}
	return tr
}

// next is the state after an operation. (It need not be right about errors,
// the operation is checked against the model.)
func (s c15State) next(o mop) c15State {
	m := &mmodel{tr: s.tree()}
	m.apply(o)
	var out c15State
	for i, p := range c15Paths {
		n := m.tr[p]
		if n == nil {
			continue
		}
		perm := byte(0)
		if n.mode == c15Perms[1] {
			perm = 1
		}
		if n.kind == 'd' {
			out[i] = 100 + perm
			continue
		}
		for j, d := range c15Contents {
			if string(n.data) == d {
				out[i] = 1 + byte(j)*2 + perm
			}
		}
	}
	return out
}

func c15Closure(c *ctx) {
	contents := c15Contents[:2]
	if c.thorough {
		contents = c15Contents
	}
	var ops []mop
	for _, p := range c15Paths {
		for _, perm := range c15Perms {
			ops = append(ops, mop{kind: 'm', path: p, perm: perm})
			for _, d := range contents {
				ops = append(ops, mop{kind: 'w', path: p, data: d, perm: perm})
			}
		}
	}
	// Operations on other paths don't lead to other states of these ones,
	// because they fail.
	extra := []mop{
		{kind: 'w', path: "."}, {kind: 'm', path: "."}, {kind: 'w', path: "a/"}, {kind: 'm', path: "/a"}, {kind: 'w', path: "c/d", data: "x"},
		{kind: 'm', path: "a/../b"}, {kind: 'w', path: "../a"}, {kind: 'm', path: ""}, {kind: 's', path: "a/a/a/a"}, {kind: 's', path: "a"}, {kind: 's', path: "a/b"},
	}

	type from struct {
		prev c15State
		op   int
	}
	seen := map[c15State]from{{}: {op: -1}}
	queue := []c15State{{}}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for i, o := range ops {
			n := s.next(o)
			if _, ok := seen[n]; !ok {
				seen[n] = from{s, i}
				queue = append(queue, n)
			}
		}
		s0 := s
		c.each("closure", func() string { return s0.tree().String() }, func(t *t) {
			// A shortest history.
			var hist []mop
			for x := s0; seen[x].op >= 0; x = seen[x].prev {
				hist = append([]mop{ops[seen[x].op]}, hist...)
			}
			want := s0.tree()
			t.state(want.String())
			build := func() *mimpl {
				im := &mimpl{root: memfs.New()}
				for _, o := range hist {
					if err := im.apply(o); err != nil {
						t.fatal("history", "%v fails after %s: %v", o, mopsString(hist), err)
					}
				}
				return im
			}
			im := build()
			checkMem(t, im.root, want, append([]string{"c", "a/c", "a/a/a/a", "b/c/d"}, c15Paths...))
			for _, p := range want.paths() {
				if want[p].kind != 'd' {
					continue
				}
				v, err := im.root.Sub(p)
				if err != nil {
					t.fatal("sub", "Sub(%q): %v", p, err)
				}
				checkMem(t, v, want.subtree(p), []string{"a", "b", "a/a", "c"})
			}
			for i := 0; i < len(ops)+len(extra); i++ {
				var o mop
				if i < len(ops) {
					o = ops[i]
				} else {
					o = extra[i-len(ops)]
				}
				for v := 0; v < 2; v++ {
					im := build()
					m := &mmodel{tr: s0.tree()}
					p := o
					if v == 1 {
						// Through a view.
						d, f := path.Split(o.path)
						d = strings.TrimSuffix(d, "/")
						if !fs.ValidPath(o.path) || d == "" || m.tr[d] == nil || m.tr[d].kind != 'd' {
							break
						}
						sub := mop{kind: 's', path: d}
						if err := im.apply(sub); err != nil {
							t.fatal("sub", "Sub(%q): %v", d, err)
						}
						m.apply(sub)
						p.path, p.view = f, true
					}
					werr := m.apply(p)
					err := im.apply(p)
					checkResult(t, p, werr, err)
					checkMem(t, im.root, m.tr, nil)
					t.step(1)
					if len(t.fails) > 0 {
						t.fail("history", "after %s; %v", mopsString(hist), p)
						return
					}
				}
			}
		})
	}
	c.extraMax("closure_states", int64(len(seen)))
}

func c15Histories(c *ctx) {
	ops := []mop{
		{kind: 'm', path: "a", perm: 0o755},
		{kind: 'm', path: "a/b", perm: 0o700},
		{kind: 'm', path: "b/a", perm: 0o711},
		{kind: 'm', path: "a/b/c", perm: 0o750},
		{kind: 'w', path: "a", data: "x", perm: 0o644},
		{kind: 'w', path: "a/b", data: "yy", perm: 0o600},
		{kind: 'w', path: "a/b", data: "", perm: 0o640},
		{kind: 'w', path: "b", data: "longer contents", perm: 0o604},
		{kind: 'w', path: "a/c/d", data: "z", perm: 0o644},
		{kind: 'w', path: "a//b", data: "z", perm: 0o644},
		{kind: 'm', path: "a/../b", perm: 0o644},
		{kind: 's', path: "a"},
		{kind: 's', path: "b", view: true},
		{kind: 'w', path: "b", data: "from a view", perm: 0o600, view: true},
		{kind: 'm', path: "b/c", perm: 0o701, view: true},
		{kind: 'w', path: "b/a", data: "w", perm: 0o644},
	}
	depth := 5
	if c.thorough {
		depth = 6
	}
	eachSeq(len(ops), depth, func(idx []int) {
		c.each("histories", func() string {
			var h []mop
			for _, i := range idx {
				h = append(h, ops[i])
			}
			return mopsString(h)
		}, func(t *t) {
			im := &mimpl{root: memfs.New()}
			m := newMmodel()
			for _, i := range idx {
				o := ops[i]
				if o.view && im.view == nil {
					continue
				}
				checkResult(t, o, m.apply(o), im.apply(o))
				t.step(1)
			}
			checkMem(t, im.root, m.tr, []string{"a", "b", "a/b", "a/b/c"})
			if im.view != nil {
				checkMem(t, im.view, m.tr.subtree(m.view), nil)
			}
			t.state(m.tr.String(), m.view)
		})
	})
}

func c15Names(c *ctx) {
	var names []string
	for b := 0; b < 256; b++ {
		names = append(names, string(rune(b)), "a"+string([]byte{byte(b)}), string([]byte{byte(b)})+"a")
	}
	names = append(names, strings.Repeat("n", 300), "...", "..a", ".a", "é", "a b", "a\\b")
	bad := []string{"", "/", "..", "../a", "a/..", "a/.", "./a", "a//b", "/a", "a/", ".//."}
	for _, n := range append(names, bad...) {
		c.each("names", func() string { return fmt.Sprintf("%q", n) }, func(t *t) {
			im := &mimpl{root: memfs.New()}
			m := newMmodel()
			t.state(n)
			for _, o := range []mop{
				{kind: 'w', path: n, data: "x", perm: 0o644}, {kind: 'm', path: n, perm: 0o755}, {kind: 'm', path: "d", perm: 0o755},
				{kind: 'm', path: "d/" + n, perm: 0o755}, {kind: 'w', path: "d/" + n + "/f", data: "y", perm: 0o640}, {kind: 'w', path: "d/" + n, data: "z", perm: 0o640},
			} {
				checkResult(t, o, m.apply(o), im.apply(o))
				t.step(1)
			}
			checkMem(t, im.root, m.tr, []string{"d/x", "x"})
			if !fs.ValidPath(n) {
				if _, err := im.root.Open(n); !errors.Is(err, fs.ErrInvalid) {
					t.fail("invalid", "Open(%q): %v", n, err)
				}
				if _, err := fs.Stat(im.root, n); !errors.Is(err, fs.ErrInvalid) {
					t.fail("invalid", "Stat(%q): %v", n, err)
				}
			}
		})
	}
	// Names that some orders and comparisons put elsewhere or take for each other.
	eachTricky(func(names []string) {
		for _, n := range names {
			if !fs.ValidPath(n) {
				return
			}
		}
		c.each("tricky-names", func() string { return fmt.Sprintf("%q", names) }, func(t *t) {
			im := &mimpl{root: memfs.New()}
			m := newMmodel()
			t.state(names)
			do := func(o mop) {
				checkResult(t, o, m.apply(o), im.apply(o))
				t.step(1)
			}
			for i, n := range names {
				do(mop{kind: 'w', path: n, data: "x" + n, perm: fs.FileMode(0o640 + i)})
				if len(names) == 2 {
					do(mop{kind: 'm', path: "d/" + n + "/" + names[0], perm: 0o755})
					do(mop{kind: 'w', path: "d/" + names[0] + "/" + n + "/" + names[1], data: n, perm: 0o600})
				}
			}
			checkMem(t, im.root, m.tr, append(names, "d/"+names[0], "d/"+names[1]))
		})
	})
	// Many entries, deep directories.
	for _, n := range []int{9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025} {
		for v := 0; v < 4; v++ {
			if v == 3 && n > 500 {
				continue
			}
			c.each("many", func() string { return fmt.Sprintf("%d entries, %d", n, v) }, func(t *t) {
				im := &mimpl{root: memfs.New()}
				m := newMmodel()
				do := func(o mop) {
					checkResult(t, o, m.apply(o), im.apply(o))
					t.step(1)
				}
				var names []string
				for i := 0; i < n; i++ {
					k := []int{i, n - 1 - i, (i * 7) % n, i ^ 1}[v]
					name := fmt.Sprintf("d/%d", k)
					if v == 3 {
						name = strings.Repeat("x/", min(k, 60)) + fmt.Sprint(k)
					}
					names = append(names, name)
					do(mop{kind: 'm', path: path.Dir(name), perm: fs.FileMode(0o700 + i%8)})
					if k%4 == 3 {
						do(mop{kind: 'm', path: name, perm: 0o750})
					} else {
						do(mop{kind: 'w', path: name, data: fmt.Sprint("of ", name), perm: fs.FileMode(0o600 + i%8)})
					}
				}
				checkMem(t, im.root, m.tr, names)
				// Again, every third one.
				for i := 0; i < n; i += 3 {
					do(mop{kind: 'w', path: names[i], data: "again", perm: 0o777})
					do(mop{kind: 'm', path: names[i], perm: 0o711})
					do(mop{kind: 'w', path: names[i] + "/below", data: "below", perm: 0o604})
				}
				t.state("many", n, v)
				checkMem(t, im.root, m.tr, names)
				v, err := im.root.Sub(path.Dir(names[0]))
				if err != nil {
					t.fatal("sub", "%v", err)
				}
				checkMem(t, v, m.tr.subtree(path.Dir(names[0])), nil)
			})
		}
	}
	for perm := fs.FileMode(0); perm <= 0o777; perm++ {
		for _, special := range []fs.FileMode{0, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky} {
			c.each("perms", func() string { return (perm | special).String() }, func(t *t) {
				im := &mimpl{root: memfs.New()}
				m := newMmodel()
				for _, o := range []mop{
					{kind: 'w', path: "f", data: "x", perm: perm | special}, {kind: 'm', path: "d/e", perm: perm | special}, {kind: 'w', path: "d/f", data: "y", perm: ^perm & 0o777},
					{kind: 'w', path: "d/f", data: "z", perm: perm | special}, {kind: 'm', path: "d/e", perm: 0},
				} {
					checkResult(t, o, m.apply(o), im.apply(o))
					t.step(1)
				}
				t.state(perm | special)
				checkMem(t, im.root, m.tr, []string{"f", "d/f", "d/e", "d"})
			})
		}
	}
	sizes := []int{4095, 4096, 4097, 32767, 32768, 65535, 65536, 70000}
	for n := 0; n < 1200; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		for _, second := range []int{0, 1, n / 2, n, n + 1, 513} {
			c.each("sizes", func() string { return fmt.Sprint(n, " then ", second) }, func(t *t) {
				im := &mimpl{root: memfs.New()}
				m := newMmodel()
				for _, o := range []mop{
					{kind: 'w', path: "f", data: string(pattern(n, 1)), perm: 0o644}, {kind: 'w', path: "g", data: "g", perm: 0o644}, {kind: 'w', path: "f", data: string(pattern(second, 2)), perm: 0o600},
				} {
					checkResult(t, o, m.apply(o), im.apply(o))
					t.step(1)
				}
				t.state(n, second)
				checkMem(t, im.root, m.tr, []string{"f", "g"})
			})
		}
	}
}

// extraMax records a number in the evidence, as found by the first worker.
func (c *ctx) extraMax(name string, v int64) {
	if c.shard == 0 {
		c.extra[name] = v
	}
}
