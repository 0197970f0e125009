package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"

	"github.com/dpeckett/archivefs/internal/vrt"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&check{
		id:    "C16",
		level: "model_checking",
		rule:  "a state is a distinct history (the calls with their results and their order of starting and returning) that an interleaving of the real code produced and for which a sequential order was found or sought; transitions are scheduling steps of the real code; traces_validated counts interleavings executed",
		bounds: []string{
			"pairs: 2 goroutines with 1 operation each out of 20, on 5 initial filesystems: every interleaving of synchronization operations, and every interleaving of statements with up to 1 preemption (thorough: 2)",
			"triples: 3 goroutines with 1 operation each out of 9 on 2 filesystems: every interleaving of synchronization operations with up to 4 preemptions (thorough: all)",
			"sequences: 2 goroutines with 2 operations each out of 8: every interleaving of synchronization operations with up to 2 preemptions (thorough: out of 11, 3 preemptions)",
			"large: the same as pairs, with contents of up to 70 kB and a directory of 10 entries, 10 operations, synchronization operations with up to 4 preemptions",
			"creations: a tar, EROFS or ar archive is created from the filesystem while another goroutine performs 1 or 2 operations out of 10: every interleaving of synchronization operations with up to 3 preemptions (thorough: 5)",
			"the race detector watches every execution",
		},
		run:    runC16,
		budget: 1_000_000,
	})
}

// cop is an operation of a goroutine: it returns a description of its result.
type cop struct {
	name string
	run  func(f *memfs.FS) string
	// steps are its atomic steps in the model. The last one that is performed
	// returns the result, a step may end the operation early.
	steps []func(m *mmodel) (res string, done bool)
	// loose operations are not atomic, their result is checked by itself.
	loose func(before, after tree, res string) string
}

func (o cop) String() string { return o.name }

// errClass describes an error.
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrNotExist):
		return "not exist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	}
	return "error: " + err.Error()
}

func classOf(errs []error) string {
	if len(errs) == 0 {
		return "ok"
	}
	return errClass(errs[0])
}

func one(f func(m *mmodel) string) []func(m *mmodel) (string, bool) {
	return []func(m *mmodel) (string, bool){func(m *mmodel) (string, bool) { return f(m), true }}
}

func cMkdir(p string, perm fs.FileMode) cop {
	o := cop{name: fmt.Sprintf("MkdirAll(%q, %#o)", p, perm)}
	o.run = func(f *memfs.FS) string { return errClass(f.MkdirAll(p, perm)) }
	es := strings.Split(p, "/")
	for i := range es {
		q := strings.Join(es[:i+1], "/")
		o.steps = append(o.steps, func(m *mmodel) (string, bool) {
			err := m.apply(mop{kind: 'm', path: q, perm: perm})
			return classOf(err), err != nil || q == p
		})
	}
	return o
}

func cWrite(p, data string, perm fs.FileMode) cop {
	return cop{
		name:  fmt.Sprintf("WriteFile(%q, %d bytes %q, %#o)", p, len(data), trunc(data, 30), perm),
		run:   func(f *memfs.FS) string { return errClass(f.WriteFile(p, []byte(data), perm)) },
		steps: one(func(m *mmodel) string { return classOf(m.apply(mop{kind: 'w', path: p, data: data, perm: perm})) }),
	}
}

func lookupModel(tr tree, p string) (*node, string) {
	if n := tr[p]; n != nil {
		return n, ""
	}
	return nil, "not exist"
}

func nodeString(n *node) string {
	if n.kind == 'd' {
		return fmt.Sprintf("directory %v", n.mode)
	}
	return fmt.Sprintf("file %v %d", n.mode, len(n.data))
}

func infoShort(fi fs.FileInfo) string {
	if fi.IsDir() {
		return fmt.Sprintf("directory %v", fi.Mode()&permBits)
	}
	return fmt.Sprintf("file %v %d", fi.Mode(), fi.Size())
}

// cRead opens and reads a file by small pieces.
func cRead(p string, size int) cop {
	return cop{
		name: fmt.Sprintf("read %q by %d", p, size),
		run: func(f *memfs.FS) string {
			h, err := f.Open(p)
			if err != nil {
				return errClass(err)
			}
			defer h.Close()
			fi, err := h.Stat()
			if err != nil {
				return errClass(err)
			}
			if fi.IsDir() {
				return infoShort(fi)
			}
			var out []byte
			buf := make([]byte, size)
			for {
				n, err := h.Read(buf)
				out = append(out, buf[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil || len(out) > 1<<20 {
					return "reading: " + fmt.Sprint(err)
				}
			}
			fi2, err := h.Stat()
			if err != nil {
				return errClass(err)
			}
			return infoShort(fi) + " " + infoShort(fi2) + " " + string(out)
		},
		steps: one(func(m *mmodel) string {
			n, e := lookupModel(m.tr, p)
			switch {
			case n == nil:
				return e
			case n.kind == 'd':
				return nodeString(n)
			}
			return nodeString(n) + " " + nodeString(n) + " " + string(n.data)
		}),
	}
}

func cStat(p string) cop {
	return cop{
		name: fmt.Sprintf("Stat(%q)", p),
		run: func(f *memfs.FS) string {
			fi, err := fs.Stat(f, p)
			if err != nil {
				return errClass(err)
			}
			return infoShort(fi)
		},
		steps: one(func(m *mmodel) string {
			n, e := lookupModel(m.tr, p)
			if n == nil {
				return e
			}
			return nodeString(n)
		}),
	}
}

func listString(es []fs.DirEntry, err error) string {
	if err != nil {
		return errClass(err)
	}
	s := "list:"
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			return errClass(err)
		}
		s += fmt.Sprintf(" %s (%s)", e.Name(), infoShort(fi))
	}
	return s
}

func modelList(tr tree, p string) string {
	s := "list:"
	for _, k := range tr.kids(p) {
		s += fmt.Sprintf(" %s (%s)", k, nodeString(tr[path.Join(p, k)]))
	}
	return s
}

// cList lists a directory at once.
func cList(p string) cop {
	return cop{
		name: fmt.Sprintf("ReadDir(%q)", p),
		run: func(f *memfs.FS) string {
			h, err := f.Open(p)
			if err != nil {
				return errClass(err)
			}
			defer h.Close()
			d, ok := h.(fs.ReadDirFile)
			if !ok {
				return "file"
			}
			return listString(d.ReadDir(-1))
		},
		steps: one(func(m *mmodel) string {
			n, e := lookupModel(m.tr, p)
			switch {
			case n == nil:
				return e
			case n.kind == 'f':
				return "file"
			}
			return modelList(m.tr, p)
		}),
	}
}

// cPages lists a directory entry by entry: it shows at least what was there
// before and at most what is there afterwards.
func cPages(p string) cop {
	return cop{
		name: fmt.Sprintf("list %q by 1", p),
		run: func(f *memfs.FS) string {
			h, err := f.Open(p)
			if err != nil {
				return errClass(err)
			}
			defer h.Close()
			d, ok := h.(fs.ReadDirFile)
			if !ok {
				return "file"
			}
			var names []string
			for {
				es, err := d.ReadDir(1)
				if err == io.EOF {
					return "list: " + strings.Join(names, " ")
				}
				if err != nil || len(es) != 1 || len(names) > 50 {
					return fmt.Sprintf("paging fails: %d entries, %v", len(es), err)
				}
				names = append(names, es[0].Name())
			}
		},
		loose: func(before, after tree, res string) string {
			nb, na := before[p], after[p]
			if !strings.HasPrefix(res, "list:") {
				if res == "not exist" && nb == nil || res == "file" && na != nil && na.kind == 'f' {
					return ""
				}
				return fmt.Sprintf("%q", res)
			}
			if na == nil || na.kind != 'd' {
				return "listed, but it is not a directory"
			}
			names := strings.Fields(res)[1:]
			have := map[string]bool{}
			for i, n := range names {
				have[n] = true
				if i > 0 && names[i-1] >= n {
					return "not sorted: " + res
				}
				if after[path.Join(p, n)] == nil {
					return "lists " + n + ", which does not exist"
				}
			}
			for _, n := range before.kids(p) {
				if !have[n] {
					return "does not list " + n + ": " + res
				}
			}
			return ""
		},
	}
}

// cVia performs an operation through a view of a subtree.
func cVia(dir string, f cop, inner string) cop {
	o := cop{name: fmt.Sprintf("Sub(%q).%s", dir, f.name)}
	o.run = func(fsys *memfs.FS) string {
		v, err := fsys.Sub(dir)
		if err != nil {
			return "sub: " + errClass(err)
		}
		return f.run(v.(*memfs.FS))
	}
	o.steps = append(o.steps, func(m *mmodel) (string, bool) {
		n := m.tr[dir]
		if n == nil || n.kind != 'd' {
			return "sub: not exist", true
		}
		return "", false
	})
	for _, s := range f.steps {
		o.steps = append(o.steps, func(m *mmodel) (string, bool) {
			v := &mmodel{tr: m.tr.subtree(dir)}
			res, done := s(v)
			for p, n := range v.tr {
				m.tr[path.Join(dir, p)] = n
			}
			return res, done
		})
	}
	return o
}

// called is a completed call.
type called struct {
	o          cop
	start, end int64
	res        string
	returned   bool
}

func (c called) String() string {
	return fmt.Sprintf("[%d-%d] %s: %s", c.start, c.end, c.o.name, c.res)
}

// linearize looks for an order of the steps that explains the results and the
// final state. It calls final with the state at the end of every explanation
// until that returns true.
func linearize(init tree, calls []called, final func(tr tree) bool) bool {
	pos := make([]int, len(calls)) // next step, -1 when done
	for i, c := range calls {
		if c.o.loose != nil {
			pos[i] = -1
		}
	}
	var rec func(tr tree) bool
	rec = func(tr tree) bool {
		all := true
		for i := range calls {
			if pos[i] < 0 {
				continue
			}
			all = false
			ok := true
			for j := range calls {
				if j != i && pos[j] >= 0 && calls[j].end < calls[i].start {
					ok = false
				}
			}
			if !ok {
				continue
			}
			m := &mmodel{tr: tr.clone()}
			old := pos[i]
			res, done := calls[i].o.steps[old](m)
			if done && res != calls[i].res {
				continue
			}
			if done {
				pos[i] = -1
			} else {
				pos[i]++
			}
			if rec(m.tr) {
				return true
			}
			pos[i] = old
		}
		return all && final(tr)
	}
	return rec(init)
}

func memOf(init tree) *memfs.FS {
	f := memfs.New()
	for _, p := range init.paths() {
		n := init[p]
		var err error
		switch {
		case p == ".":
		case n.kind == 'd':
			err = f.MkdirAll(p, n.mode)
		default:
			err = f.WriteFile(p, n.data, n.mode)
		}
		if err != nil {
			panic(err)
		}
	}
	return f
}

// raced reports whether the race detector found something since.
func raced(t *t, before int) {
	if n := vrt.RaceErrors(); n > before {
		t.fail("data-race", "the race detector reports %d data races, see the standard error output", n-before)
	}
}

func mdir(perm fs.FileMode) *node { return &node{kind: 'd', mode: perm} }
func mfile(perm fs.FileMode, data string) *node {
	return &node{kind: 'f', mode: perm, data: []byte(data)}
}

var pattern4097 = string(pattern(4097, 9))

func runC16(c *ctx) {
	inits := []tree{
		{".": mdir(0)},
		{".": mdir(0), "a": mdir(0o700)},
		{".": mdir(0), "a": mdir(0o700), "a/b": mfile(0o640, "old contents"), "c": mfile(0o600, "see")},
		{".": mdir(0), "a": mdir(0o700), "a/b": mdir(0o711), "a/b/c": mfile(0o604, "deep"), "a/x": mfile(0o604, "x")},
		{".": mdir(0), "a": mfile(0o640, "a file")},
	}
	ops := []cop{
		cMkdir("a", 0o755),
		cMkdir("a/b", 0o750),
		cMkdir("a/b/d", 0o751),
		cWrite("a/b", "new", 0o644),
		cWrite("a/b", "other data", 0o600),
		cWrite("a", "plain", 0o644),
		cWrite("c", "cc", 0o644),
		cWrite("a/y", "", 0o644),
		cRead("a/b", 3),
		cRead("c", 100),
		cList("a"),
		cList("."),
		cStat("a/b"),
		cStat("a/b/c"),
		cPages("a"),
		cPages("."),
		cVia("a", cWrite("b", "via view", 0o606), "b"),
		cVia("a", cMkdir("b/e", 0o707), "b/e"),
		cVia("a", cList("."), "."),
		cVia("a/b", cRead("c", 2), "c"),
	}

	for _, mode := range []string{"sync", "statements"} {
		bound := 1000
		if mode == "statements" {
			bound = 1
			if c.thorough {
				bound = 2
			}
		}
		for _, init := range inits {
			for i := range ops {
				for j := i; j < len(ops); j++ {
					c16Run(c, "pairs-"+mode, bound, mode == "statements", init, [][]cop{{ops[i]}, {ops[j]}})
				}
			}
		}
	}
	few := []cop{ops[0], ops[2], ops[3], ops[4], ops[5], ops[8], ops[10], ops[16], ops[17]}
	tb := 4
	if c.thorough {
		tb = 1000
	}
	for _, init := range []tree{inits[0], inits[2]} {
		for i := range few {
			for j := i; j < len(few); j++ {
				for k := j; k < len(few); k++ {
					c16Run(c, "triples", tb, false, init, [][]cop{{few[i]}, {few[j]}, {few[k]}})
				}
			}
		}
	}
	// Large contents, many entries.
	large := tree{".": mdir(0), "a": mdir(0o700), "a/b": mfile(0o640, string(pattern(70001, 1))), "c": mfile(0o600, "see")}
	for i := 0; i < 9; i++ {
		large[fmt.Sprintf("a/f%d", i)] = mfile(0o600, "f")
	}
	lops := []cop{
		cWrite("a/b", string(pattern(70001, 2)), 0o644), cWrite("a/b", string(pattern(33000, 3)), 0o644), cWrite("a/b", "short", 0o644), cWrite("a/c", string(pattern(70001, 4)), 0o644),
		cRead("a/b", 30000), cRead("a/b", 80000), cList("a"), cPages("a"), cStat("a/b"), cVia("a", cRead("b", 40000), "b"),
	}
	for i := range lops {
		for j := i; j < len(lops); j++ {
			c16Run(c, "large-sync", 4, false, large, [][]cop{{lops[i]}, {lops[j]}})
			if i == j && strings.HasSuffix(lops[i].name, "by 1") && !c.thorough {
				continue
			}
			c16Run(c, "large-statements", 1, true, large, [][]cop{{lops[i]}, {lops[j]}})
		}
	}
	// An archive is created meanwhile.
	cb := 3
	if c.thorough {
		cb = 5
	}
	writes := []cop{
		cWrite("a/b", "new contents", 0o644), cWrite("a/b", "longer than the old contents", 0o644), cWrite("a/b", "", 0o644),
		cWrite("c", "SEE", 0o644), cWrite("b", "BEE", 0o644), cWrite("c", pattern4097, 0o644), cMkdir("a/z", 0o755), cMkdir("d", 0o755), cWrite("a/a", "first", 0o600), cWrite("z", "last", 0o600),
	}
	for _, init := range []tree{
		{".": mdir(0), "a": mdir(0o700), "a/b": mfile(0o640, "old contents"), "c": mfile(0o600, "see")},
		{".": mdir(0), "b": mfile(0o640, "bee"), "c": mfile(0o600, "see")},
	} {
		for _, format := range "tea" {
			for i, o := range writes {
				c16Create(c, cb, byte(format), init, []cop{o})
				for j, o2 := range writes {
					if i != j && (c.thorough || (i+j)%2 == 1) {
						c16Create(c, cb, byte(format), init, []cop{o, o2})
					}
				}
			}
		}
	}
	few, bound := few[:8], 2
	few = []cop{ops[0], ops[2], ops[3], ops[4], ops[8], ops[10], ops[14], ops[16]}
	if c.thorough {
		few, bound = append(few, ops[5], ops[17], ops[12]), 3
	}
	for _, init := range []tree{inits[1], inits[2]} {
		for n := 0; n < len(few)*len(few); n++ {
			for k := n; k < len(few)*len(few); k++ {
				c16Run(c, "sequences", bound, false, init, [][]cop{{few[n/len(few)], few[n%len(few)]}, {few[k/len(few)], few[k%len(few)]}})
			}
		}
	}
}

// c16Create creates an archive from a filesystem that changes meanwhile: it
// may fail, but what it records was there at some time.
func c16Create(c *ctx, bound int, format byte, init tree, ops []cop) {
	c.explore("creations", bound, func() string {
		return fmt.Sprintf("initially %v\ncreating an archive (%c), meanwhile %v", init, format, ops)
	}, func() func(t *t) {
		return func(t *t) {
			races := vrt.RaceErrors()
			f := memOf(init)
			d := &dest{format: format}
			var err error
			r := vrt.RunThreads(func() { err = d.create(f) }, func() {
				for _, o := range ops {
					o.run(f)
				}
			})
			t.step(int(r.Sched.Points))
			raced(t, races)
			if r.Deadlock != "" {
				t.fatal("deadlock", "%s", r.Deadlock)
			}
			for _, p := range r.Panics {
				t.fail("panic", "%s", p)
			}
			if len(t.fails) > 0 {
				return
			}
			// Every version there was of every file.
			versions := []tree{init}
			m := memOf(init)
			resized := false
			for _, o := range ops {
				o.run(m)
				tr, err := observe(m)
				if err != nil {
					t.fatal("observe", "%v", err)
				}
				for p, n := range tr {
					old := versions[len(versions)-1][p]
					if old == nil || len(old.data) != len(n.data) {
						resized = true
					}
				}
				versions = append(versions, tr)
			}
			if err != nil {
				// What doesn't fit may be refused.
				if !resized && format != 'a' {
					t.fatal("creation", "creation fails although no sizes change: %v", err)
				}
				return
			}
			fsys, err := openArchive(format, ra(d.bytes()))
			if err != nil {
				t.fatal("creation", "the archive does not open: %v", err)
			}
			got, err := observe(fsys)
			if err != nil {
				t.fatal("creation", "%v", err)
			}
			t.state(init, string(format), fmt.Sprint(ops), got)
			for p, n := range init {
				if p != "." && got[p] == nil && (n.kind == 'f' || format != 'a') {
					t.fatal("creation", "%q is missing from the archive: %v", p, got)
				}
			}
			for p, n := range got {
				ok := p == "."
				for _, v := range versions {
					if w := v[p]; w != nil && w.kind == n.kind && w.mode == n.mode && bytes.Equal(w.data, n.data) {
						ok = true
					}
				}
				if !ok {
					t.fatal("creation", "%q in the archive was never like this in the filesystem: %v", p, n)
				}
			}
		}
	})
}

func c16Run(c *ctx, space string, bound int, points bool, init tree, threads [][]cop) {
	c.explore(space, bound, func() string {
		s := "initially " + init.String() + "\n"
		for i, ops := range threads {
			s += fmt.Sprintf("T%d: %v\n", i, ops)
		}
		return s
	}, func() func(t *t) {
		return func(t *t) {
			races := vrt.RaceErrors()
			f := memOf(init)
			calls := make([][]called, len(threads))
			var fns []func()
			for i, ops := range threads {
				mine := make([]called, len(ops))
				calls[i] = mine
				fns = append(fns, func() {
					for k, o := range ops {
						mine[k].o = o
						mine[k].start = vrt.Tick()
						mine[k].res = o.run(f)
						mine[k].end = vrt.Tick()
						mine[k].returned = true
					}
				})
			}
			vrt.PointScheduling = points
			r := vrt.RunThreads(fns...)
			vrt.PointScheduling = false
			t.step(int(r.Sched.Points))
			raced(t, races)
			if r.Deadlock != "" {
				t.fatal("deadlock", "%s", r.Deadlock)
			}
			for _, p := range r.Panics {
				t.fail("panic", "%s", p)
			}
			if len(t.fails) > 0 {
				return
			}
			var all []called
			for _, cs := range calls {
				all = append(all, cs...)
			}
			// The final state.
			got, err := observe(f)
			if err != nil {
				t.fatal("observe", "%v", err)
			}
			why := ""
			var last tree
			if !linearize(init, all, func(tr tree) bool {
				if d := diff(tr, got, memCmp); d != "" {
					why = "finally " + d
					return false
				}
				for _, cl := range all {
					if cl.o.loose == nil {
						continue
					}
					before, after := init, tr
					if w := cl.o.loose(before, after, cl.res); w != "" {
						why = cl.o.name + ": " + w
						return false
					}
				}
				last = tr
				return true
			}) {
				s := ""
				for _, cl := range all {
					s += "\n" + cl.String()
				}
				t.fatal("not-linearizable", "no order of the calls explains the results%s\nfinally %v\n%s", s, got, why)
			}
			t.state(init, last, fmt.Sprint(threads), fmt.Sprint(all))
		}
	})
}

var _ = os.Getenv
