package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"

	"github.com/dpeckett/archivefs/internal/vrt"
)

func init() {
	register(&check{
		id:    "C13",
		level: "fault_enumeration",
		rule:  "an evaluation is one operation on one path of one archive (or opening it) with every fault injected into it in turn; distinct_nontrivial counts distinct (operation, fault) pairs executed",
		bounds: []string{
			"24 small archives that together use every feature of the formats, each path in them and paths that do not exist",
			"a fault at every single read of an operation: transient or lasting, with none, half or all of the data, six kinds of error (quick: of an operation with more than 100 reads, which only happens on paths that lead through themselves, a selection after the first 100)",
			"the same on filesystems that nothing has been done with yet: 6 of these faults",
			"thorough: every pair of faults in two consecutive operations on the same opened archive",
		},
		run:    runC13,
		budget: 1 << 30,
	})
}

// errInjected is the error of faulty storage.
var errInjected = errors.New("injected fault")

// injectedNotExist is an injected error that looks like a missing file.
type injectedNotExist struct{ base error }

func (e injectedNotExist) Error() string        { return "injected fault: " + e.base.Error() }
func (e injectedNotExist) Is(target error) bool { return target == e.base || target == errInjected }

// injected are the kinds of injected errors.
var injected = []error{errInjected, injectedNotExist{fs.ErrNotExist}, injectedNotExist{fs.ErrPermission}, injectedNotExist{fs.ErrClosed}, injectedNotExist{io.ErrUnexpectedEOF}, injectedNotExist{io.EOF}}

// faultMode is a way for reads to fail.
type faultMode struct {
	lasting bool
	part    int // 0: no data, 1: half, 2: all
	err     error
}

func (m faultMode) String() string {
	return fmt.Sprintf("lasting=%v, %s of the data, %v", m.lasting, []string{"none", "half", "all"}[m.part], m.err)
}

var faultModes = func() []faultMode {
	var out []faultMode
	for _, lasting := range []bool{false, true} {
		for part := 0; part < 3; part++ {
			for _, err := range injected {
				out = append(out, faultMode{lasting, part, err})
			}
		}
	}
	return out
}()

// coldModes are those that are also used on filesystems that are just opened.
var coldModes = []faultMode{
	{false, 0, errInjected}, {true, 0, errInjected}, {false, 0, injected[1]}, {true, 1, injected[1]}, {false, 1, injected[5]}, {false, 2, errInjected},
}

// inject makes the k-th read from now fail.
func (r *readerAt) inject(k int, m faultMode) {
	start := r.ops
	r.fault = func(off int64, n int) (int, error) {
		i := r.ops - 1 - start
		if i == k || m.lasting && i > k {
			switch m.part {
			case 0:
				return 0, m.err
			case 1:
				return n / 2, m.err
			}
			return n, m.err
		}
		return 0, nil
	}
}

func (r *readerAt) clear() { r.fault = nil }

// phased is an operation with a part in which no faults happen and a part in
// which they do.
type phased struct {
	name string
	// prep returns what act works on. nil: it is the filesystem.
	prep func(fsys fs.FS, p string) (any, error)
	// act performs the operation. If it is to be continued after an error, then
	// it adds to acc what it got.
	act func(x any, fsys fs.FS, p string, acc *strings.Builder) error
	// cont tells that the operation is continued after errors.
	cont bool
}

func handleOf(fsys fs.FS, p string) (any, error) { return fsys.Open(p) }

var phasedOps = func() []phased {
	var out []phased
	for _, o := range readOps {
		out = append(out, phased{name: o.name, act: func(_ any, fsys fs.FS, p string, acc *strings.Builder) error {
			s, err := o.f(fsys, p)
			acc.WriteString(s)
			return err
		}})
	}
	list := func(fsys fs.FS, p string) (any, error) { return fs.ReadDir(fsys, p) }
	out = append(out,
		phased{name: "types of listed entries", prep: list, act: func(x any, fsys fs.FS, p string, acc *strings.Builder) error {
			for _, e := range x.([]fs.DirEntry) {
				fmt.Fprintf(acc, "%q %c %v; ", e.Name(), kindOf(e.Type()), e.IsDir())
			}
			return nil
		}},
		phased{name: "info of listed entries", prep: list, act: func(x any, fsys fs.FS, p string, acc *strings.Builder) error {
			var first error
			for _, e := range x.([]fs.DirEntry) {
				fi, err := e.Info()
				if err != nil {
					if first == nil {
						first = err
					}
					continue
				}
				fmt.Fprintf(acc, "%s; ", infoString(fi))
			}
			return first
		}},
		phased{name: "stat of an open file", prep: handleOf, act: func(x any, fsys fs.FS, p string, acc *strings.Builder) error {
			fi, err := x.(fs.File).Stat()
			if err != nil {
				return err
			}
			acc.WriteString(infoString(fi))
			return nil
		}},
		phased{name: "close", prep: handleOf, act: func(x any, fsys fs.FS, p string, acc *strings.Builder) error {
			return x.(fs.File).Close()
		}, cont: true},
	)
	for _, size := range []int{61, 4096} {
		out = append(out, phased{name: fmt.Sprintf("read an open file by %d", size), prep: handleOf, cont: true, act: func(x any, fsys fs.FS, p string, acc *strings.Builder) error {
			buf := make([]byte, size)
			f := x.(fs.File)
			if _, ok := f.(fs.ReadDirFile); ok {
				return nil
			}
			for i := 0; i < 1000; i++ {
				n, err := f.Read(buf)
				acc.Write(buf[:n])
				if err == io.EOF {
					return nil
				}
				if err != nil {
					return err
				}
			}
			return errTooLong
		}})
	}
	for _, page := range []int{-1, 1, 3} {
		out = append(out, phased{name: fmt.Sprintf("list an open directory by %d", page), prep: handleOf, cont: true, act: func(x any, fsys fs.FS, p string, acc *strings.Builder) error {
			d, ok := x.(fs.ReadDirFile)
			if !ok {
				return nil
			}
			for i := 0; i < 100; i++ {
				es, err := d.ReadDir(page)
				for _, e := range es {
					fmt.Fprintf(acc, "%q %c; ", e.Name(), kindOf(e.Type()))
				}
				if err == io.EOF || err == nil && page < 0 {
					return nil
				}
				if err != nil {
					return err
				}
			}
			return errTooLong
		}})
	}
	return out
}()

// outcome is the result of an operation.
type outcome struct {
	s   string
	err error
}

func (o outcome) String() string { return fmt.Sprintf("%q, %v", trunc(o.s, 300), o.err) }

func (o outcome) same(p outcome) bool {
	return (o.err == nil) == (p.err == nil) && (o.err != nil || o.s == p.s)
}

// runPhased performs an operation without faults.
func runPhased(o *phased, fsys fs.FS, p string) outcome {
	var x any
	var err error
	if o.prep != nil {
		if x, err = o.prep(fsys, p); err != nil {
			return outcome{"", err}
		}
		if f, ok := x.(fs.File); ok && o.name != "close" {
			defer f.Close()
		}
	}
	var acc strings.Builder
	err = o.act(x, fsys, p, &acc)
	return outcome{acc.String(), err}
}

// sweep performs all operations on all paths.
func sweep(fsys fs.FS, paths []string) map[string]outcome {
	out := map[string]outcome{}
	for _, p := range paths {
		for i := range phasedOps {
			out[phasedOps[i].name+" "+p] = runPhased(&phasedOps[i], fsys, p)
		}
	}
	return out
}

// diffSweep describes the first difference between two sweeps.
func diffSweep(paths []string, want, got map[string]outcome) string {
	for _, p := range paths {
		for i := range phasedOps {
			k := phasedOps[i].name + " " + p
			if !want[k].same(got[k]) {
				return fmt.Sprintf("%s(%q) gives %v, want %v", phasedOps[i].name, p, got[k], want[k])
			}
		}
	}
	return ""
}

func c13Paths(a archive) []string {
	ps := a.tr.paths()
	if len(ps) > 12 {
		ps = append(ps[:6:6], ps[len(ps)-3:]...)
	}
	return append(ps, "nope", "d/nope", "l/f", "d/f/x", "../d")
}

func runC13(c *ctx) {
	for _, a := range append(corpus(), largeArchives()...) {
		paths := c13Paths(a)
		open := func() (fs.FS, *readerAt) {
			st := ra(a.b)
			fsys, err := openArchive(a.how(), st)
			if err != nil {
				panic(fmt.Sprint(a.name, ": ", err))
			}
			return fsys, st
		}

		// Faults while the archive is opened.
		c.each("open", func() string { return a.name }, func(t *t) {
			st := ra(a.b)
			clean, err := openArchive(a.how(), st)
			if err != nil {
				t.fatal("open", "%v", err)
			}
			reads := st.ops
			want := sweep(clean, paths)
			for k := 0; k < reads; k++ {
				for _, m := range faultModes {
					st := ra(a.b)
					st.inject(k, m)
					t.trans++
					t.state("open", a.b, k, m)
					fsys, err := openArchive(a.how(), st)
					st.clear()
					if err != nil {
						if !errors.Is(err, errInjected) {
							t.fail("open-error", "opening with a fault at read %d of %d (%v) fails with %v, which doesn't carry the error", k, reads, m, err)
						}
						continue
					}
					if d := diffSweep(paths, want, sweep(fsys, paths)); d != "" {
						t.fail("open-damage", "opening with a fault at read %d of %d (%v) succeeds, but %s", k, reads, m, d)
					}
				}
			}
		})

		// Faults in operations.
		for _, p := range paths {
			for i := range phasedOps {
				o := &phasedOps[i]
				c.each("ops", func() string { return fmt.Sprintf("%s: %s(%q)", a.name, o.name, p) }, func(t *t) {
					fsys, st := open()
					want := runPhased(o, fsys, p)
					before := sweep(fsys, paths)
					for k := 0; ; k++ {
						if !c.thorough && k > 100 {
							k += k / 10 // only paths that lead through many links need so many reads
						}
						hit := false
						for _, m := range faultModes {
							if faultOp(t, fsys, st, o, p, k, m, want) {
								hit = true
								t.state(a.name, o.name, p, k, m)
							}
						}
						// On a filesystem that nothing has been done with.
						for _, m := range coldModes {
							fresh, st := open()
							if faultOp(t, fresh, st, o, p, k, m, want) {
								hit = true
								t.state("fresh", a.name, o.name, p, k, m)
							}
							if k < 2 {
								if d := diffSweep(paths, before, sweep(fresh, paths)); d != "" {
									t.fail("poisoned", "after a fault in %s(%q) on a fresh filesystem, %s", o.name, p, d)
								}
							}
						}
						if !hit {
							break
						}
					}
					if d := diffSweep(paths, before, sweep(fsys, paths)); d != "" {
						t.fail("poisoned", "after faults in %s(%q), %s", o.name, p, d)
					}
				})
			}
		}
		if !c.thorough {
			continue
		}
		for _, p := range paths {
			for i := range phasedOps {
				for j := range phasedOps {
					o1, o2 := &phasedOps[i], &phasedOps[j]
					c.each("pairs", func() string { return fmt.Sprintf("%s: %s, %s(%q)", a.name, o1.name, o2.name, p) }, func(t *t) {
						m := faultModes[0]
						for k := 0; k < 100; k++ {
							hit := false
							for l := 0; l < 100; l++ {
								fsys, st := open()
								want1, want2 := runPhased(o1, fsys, p), runPhased(o2, fsys, p)
								if !faultOp(t, fsys, st, o1, p, k, m, want1) {
									break
								}
								hit = true
								if !faultOp(t, fsys, st, o2, p, l, m, want2) {
									break
								}
								t.state(a.name, o1.name, o2.name, p, k, l)
							}
							if !hit {
								break
							}
						}
					})
				}
			}
		}
	}
}

// faultOp performs an operation with a fault at its k-th read and reports
// whether it got that far.
func faultOp(t *t, fsys fs.FS, st *readerAt, o *phased, p string, k int, m faultMode, want outcome) bool {
	t.trans++
	vrt.SetBudget(t.c.chk.budget)
	var x any
	if o.prep != nil {
		var err error
		if x, err = o.prep(fsys, p); err != nil {
			if want.err == nil {
				t.fatal("prepare", "%s(%q) fails without a fault: %v", o.name, p, err)
			}
			return false
		}
		if f, ok := x.(fs.File); ok && o.name != "close" {
			defer f.Close()
		}
	}
	start := st.ops
	st.inject(k, m)
	var acc strings.Builder
	err := o.act(x, fsys, p, &acc)
	st.clear()
	hit := st.ops-start > k
	where := fmt.Sprintf("%s(%q) with a fault at read %d (%v)", o.name, p, k, m)
	if err != nil {
		switch {
		case want.err != nil && (err.Error() == want.err.Error() || errors.Is(err, want.err)):
		case !hit:
			t.fail("not-repeatable", "%s(%q) gives %v, then %v", o.name, p, want, outcome{acc.String(), err})
		case !errors.Is(err, errInjected):
			t.fail("error", "%s fails with %v, which doesn't carry the error; without the fault: %v", where, err, want)
		}
	} else if got := (outcome{acc.String(), nil}); !got.same(want) {
		t.fail("wrong", "%s gives %v, want %v", where, got, want)
	}
	if err == nil || want.err != nil {
		return hit
	}
	if !o.cont {
		// Repeat it.
		acc.Reset()
		err = o.act(x, fsys, p, &acc)
		if got := (outcome{acc.String(), err}); !got.same(want) {
			t.fail("repeat", "%s, repeated without the fault: %v, want %v", where, got, want)
		}
		return hit
	}
	// What was cut short can be continued, or fails for good.
	for i := 0; i < 3 && err != nil; i++ {
		err = o.act(x, fsys, p, &acc)
	}
	if err == nil && acc.String() != want.s && o.name != "close" {
		t.fail("continued", "%s, continued without the fault, ends with %q, want %v", where, trunc(acc.String(), 300), want)
	}
	if got := runPhased(o, fsys, p); !got.same(want) {
		t.fail("repeat", "%s, repeated without the fault: %v, want %v", where, got, want)
	}
	return hit
}
