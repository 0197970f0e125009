package main

import (
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"strings"

	"github.com/dpeckett/archivefs/internal/vrt"
)

func init() {
	register(&check{
		id:    "C17",
		level: "model_checking",
		rule:  "a state is a distinct combination of archive, operations and results; transitions are scheduling steps of the real code; traces_validated counts interleavings executed",
		bounds: []string{
			"25 small archives that together use every feature of the formats; 2 of them are used through the lower-level interface of inodes",
			"pairs: 2 goroutines, every operation on every one of up to 6 paths, or using entries of one listing, against every other: every interleaving of reads and locks with up to 1 preemption (thorough: 2)",
			"statements: for 8 archives, every interleaving of statements with 1 preemption of a selection of pairs (thorough: for all archives and all pairs)",
			"triples: 3 goroutines with 2 operations each in rotating combinations: reads and locks with 1 preemption (thorough: 2)",
			"archives: for 6 archives, 2 goroutines (thorough: for all, also 3) which open the same archive again, read everything, or create a tar, EROFS or ar archive from what was opened: every interleaving of reads and locks with up to 1 preemption (thorough: 2)",
			"large: 4 archives with files of up to 70 kB and a directory of 70 entries: 2 goroutines, every pair of reads with buffers of 3 sizes, listings and lookups: every interleaving of reads and locks with up to 1 preemption",
			"the race detector watches every execution",
		},
		run:    runC17,
		budget: 3_000_000,
	})
}

// quiet is storage without any state of its own.
type quiet struct{ b []byte }

func (q *quiet) ReadAt(p []byte, off int64) (int, error) {
	vrt.SyncPoint()
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	if off >= int64(len(q.b)) {
		return 0, io.EOF
	}
	n := copy(p, q.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// task is what a goroutine does.
type task struct {
	name string
	p    string
	f    func(fsys fs.FS, shared map[string][]fs.DirEntry) outcome
}

func (t task) String() string { return t.name + " " + t.p }

// tasksOf are the tasks for an archive.
func tasksOf(a archive, full bool) (tasks []task, dirs []string) {
	var paths []string
	seen := map[string]bool{}
	add := func(p string) {
		if len(p) < 60 && !seen[p] && a.tr[p] != nil {
			seen[p] = true
			paths = append(paths, p)
		}
	}
	for _, p := range []string{".", "d", "d/f", "d/l", "l", "s", "h", "g", "c"} {
		add(p)
	}
	for _, p := range a.tr.paths() {
		if len(paths) < 4 {
			add(p)
		}
	}
	if len(paths) > 6 {
		paths = paths[:6]
	}
	for _, p := range paths {
		n := a.tr[p]
		for i := range readOps {
			o := &readOps[i]
			switch {
			case (o.name == "read" || o.name == "open") && n.kind == 'd',
				(o.name == "readdir" || o.name == "infos" || o.name == "pages") && n.kind != 'd',
				(o.name == "readlink" || o.name == "statlink") && n.kind != 'l':
				continue
			}
			tasks = append(tasks, task{o.name, p, func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
				s, err := o.f(fsys, p)
				return outcome{s, err}
			}})
		}
		if n.kind == 'f' {
			tasks = append(tasks, task{"read by 50", p, func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
				s, err := readSome(fsys, p, 50)
				return outcome{s, err}
			}})
		}
		if n.kind == 'd' {
			dirs = append(dirs, p)
			tasks = append(tasks, task{"use of shared entries", p, func(_ fs.FS, shared map[string][]fs.DirEntry) outcome {
				var b strings.Builder
				for i, e := range shared[p] {
					if i > 8 {
						break
					}
					fi, err := e.Info()
					if err != nil {
						return outcome{b.String(), err}
					}
					fmt.Fprintf(&b, "%q %c %v %s; ", e.Name(), kindOf(e.Type()), e.IsDir(), infoString(fi))
				}
				return outcome{b.String(), nil}
			}})
		}
	}
	tasks = append(tasks, task{"stat", "nope", func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
		_, err := fs.Stat(fsys, "nope")
		return outcome{"", err}
	}})
	if !full {
		var some []task
		for i, k := range tasks {
			if i%5 == 0 || strings.HasPrefix(k.name, "use") {
				some = append(some, k)
			}
		}
		tasks = some
	}
	return tasks, dirs
}

// everything is all that can be seen of a filesystem.
func everything(fsys fs.FS) outcome {
	tr, err := observe(fsys)
	return outcome{tr.String(), err}
}

// archiveTasks are tasks that open or create a whole archive.
func archiveTasks(a archive) []task {
	tasks := []task{
		{"open", "", func(fs.FS, map[string][]fs.DirEntry) outcome {
			fsys, err := openArchive(a.how(), &quiet{a.b})
			if err != nil {
				return outcome{"", err}
			}
			return everything(fsys)
		}},
		{"read everything", "", func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
			return everything(fsys)
		}},
	}
	for _, format := range "tea" {
		tasks = append(tasks, task{"create " + string(format), "", func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
			vrt.SyncPoint()
			d := &dest{format: byte(format)}
			d.w.fault = func(n int) (int, error) { vrt.SyncPoint(); return n, nil }
			d.m.fault = func(_ int64, n int) (int, error) { vrt.SyncPoint(); return n, nil }
			err := d.create(fsys)
			if err != nil {
				return outcome{"", err}
			}
			return outcome{fmt.Sprintf("%d %x", len(d.bytes()), sha256.Sum256(d.bytes())), nil}
		}})
	}
	return tasks
}

func runC17(c *ctx) {
	arch := corpus()
	bound := 1
	if c.thorough {
		bound = 2
	}
	runC17Large(c, 1)
	for ai, a := range arch {
		if strings.Contains(a.name, "loop") {
			continue
		}
		all, dirs := tasksOf(a, true)
		for i := range all {
			for j := i; j < len(all); j++ {
				c17Run(c, "pairs", bound, false, a, dirs, [][]task{{all[i]}, {all[j]}})
			}
		}
		for i := range all {
			n := len(all)
			c17Run(c, "triples", map[bool]int{false: 1, true: 2}[c.thorough], false, a, dirs, [][]task{{all[i], all[(i+1)%n]}, {all[(i+3)%n], all[(2*i)%n]}, {all[(n-i)%n], all[i]}})
		}
		arch := archiveTasks(a)
		// Those with many blocks take much longer.
		some := ai%4 == 1
		if strings.Contains(a.name, "by inodes") {
			some = !strings.Contains(a.name, "blocks")
		}
		if !c.thorough && !some {
			arch = nil
		}
		for i := range arch {
			for j := i; j < len(arch); j++ {
				c17Run(c, "archives", bound, false, a, dirs, [][]task{{arch[i]}, {arch[j]}})
				if c.thorough {
					c17Run(c, "archives-3", 1, false, a, dirs, [][]task{{arch[i]}, {arch[j]}, {arch[(i+j)%len(arch)]}})
				}
			}
		}
		switch {
		case c.thorough:
		case some || strings.Contains(a.name, "own") || strings.Contains(a.name, "basic"):
			all, dirs = tasksOf(a, false)
		default:
			continue
		}
		for i := range all {
			for j := i; j < len(all); j++ {
				c17Run(c, "statements", 1, true, a, dirs, [][]task{{all[i]}, {all[j]}})
			}
		}
	}
}

// runC17Large has files of many kilobytes and a directory of many entries.
func runC17Large(c *ctx, bound int) {
	for _, a := range largeArchives() {
		var tasks []task
		for _, p := range []string{"a", "b", "l"} {
			if a.tr[p] == nil {
				continue
			}
			for _, n := range []int{5000, 40000, 100000} {
				if p == "l" && n != 40000 {
					continue
				}
				tasks = append(tasks, task{fmt.Sprint("read by ", n), p, func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
					s, err := readSome(fsys, p, n)
					return outcome{s, err}
				}})
			}
			tasks = append(tasks, task{"read file", p, func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
				b, err := fs.ReadFile(fsys, p)
				return outcome{string(b), err}
			}})
		}
		if a.tr["d"] != nil {
			tasks = append(tasks, task{"list", "d", func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
				es, err := fs.ReadDir(fsys, "d")
				return outcome{entriesString(es, true), err}
			}})
			for _, i := range []int{3, 66} {
				p := "d/" + a.tr.kids("d")[i]
				tasks = append(tasks, task{"stat and read", p, func(fsys fs.FS, _ map[string][]fs.DirEntry) outcome {
					fi, err := fs.Stat(fsys, p)
					if err != nil {
						return outcome{"", err}
					}
					b, err := fs.ReadFile(fsys, p)
					return outcome{infoString(fi) + string(b), err}
				}})
			}
		}
		for i := range tasks {
			for j := i; j < len(tasks); j++ {
				c17Run(c, "large", bound, false, a, nil, [][]task{{tasks[i]}, {tasks[j]}})
			}
		}
	}
}

// alone are the results of tasks that were performed alone.
var alone = map[string]outcome{}

func c17Run(c *ctx, space string, bound int, points bool, a archive, dirs []string, threads [][]task) {
	c.explore(space, bound, func() string { return fmt.Sprintf("%s: %v", a.name, threads) }, func() func(t *t) {
		return func(t *t) {
			races := vrt.RaceErrors()
			open := func() (fs.FS, map[string][]fs.DirEntry) {
				fsys, err := openArchive(a.how(), &quiet{a.b})
				if err != nil {
					t.fatal("open", "%v", err)
				}
				shared := map[string][]fs.DirEntry{}
				for _, d := range dirs {
					es, err := fs.ReadDir(fsys, d)
					if err != nil {
						t.fatal("readdir", "%v", err)
					}
					shared[d] = es
				}
				return fsys, shared
			}
			// Alone.
			for _, ks := range threads {
				for _, k := range ks {
					if _, ok := alone[a.name+k.String()]; !ok {
						fsys, shared := open()
						alone[a.name+k.String()] = k.f(fsys, shared)
					}
				}
			}
			fsys, shared := open()
			got := make([][]outcome, len(threads))
			var fns []func()
			for i, ks := range threads {
				mine := make([]outcome, len(ks))
				got[i] = mine
				fns = append(fns, func() {
					for n, k := range ks {
						mine[n] = k.f(fsys, shared)
					}
				})
			}
			vrt.PointScheduling = points
			r := vrt.RunThreads(fns...)
			vrt.PointScheduling = false
			t.step(int(r.Sched.Points))
			t.state(a.name, fmt.Sprint(threads), r.Sched.Switches)
			raced(t, races)
			if r.Deadlock != "" {
				t.fatal("deadlock", "%s", r.Deadlock)
			}
			for _, p := range r.Panics {
				t.fail("panic", "%s", p)
			}
			for i, ks := range threads {
				for n, k := range ks {
					if want := alone[a.name+k.String()]; len(t.fails) == 0 && !got[i][n].same(want) {
						t.fail("differs", "T%d: %v gives %v, alone %v", i, k, got[i][n], want)
					}
				}
			}
		}
	})
}
