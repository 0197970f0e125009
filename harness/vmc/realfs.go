package main

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"syscall"
	"time"
)

// eachReal calls f with real directories, as most archives are made from:
// all trees of up to n nodes over 2 names and the given kinds, with
// attributes that vary. The directory exists until f returns.
func eachReal(c *ctx, n int, kinds string, f func(t *t, src fs.FS, want tree)) {
	names := []string{"a", "b.c"}
	i := 0
	for k := 0; k <= n; k++ {
		eachTree(k, names, kinds, func(tr tree) {
			for k := 0; k < 7; k++ {
				i++
				v := i
				c.each("real-directories", func() string { return fmt.Sprintf("attributes %d of\n%s", v, tr) }, func(t *t) {
					root, err := os.MkdirTemp("", "real.")
					if err != nil {
						panic(err)
					}
					defer os.RemoveAll(root)
					want, err := makeReal(root, tr, v)
					if err != nil {
						panic(err)
					}
					t.state(tr, v)
					f(t, os.DirFS(root), want)
					t.step(len(want))
				})
			}
		})
	}
}

// makeReal makes a tree in a directory and returns it with the attributes that
// its nodes actually have.
func makeReal(root string, tr tree, v int) (tree, error) {
	var last string
	for i, p := range tr.paths() {
		full := filepath.Join(root, filepath.FromSlash(p))
		n := tr[p]
		var err error
		switch {
		case p == ".":
		case n.kind == 'd':
			err = os.Mkdir(full, 0o755)
		case n.kind == 'l':
			err = os.Symlink(n.target, full)
		case last != "" && v%5 == 0:
			// Another name of the same file.
			err = os.Link(last, full)
		default:
			data := pattern([]int{0, 5, 1024, 1025, 4096, 10000}[(i+v)%6], byte(i))
			if err = os.WriteFile(full, data, 0o600); err == nil {
				last = full
			}
		}
		if err != nil {
			return nil, err
		}
	}
	// Attributes, of directories after those of what is in them.
	ps := tr.paths()
	for i := len(ps) - 1; i >= 0; i-- {
		full := filepath.Join(root, filepath.FromSlash(ps[i]))
		id := []int{0, 1, 1000, 65535, 65536, 70000, 1<<32 - 2}[(i+v)%7]
		_ = os.Lchown(full, id, 12+i) // needs to be root.
		if tr[ps[i]].kind == 'l' {
			continue
		}
		mode := []uint32{0o755, 0o4711, 0o2770, 0o1777, 0o700, 0o6755}[(i+v)%6]
		if err := syscall.Chmod(full, mode); err != nil {
			return nil, err
		}
		when := []time.Time{time.Unix(0, 0), time.Unix(1234567890, 123456789), time.Unix(-5, 999999999), time.Unix(1<<32+7, 1), epoch}[(i+v)%5]
		if err := os.Chtimes(full, when, when); err != nil {
			return nil, err
		}
	}
	want := tree{}
	for _, p := range ps {
		full := filepath.Join(root, filepath.FromSlash(p))
		fi, err := os.Lstat(full)
		if err != nil {
			return nil, err
		}
		n := infoNode(fi)
		st := fi.Sys().(*syscall.Stat_t)
		n.uid, n.gid = int(st.Uid), int(st.Gid)
		switch n.kind {
		case 'f':
			if n.data, err = os.ReadFile(full); err != nil {
				return nil, err
			}
		case 'l':
			n.target = tr[p].target
		}
		want[path.Clean(p)] = n
	}
	return want, nil
}

func realDepth(c *ctx) int {
	if c.thorough {
		return 5
	}
	return 4
}
