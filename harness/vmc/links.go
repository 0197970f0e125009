package main

import (
	"bytes"
	"errors"
	"io/fs"
	"path"
	"strings"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/internal/vrt"
)

// linkFS is what both filesystems with symbolic links implement.
type linkFS interface {
	archivefs.ReadLinkFS
	fs.ReadDirFS
	fs.StatFS
}

// linkTree is a tree in which every file and directory can be told apart.
func linkTree() tree {
	tr := tree{
		".":       directory(),
		"d":       directory(),
		"d/e":     directory(),
		"f":       file("f"),
		"d/f":     file("d/f"),
		"d/e/f":   file("d/e/f"),
		"d/g":     file("d/g"),
		"d/e/d":   directory(),
		"d/e/d/f": file("d/e/d/f"),
	}
	modes := []fs.FileMode{0o700, 0o710, 0o720, 0o730, 0o740, 0o750, 0o751, 0o752, 0o753, 0o754}
	for i, p := range tr.paths() {
		if tr[p].kind == 'd' {
			tr[p].mode = modes[i]
		}
	}
	return tr
}

// allPaths returns all paths of up to depth elements.
func allPaths(elems []string, depth int) []string {
	var out []string
	for n := 1; n <= depth; n++ {
		eachSeq(len(elems), n, func(idx []int) {
			var p []string
			for _, i := range idx {
				p = append(p, elems[i])
			}
			out = append(out, strings.Join(p, "/"))
		})
	}
	return out
}

// lookupAll checks lookups. Those that never end are expensive: the quick check
// makes do with the first few of each tree.
func lookupAll(t *t, fsys linkFS, tr tree, queries []string) {
	loops := 0
	for _, q := range queries {
		if _, err := tr.walkPOSIX(q, true); err == errLoop {
			if loops++; loops > 6 && !t.c.thorough {
				continue
			}
		}
		vrt.SetBudget(t.c.chk.budget)
		checkLookup(t, fsys, tr, q)
	}
}

// checkLookup compares everything that can be asked about a path with what
// POSIX demands.
func checkLookup(t *t, fsys linkFS, tr tree, q string) {
	p, err, many := tr.walkLenient(q, true)
	want := tr[p]
	// What is wrong with a path can be told from the error: there is nothing
	// (creation of the file would help), or it does not lead anywhere.
	class := func(what string, err, gotErr error, many bool) {
		switch missing := errors.Is(gotErr, fs.ErrNotExist); {
		case err == errNotExist && !missing && !many:
			t.fatal("error", "%s(%q) fails with %v, which is not fs.ErrNotExist, but the path %v", what, q, gotErr, err)
		case err == errLoop && missing:
			t.fatal("error", "%s(%q) fails with %v, which is fs.ErrNotExist, but the path %v", what, q, gotErr, err)
		}
	}

	f, gotErr := fsys.Open(q)
	switch {
	case err != nil && gotErr == nil && !many:
		t.fatal("open", "Open(%q) succeeds, but the path %v", q, err)
	case err == nil && gotErr != nil && !many:
		t.fatal("open", "Open(%q) fails with %v, but leads to %q", q, gotErr, p)
	case gotErr == nil && want != nil:
		fi, err := f.Stat()
		if err != nil {
			t.fatal("open", "Open(%q).Stat: %v", q, err)
		}
		sameNode(t, "Open("+q+").Stat", p, want, fi)
		if want.kind == 'f' {
			b, err := readHandle(f, 64)
			if err != nil || !bytes.Equal(b, want.data) {
				t.fatal("open", "Open(%q) reads %q, %v, but leads to %q", q, b, err, p)
			}
		} else if want.kind == 'd' {
			if df, ok := f.(fs.ReadDirFile); ok {
				es, err := df.ReadDir(-1)
				sameNames(t, "Open("+q+").ReadDir", tr, p, es, err)
			}
		}
		f.Close()
	}

	class("Open", err, gotErr, many)

	fi, gotErr := fsys.Stat(q)
	switch {
	case err != nil && gotErr == nil && !many:
		t.fatal("stat", "Stat(%q) succeeds, but the path %v", q, err)
	case err == nil && gotErr != nil && !many:
		t.fatal("stat", "Stat(%q) fails with %v, but leads to %q", q, gotErr, p)
	case gotErr == nil && want != nil:
		sameNode(t, "Stat("+q+")", p, want, fi)
	}

	class("Stat", err, gotErr, many)

	es, gotErr := fsys.ReadDir(q)
	isDir := err == nil && want.kind == 'd'
	switch {
	case !isDir && gotErr == nil && !many:
		t.fatal("readdir", "ReadDir(%q) succeeds, but does not lead to a directory", q)
	case isDir && !many:
		sameNames(t, "ReadDir("+q+")", tr, p, es, gotErr)
	}

	class("ReadDir", err, gotErr, many)

	// Without following the last element.
	p, err, many = tr.walkLenient(q, false)
	want = tr[p]
	fi, gotErr = fsys.StatLink(q)
	switch {
	case err != nil && gotErr == nil && !many:
		t.fatal("statlink", "StatLink(%q) succeeds, but the path %v", q, err)
	case err == nil && gotErr != nil && !many:
		t.fatal("statlink", "StatLink(%q) fails with %v, but leads to %q", q, gotErr, p)
	case gotErr == nil && want != nil:
		sameNode(t, "StatLink("+q+")", p, want, fi)
	}
	class("StatLink", err, gotErr, many)
	target, gotErr := fsys.ReadLink(q)
	class("ReadLink", err, gotErr, many)
	isLink := err == nil && want.kind == 'l'
	switch {
	case !isLink && gotErr == nil && !many:
		t.fatal("readlink", "ReadLink(%q) is %q, but does not lead to a link", q, target)
	case isLink && gotErr != nil && !many:
		t.fatal("readlink", "ReadLink(%q) fails with %v, but leads to the link %q", q, gotErr, p)
	case isLink && gotErr == nil && target != want.target:
		t.fatal("readlink", "ReadLink(%q) is %q, want %q", q, target, want.target)
	}
	t.step(5)
}

func sameNode(t *t, what, p string, want *node, fi fs.FileInfo) {
	if k := kindOf(fi.Mode()); k != want.kind || fi.IsDir() != (k == 'd') {
		t.fatal("wrong-node", "%s has type %c, but leads to %q: %v", what, k, p, want)
	}
	if p == "." {
		return
	}
	if m := fi.Mode() & permBits; m != want.mode && want.kind != 'l' {
		t.fatal("wrong-node", "%s has mode %v, but leads to %q: %v", what, m, p, want)
	}
	if want.kind == 'f' && fi.Size() != int64(len(want.data)) {
		t.fatal("wrong-node", "%s has size %d, but leads to %q: %v", what, fi.Size(), p, want)
	}
	if !fi.ModTime().Equal(want.mtime) {
		t.fatal("wrong-node", "%s has time %v, but leads to %q: %v", what, fi.ModTime(), p, want)
	}
}

func sameNames(t *t, what string, tr tree, p string, es []fs.DirEntry, err error) {
	if err != nil {
		t.fatal("readdir", "%s fails with %v, but leads to %q", what, err, p)
	}
	var got []string
	for _, e := range es {
		got = append(got, e.Name())
	}
	if g, w := strings.Join(got, "|"), strings.Join(tr.kids(p), "|"); g != w {
		t.fatal("readdir", "%s lists %q, but leads to %q, which has %q", what, g, p, w)
	}
	for _, e := range es {
		if k := kindOf(e.Type()); k != tr[path.Join(p, e.Name())].kind {
			t.fatal("readdir", "%s: %q has type %c", what, e.Name(), k)
		}
	}
}

// linkSpaces enumerates trees with symbolic links, and the paths to look up.
func linkSpaces(c *ctx, try func(space string, tr tree, queries []string)) {
	elems := []string{"..", ".", "d", "e", "f", "l", "nope"}
	var targets []string
	depth := 3
	for _, p := range allPaths(elems, depth) {
		targets = append(targets, p, "/"+p)
		if strings.Count(p, "/") < 2 {
			targets = append(targets, p+"/", "/"+p+"//", p+"/.")
		}
	}
	targets = append(targets, "/", "//", "//d", "d//e", "/d//e/.//f", "..//..", "../../../../d", "d/", "/d/e/", "./", "/..")
	places := []string{"l", "d/l", "d/e/l"}
	queries := append(allPaths([]string{"d", "e", "f", "l", "nope"}, 3), "d/e/l/d", "d/e/l/f", "d/e/l/l", "d/l/e/f", "d/l/e/l", ".", "d/e/l/d/e/f")
	// Names that some comparisons take for each other.
	eachTricky(func(names []string) {
		if len(names) > 2 {
			return
		}
		a, b := names[0], names[1]
		try("tricky-names", tree{".": directory(), a: directory(), a + "/" + a: file("x"), b: link(a)},
			[]string{a, b, a + "/" + a, b + "/" + a, a + "/" + b, b + "/" + b})
		try("tricky-names", tree{".": directory(), "d": directory(), "d/" + a: file("x"), "l": link("d/" + b)},
			[]string{"l", "d/" + a, "d/" + b, "d/" + b + a})
	})
	// Longer targets, of fewer different elements.
	var long []string
	eachSeq(4, 4, func(idx []int) {
		var p []string
		for _, i := range idx {
			p = append(p, []string{"..", "d", "e", "l"}[i])
		}
		q := strings.Join(p, "/")
		long = append(long, q, "/"+q, q+"/f")
	})
	for _, place := range places {
		for _, target := range long {
			tr := linkTree()
			tr[place] = link(target)
			try("one-long-link", tr, []string{place, place + "/f", place + "/e", place + "/l", "d/l/f", "d/e/l/d", "d/e/l/f"})
		}
	}
	for _, place := range places {
		for _, target := range targets {
			tr := linkTree()
			tr[place] = link(target)
			try("one-link", tr, queries)
		}
	}

	// Two links that may lead through each other.
	pool := []string{"f/", "m/", "d/m/", ".", "..", "d", "f", "l", "m", "d/m", "d/l", "../l", "../m", "/l", "/m", "/d/m", "/d/l", "l/..", "m/..", "l/f", "m/f", "m/e", "d/../m", "d/../l", "m/l", "l/m", "../d/l/e", "/", "nope", "nope/..", "f/..", "f/.", "e/../f", "m/../f", "l/../f"}
	if c.thorough {
		for _, p := range allPaths([]string{"..", "d", "l", "m", "e", "f"}, 2) {
			pool = append(pool, p, "/"+p)
		}
		seen := map[string]bool{}
		var uniq []string
		for _, p := range pool {
			if !seen[p] {
				seen[p] = true
				uniq = append(uniq, p)
			}
		}
		pool = uniq
	}
	queries2 := append(allPaths([]string{"d", "e", "f", "l", "m"}, 3), "d/l/m/f", "l/m/l/m", "d/e/l/f", ".")
	for _, pp := range [][2]string{{"l", "m"}, {"l", "d/m"}, {"d/l", "m"}, {"d/l", "d/m"}, {"d/e/l", "m"}, {"d/e/l", "d/m"}, {"d/l", "d/e/m"}} {
		for _, a := range pool {
			for _, b := range pool {
				tr := linkTree()
				tr[pp[0]], tr[pp[1]] = link(a), link(b)
				try("two-links", tr, queries2)
			}
		}
	}

	// Three links.
	pool3 := []string{"m", "n", "l", "../m", "d", "/d/n", "m/..", "d/n/f", "n/m", "..", "e/n", "/"}
	if c.thorough {
		pool3 = append(pool3, "../n", "/l/f", "n/../m", "f", "m/n/l", "../../l", "./m", "d/e")
	}
	queries3 := append(allPaths([]string{"l", "m", "n", "d", "f"}, 2), "d/n/f", "l/m/n", "m/n/l", "d/m/l", "d/m/f", "d/n/m", "l/e/f", "m/e/f")
	for _, pp := range [][3]string{{"l", "m", "d/n"}, {"l", "d/m", "d/n"}, {"d/l", "d/m", "d/e/n"}} {
		for _, a := range pool3 {
			for _, b := range pool3 {
				for _, d := range pool3 {
					tr := linkTree()
					tr[pp[0]], tr[pp[1]], tr[pp[2]] = link(a), link(b), link(d)
					try("three-links", tr, queries3)
				}
			}
		}
	}

	// Four links.
	pool4 := []string{"m", "n", "../l", "d/o", "..", "/d/", "n/"}
	if c.thorough {
		pool4 = append(pool4, "l", "n/..", "m/n", "/d/o/e", "d/../m")
	}
	queries4 := []string{"l", "m", "n", "d/l", "d/m", "d/n", "d/o", "d/e/o", "l/f", "m/f", "n/f", "d/o/f", "d/m/f", "d/n/f", "l/m/n", "m/l/d/f", "n/d/e/f", "d/o/d/f", "d/o/d/o", "l/d/n/f", "d/e/o/d", "d/e/o/e/f"}
	for _, pp := range [][4]string{{"l", "m", "n", "d/o"}, {"l", "m", "d/n", "d/o"}, {"d/l", "d/m", "n", "d/e/o"}} {
		eachSeq(len(pool4), 4, func(idx []int) {
			tr := linkTree()
			for i, k := range idx {
				tr[pp[i]] = link(pool4[k])
			}
			try("four-links", tr, queries4)
		})
	}

	// Long chains, deep directories, exponential expansions.
	for n := 1; n <= 300; n++ {
		if n > 60 && n%13 != 0 {
			continue
		}
		tr := linkTree()
		exp := linkTree()
		name := func(i int) string { return "c" + string(rune('a'+i/26)) + string(rune('a'+i%26)) }
		tr[name(0)], exp[name(0)] = link("d/f"), link("d")
		var qs, eqs []string
		for i := 1; i < n; i++ {
			tr[name(i)] = link(name(i - 1))
			if i%3 == 0 {
				tr[name(i)] = link("d/../" + name(i-1))
			}
			exp[name(i)] = link(name(i-1) + "/../" + name(i-1))
		}
		for _, i := range []int{0, n / 2, n - 1} {
			qs = append(qs, name(i))
			eqs = append(eqs, name(i), name(i)+"/f")
		}
		try("chains", tr, qs)
		if n <= 40 {
			try("expansions", exp, eqs)
		}
		cyc := tr.clone()
		cyc[name(0)] = link(name(n - 1))
		try("cycles", cyc, append(qs, name(0)+"/x"))
		// Climbing out of a deep directory.
		deep := linkTree()
		p := "."
		for i := 0; i < n && i < 40; i++ {
			p = path.Join(p, "x")
			deep[p] = directory()
		}
		deep[path.Join(p, "l")] = link(strings.Repeat("../", n) + "d/f")
		deep["m"] = link(p + "/l")
		try("deep", deep, []string{path.Join(p, "l"), "m", p})
	}
}

// treeString describes a case.
func linkDesc(tr tree) func() string {
	return func() string { return tr.String() }
}
