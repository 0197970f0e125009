package main

import (
	"errors"
	"io/fs"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/dpeckett/archivefs"
)

// plainFS is a filesystem as the tests of the standard library expect it:
// names that are not valid are refused, and the type of an entry of a listing
// has type bits only.
type plainFS struct{ fsys fs.FS }

type plainDir struct {
	fs.ReadDirFile
}

type plainEntry struct{ fs.DirEntry }

func (e plainEntry) Type() fs.FileMode { return e.DirEntry.Type().Type() }

func plainEntries(es []fs.DirEntry) []fs.DirEntry {
	out := make([]fs.DirEntry, len(es))
	for i, e := range es {
		out[i] = plainEntry{e}
	}
	return out
}

func (d plainDir) ReadDir(n int) ([]fs.DirEntry, error) {
	es, err := d.ReadDirFile.ReadDir(n)
	return plainEntries(es), err
}

func (p plainFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := p.fsys.Open(name)
	if err != nil {
		return nil, err
	}
	if d, ok := f.(fs.ReadDirFile); ok {
		if fi, err := f.Stat(); err == nil && fi.IsDir() {
			return plainDir{d}, nil
		}
	}
	return f, nil
}

func (p plainFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrInvalid}
	}
	es, err := fs.ReadDir(p.fsys, name)
	return plainEntries(es), err
}

func (p plainFS) Stat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrInvalid}
	}
	return fs.Stat(p.fsys, name)
}

// plainLinkFS is one with links.
type plainLinkFS struct {
	plainFS
	links archivefs.ReadLinkFS
}

func (p plainLinkFS) Lstat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "lstat", Path: name, Err: fs.ErrInvalid}
	}
	return p.links.StatLink(name)
}

func (p plainLinkFS) ReadLink(name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &fs.PathError{Op: "readlink", Path: name, Err: fs.ErrInvalid}
	}
	return p.links.ReadLink(name)
}

// standard runs the standard library's tests of filesystems on one that shows
// the tree, unless the tree has what they don't allow for: links that lead
// nowhere and backslashes in names.
func standard(t *t, s shown) {
	var want []string
	for p, n := range s.tr {
		if strings.Contains(p, `\`) {
			return
		}
		if n.kind == 'l' {
			if _, err, _ := s.tr.walkLenient(p, true); err != nil {
				return
			}
		}
		if p != "." {
			want = append(want, p)
		}
	}
	sort.Strings(want)
	var fsys fs.FS = plainFS{s.fsys}
	if l, ok := s.fsys.(archivefs.ReadLinkFS); ok {
		fsys = plainLinkFS{plainFS{s.fsys}, l}
	}
	t.step(len(want))
	if err := fstest.TestFS(fsys, want...); err != nil {
		t.fail("contract", "%s: %v", s.what, err)
	}
	if _, err := fsys.Open("x/../y"); !errors.Is(err, fs.ErrInvalid) {
		panic("invalid names are not refused")
	}
}
