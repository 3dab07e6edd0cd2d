// Package filepath is a drop-in replacement: pure functions are the real ones,
// those that look at the disk look at the simulated one.
package filepath

import (
	"io/fs"
	rfp "path/filepath"
	"sort"

	"github.com/KarmaPenny/pdfparser/zzsim/os"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

const (
	ListSeparator = rfp.ListSeparator
	Separator     = rfp.Separator
)

type WalkFunc = rfp.WalkFunc

var (
	ErrBadPattern = rfp.ErrBadPattern
	SkipAll       = rfp.SkipAll
	SkipDir       = rfp.SkipDir
	Base          = rfp.Base
	Clean         = rfp.Clean
	Dir           = rfp.Dir
	Ext           = rfp.Ext
	FromSlash     = rfp.FromSlash
	IsAbs         = rfp.IsAbs
	IsLocal       = rfp.IsLocal
	Join          = rfp.Join
	Localize      = rfp.Localize
	Match         = rfp.Match
	Rel           = rfp.Rel
	Split         = rfp.Split
	SplitList     = rfp.SplitList
	ToSlash       = rfp.ToSlash
	VolumeName    = rfp.VolumeName
)

func Abs(p string) (string, error) { return rt.W.FS.Abs(p), nil }
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	q, _ := rt.W.FS.Real(rt.W.FS.Abs(p), true)
	return q, nil
}

func Glob(pattern string) (m []string, err error) {
	for p := range rt.W.FS.Nodes {
		if ok, e := Match(pattern, p); e != nil {
			return nil, e
		} else if ok {
			m = append(m, p)
		}
	}
	sort.Strings(m)
	return m, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}
