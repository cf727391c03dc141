package vload

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// A small file system in memory stands for the real one in the engine; natively the harnesses work in a scratch directory.

type node struct {
	dir  bool
	data []byte
}

type handle struct {
	n      *node
	name   string
	at     int
	closed bool
	app    bool
}

var (
	tree    map[string]*node
	handles map[*os.File]*handle
)

// Scratch makes an empty directory.
func Scratch() string {
	if sym.Symbolic() {
		tree = map[string]*node{"/": {dir: true}, "/scratch": {dir: true}}
		handles = map[*os.File]*handle{}
		return "/scratch"
	}
	dir, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "fs")
	if err != nil {
		panic(err)
	}
	return dir
}

// Put writes a file, and the directories above it.
func Put(name string, data string) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, []byte(data), 0o644); err != nil {
		panic(err)
	}
}

// Files lists what is in a directory, at any depth: names relative to it (directories end with a slash) and contents.
func Files(dir string) map[string]string {
	out := map[string]string{}
	if sym.Symbolic() {
		for k, n := range tree {
			if !strings.HasPrefix(k, dir+"/") {
				continue
			}
			if n.dir {
				out[k[len(dir)+1:]+"/"] = ""
			} else {
				out[k[len(dir)+1:]] = string(n.data)
			}
		}
		return out
	}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		out[rel] = string(b)
		return err
	})
	return out
}

var modelCwd = "/verifwork"

// ModelGetwd replaces os.Getwd in the engine.
func ModelGetwd() (string, error) { return modelCwd, nil }

// ModelChdir replaces os.Chdir in the engine.
func ModelChdir(dir string) error {
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(modelCwd, dir)
	}
	modelCwd = filepath.Clean(dir)
	return nil
}

// ModelLstat replaces os.Lstat in the engine (there are no links).
func ModelLstat(name string) (fs.FileInfo, error) { return ModelStat(name) }

func lookup(name string) *node { return tree[filepath.Clean(name)] }

// ModelMkdirAll replaces os.MkdirAll in the engine.
func ModelMkdirAll(name string, perm os.FileMode) error {
	name = filepath.Clean(name)
	if n := tree[name]; n != nil {
		if n.dir {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: name, Err: errors.New("not a directory")}
	}
	if up := filepath.Dir(name); up != name {
		if err := ModelMkdirAll(up, perm); err != nil {
			return err
		}
	}
	if tree == nil {
		sym.Unsupported("no scratch directory")
	}
	tree[name] = &node{dir: true}
	return nil
}

func open(op, name string, create bool) (*os.File, error) {
	clean := filepath.Clean(name)
	n := tree[clean]
	if n == nil && !create {
		return nil, &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
	}
	if create {
		if n != nil && n.dir {
			return nil, &fs.PathError{Op: op, Path: name, Err: errors.New("is a directory")}
		}
		up := tree[filepath.Dir(clean)]
		if up == nil {
			return nil, &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
		}
		if !up.dir {
			return nil, &fs.PathError{Op: op, Path: name, Err: errors.New("not a directory")}
		}
		if n == nil {
			n = &node{}
			tree[clean] = n
		}
		n.data = nil
	}
	f := new(os.File)
	handles[f] = &handle{n: n, name: name}
	return f, nil
}

// ModelCreate replaces os.Create in the engine.
func ModelCreate(name string) (*os.File, error) { return open("open", name, true) }

// ModelOpenFile replaces os.OpenFile in the engine.
func ModelOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n := lookup(name)
	if flag&os.O_EXCL != 0 && n != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	var keep []byte
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 || flag&os.O_CREATE == 0 && n == nil {
		return open("open", name, false)
	}
	if n != nil {
		keep = n.data
	}
	f, err := open("open", name, true)
	if err != nil {
		return nil, err
	}
	h := handles[f]
	if flag&os.O_TRUNC == 0 {
		h.n.data = keep
	}
	if flag&os.O_APPEND != 0 {
		h.app = true
	}
	return f, nil
}

var modelTemp string

// TempIn makes dir (which exists) the directory for temporary files.
func TempIn(dir string) {
	if sym.Symbolic() {
		modelTemp = dir
		return
	}
	os.Setenv("TMPDIR", dir)
}

// ModelTempDir replaces os.TempDir in the engine.
func ModelTempDir() string {
	if modelTemp == "" {
		return "/tmp"
	}
	return modelTemp
}

// ModelCreateTemp replaces os.CreateTemp in the engine.
func ModelCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = ModelTempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 1; ; i++ {
		name := filepath.Join(dir, pre+strconv.Itoa(i)+suf)
		if tree[name] == nil {
			return open("open", name, true)
		}
	}
}

// ModelMkdirTemp replaces os.MkdirTemp in the engine.
func ModelMkdirTemp(dir, pattern string) (string, error) {
	f, err := ModelCreateTemp(dir, pattern)
	if err != nil {
		return "", err
	}
	tree[filepath.Clean(handles[f].name)] = &node{dir: true}
	return handles[f].name, nil
}

// ModelRemove replaces os.Remove in the engine.
func ModelRemove(name string) error {
	n := lookup(name)
	if n == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	if n.dir {
		for k := range tree {
			if strings.HasPrefix(k, filepath.Clean(name)+"/") {
				return &fs.PathError{Op: "remove", Path: name, Err: errors.New("directory not empty")}
			}
		}
	}
	delete(tree, filepath.Clean(name))
	return nil
}

// ModelRemoveAll replaces os.RemoveAll in the engine.
func ModelRemoveAll(name string) error {
	for k := range tree {
		if k == filepath.Clean(name) || strings.HasPrefix(k, filepath.Clean(name)+"/") {
			delete(tree, k)
		}
	}
	return nil
}

// ModelOpen replaces os.Open in the engine.
func ModelOpen(name string) (*os.File, error) { return open("open", name, false) }

// ModelFileName replaces (*os.File).Name in the engine.
func ModelFileName(f *os.File) string { return handles[f].name }

// ModelFileWrite replaces (*os.File).Write in the engine.
func ModelFileWrite(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil {
		return len(b), nil // standard output or error
	}
	if h.closed {
		return 0, &fs.PathError{Op: "write", Path: h.name, Err: fs.ErrClosed}
	}
	if h.app {
		h.at = len(h.n.data)
	}
	// what is behind the end of what is written stays
	data := append([]byte(nil), h.n.data[:h.at]...)
	data = append(data, b...)
	h.at += len(b)
	if h.at < len(h.n.data) {
		data = append(data, h.n.data[h.at:]...)
	}
	h.n.data = data
	return len(b), nil
}

// ModelFileWriteString replaces (*os.File).WriteString in the engine.
func ModelFileWriteString(f *os.File, s string) (int, error) { return ModelFileWrite(f, []byte(s)) }

// ModelFileRead replaces (*os.File).Read in the engine.
func ModelFileRead(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil || h.closed || h.n.dir {
		return 0, fs.ErrClosed
	}
	if h.at >= len(h.n.data) && len(b) > 0 {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.at:])
	h.at += n
	return n, nil
}

// ModelFileClose replaces (*os.File).Close in the engine.
func ModelFileClose(f *os.File) error {
	h := handles[f]
	if h == nil {
		return nil
	}
	if h.closed {
		return &fs.PathError{Op: "close", Path: h.name, Err: fs.ErrClosed}
	}
	h.closed = true
	return nil
}

// ModelWriteFile replaces os.WriteFile in the engine.
func ModelWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := open("open", name, true)
	if err != nil {
		return err
	}
	handles[f].n.data = append([]byte(nil), data...)
	return nil
}

type info struct {
	name string
	n    *node
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return int64(len(i.n.data)) }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) ModTime() (t time.Time)     { return t }
func (i info) Sys() any                   { return nil }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

// ModelStat replaces os.Stat in the engine.
func ModelStat(name string) (fs.FileInfo, error) {
	n := lookup(name)
	if n == nil {
		for f := range files {
			if filepath.Dir(f) == name {
				return info{filepath.Base(name), &node{dir: true}}, nil
			}
		}
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return info{filepath.Base(name), n}, nil
}

// ModelReadDir replaces os.ReadDir in the engine.
func ModelReadDir(name string) ([]os.DirEntry, error) {
	n := lookup(name)
	if n == nil || !n.dir {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	var names []string
	for k := range tree {
		if k != "/" && filepath.Dir(k) == filepath.Clean(name) {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var out []os.DirEntry
	for _, k := range names {
		out = append(out, info{filepath.Base(k), tree[k]})
	}
	return out, nil
}
