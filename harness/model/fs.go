package model

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"

	mmap "github.com/edsrzf/mmap-go"
)

type inode struct {
	dir   bool
	data  []byte
	maps  []*mapping
	mode  os.FileMode
	nlink int
	link  string // target of a symbolic link
}

type mapping struct {
	mem  []byte
	node *inode
	live bool
}

type entry struct {
	path string
	node *inode
}

type handle struct {
	node   *inode
	path   string
	pos    int64
	flag   int
	closed bool
	dev    bool
}

var (
	entries  []*entry
	handles  map[*os.File]*handle
	mappings []*mapping
	env      map[string]string
	ops      int // file system operations so far
	crashAt  int // the operation at which the process dies, 0: never
	nfd      int
	removed  []string
	touched  []string // what was made, renamed or removed
	symlinks bool // there are symbolic links
)

// CrashPoint is the panic value used to stop a process at a crash point.
type CrashPoint struct{}

// Init resets the environment; it runs before the initialisers of the harness.
func Init() {
	os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrInvalid = fs.ErrNotExist, fs.ErrExist, fs.ErrPermission, fs.ErrClosed, fs.ErrInvalid
	os.Args = []string{"harness"}
	entries = nil
	handles = map[*os.File]*handle{}
	mappings = nil
	env = map[string]string{"HOME": "/root", "PCP_CONF": "/nonexistent"}
	ops, crashAt, nfd = 0, 0, 3
	removed = nil
	touched = nil
	symlinks = false
	for _, d := range []string{"/", "/tmp", "/etc", "/var", "/var/tmp", "/root"} {
		entries = append(entries, &entry{d, &inode{dir: true, mode: 0755, nlink: 1}})
	}
	os.Stdin, os.Stdout, os.Stderr = dev("/dev/stdin"), dev("/dev/stdout"), dev("/dev/stderr")
}

func dev(p string) *os.File {
	f := new(os.File)
	handles[f] = &handle{path: p, dev: true}
	return f
}

// SetEnv sets an environment variable of the modelled process.
func SetEnv(k, v string) { env[k] = v }

// UnsetEnv removes an environment variable of the modelled process.
func UnsetEnv(k string) { delete(env, k) }

// CrashAt makes the process die just before its k-th file system operation.
func CrashAt(k int) { ops, crashAt = 0, k }

// Ops is the number of file system operations since CrashAt.
func Ops() int { return ops }

// OpenFiles is the number of open descriptors.
func OpenFiles() int {
	n := 0
	for _, h := range handles {
		if !h.closed && !h.dev {
			n++
		}
	}
	return n
}

// Mapped is the number of live memory mappings.
func Mapped() int {
	n := 0
	for _, m := range mappings {
		if m.live {
			n++
		}
	}
	return n
}

// Put creates a file with the given content.
func Put(path string, data []byte) {
	mkdirs(filepath.Dir(path))
	if e := find(path); e != nil {
		e.node.data = append([]byte{}, data...)
		return
	}
	entries = append(entries, &entry{path, &inode{data: append([]byte{}, data...), mode: 0644, nlink: 1}})
}

// PutDir creates a directory.
func PutDir(path string) { mkdirs(path) }

// PutLink creates a symbolic link.
func PutLink(path, target string) {
	mkdirs(filepath.Dir(path))
	symlinks = true
	entries = append(entries, &entry{path, &inode{link: target, mode: os.ModeSymlink | 0777, nlink: 1}})
}

// PutHard creates a second name of a file.
func PutHard(path, of string) {
	mkdirs(filepath.Dir(path))
	e := find(of)
	e.node.nlink++
	entries = append(entries, &entry{path, e.node})
}

// IsLink reports whether path names a symbolic link.
func IsLink(path string) bool { e := find(path); return e != nil && e.node.link != "" }

// Paths lists every regular file and directory that exists.
func Paths() []string {
	var out []string
	for _, e := range entries {
		out = append(out, e.path)
	}
	return out
}

// IsDir reports whether path names a directory.
func IsDir(path string) bool { e := find(path); return e != nil && e.node.dir }

// Exists reports whether path exists.
func Exists(path string) bool { return find(path) != nil }

// Data is the content of a file, read without the possibility of a failure.
func Data(path string) []byte {
	n := find(path).node
	if n.link != "" {
		return []byte("-> " + n.link)
	}
	return append([]byte{}, n.data...)
}

// Removed lists the paths that were removed.
func Removed() []string { return removed }

// Touched lists the paths that were created, renamed or removed, in order.
func Touched() []string { return touched }

func touch(p string) { touched = append(touched, p) }

func find(path string) *entry {
	for i := len(entries) - 1; i >= 0; i-- {
		if entries[i].path == path {
			return entries[i]
		}
	}
	return nil
}

func mkdirs(p string) {
	if find(p) != nil {
		return
	}
	if d := filepath.Dir(p); d != p {
		mkdirs(d)
	}
	entries = append(entries, &entry{p, &inode{dir: true, mode: 0755, nlink: 1}})
}

func clean(p string) string {
	if p == "" {
		return p
	}
	if p[0] != '/' {
		p = "/root/" + p
	}
	return filepath.Clean(p)
}

// resolve gives the path that name leads to: without symbolic links, but for the
// last element if follow is false.
func resolve(name string, follow bool) (string, error) {
	p := clean(name)
	if !symlinks {
		return p, nil
	}
	for n := 0; ; n++ {
		again := false
		for i := 1; i <= len(p); i++ {
			if i < len(p) && p[i] != '/' || i == len(p) && !follow {
				continue
			}
			e := find(p[:i])
			if e == nil {
				break
			}
			if e.node.link != "" {
				t := e.node.link
				if t[0] != '/' {
					t = filepath.Dir(p[:i]) + "/" + t
				}
				p = filepath.Clean(t + p[i:])
				again = true
				break
			}
		}
		if !again {
			return p, nil
		}
		if n == 40 {
			return p, syscall.ELOOP
		}
	}
}

// enter is the start of every operation: a crash point and a possible fault.
func enter(op string) bool {
	ops++
	if ops == crashAt {
		panic(CrashPoint{})
	}
	return fault(op)
}

func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

// walk checks that the parents of p are directories.
func walk(p string) error {
	if len(p) > 4095 {
		return syscall.ENAMETOOLONG
	}
	last := 0
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return syscall.EINVAL
		}
		if p[i] == '/' {
			last = i
		}
	}
	if len(p)-last-1 > 255 {
		return syscall.ENAMETOOLONG
	}
	d := filepath.Dir(p)
	for {
		if e := find(d); e != nil {
			if !e.node.dir {
				return syscall.ENOTDIR
			}
			if d == filepath.Dir(p) {
				return nil
			}
			return syscall.ENOENT
		}
		n := filepath.Dir(d)
		if n == d {
			return syscall.ENOENT
		}
		d = n
	}
}

type fileInfo struct {
	name string
	node *inode
}

func (f *fileInfo) Name() string       { return f.name }
func (f *fileInfo) Size() int64        { return int64(len(f.node.data)) }
func (f *fileInfo) Mode() os.FileMode  { return f.node.mode }
func (f *fileInfo) ModTime() time.Time { return time.Time{} }
func (f *fileInfo) IsDir() bool        { return f.node.dir }
func (f *fileInfo) Sys() any           { return nil }

//sym:replace os.Stat
func osStat(name string) (os.FileInfo, error) {
	if enter("stat") {
		return nil, perr("stat", name, syscall.EACCES)
	}
	return stat(name, true)
}

func stat(name string, follow bool) (os.FileInfo, error) {
	p, err := resolve(name, follow)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	if e := find(p); e != nil {
		return &fileInfo{filepath.Base(clean(name)), e.node}, nil
	}
	if err := walk(p); err != nil {
		return nil, perr("stat", name, err)
	}
	return nil, perr("stat", name, syscall.ENOENT)
}

//sym:replace os.Lstat
func osLstat(name string) (os.FileInfo, error) {
	if enter("stat") {
		return nil, perr("lstat", name, syscall.EACCES)
	}
	return stat(name, false)
}

//sym:replace os.SameFile
func osSameFile(a, b os.FileInfo) bool {
	x, ok := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok && ok2 && x.node == y.node
}

//sym:replace os.Readlink
func osReadlink(name string) (string, error) {
	if enter("readlink") {
		return "", perr("readlink", name, syscall.EACCES)
	}
	p, err := resolve(name, false)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	e := find(p)
	if e == nil {
		return "", perr("readlink", name, syscall.ENOENT)
	}
	if e.node.link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return e.node.link, nil
}

//sym:replace os.Symlink
func osSymlink(target, name string) error {
	if enter("symlink") {
		return perr("symlink", name, syscall.EACCES)
	}
	p, err := resolve(name, false)
	if err == nil && find(p) != nil {
		err = syscall.EEXIST
	}
	if err == nil {
		err = walk(p)
	}
	if err != nil {
		return perr("symlink", name, err)
	}
	PutLink(p, target)
	touch(p)
	return nil
}

//sym:replace os.Link
func osLink(from, to string) error {
	if enter("link") {
		return perr("link", to, syscall.EACCES)
	}
	a, err := resolve(from, false)
	if err != nil {
		return perr("link", from, err)
	}
	b, err := resolve(to, false)
	if err == nil && find(a) == nil {
		err = syscall.ENOENT
	}
	if err == nil && find(b) != nil {
		err = syscall.EEXIST
	}
	if err == nil {
		err = walk(b)
	}
	if err != nil {
		return perr("link", to, err)
	}
	PutHard(b, a)
	touch(b)
	return nil
}

//sym:replace os.Mkdir
func osMkdir(name string, perm os.FileMode) error {
	if enter("mkdir") {
		return perr("mkdir", name, syscall.ENOSPC)
	}
	p, err := resolve(name, false)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if find(p) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err := walk(p); err != nil {
		return perr("mkdir", name, err)
	}
	entries = append(entries, &entry{p, &inode{dir: true, mode: perm, nlink: 1}})
	touch(p)
	return nil
}

//sym:replace os.MkdirAll
func osMkdirAll(name string, perm os.FileMode) error {
	if enter("mkdir") {
		return perr("mkdir", name, syscall.EACCES)
	}
	p, err := resolve(name, true)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if e := find(clean(name)); e != nil && e.node.link != "" && find(p) == nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	for i := 1; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		d := p[:i]
		if e := find(d); e != nil {
			if !e.node.dir {
				return perr("mkdir", d, syscall.ENOTDIR)
			}
			continue
		}
		entries = append(entries, &entry{d, &inode{dir: true, mode: perm, nlink: 1}})
		touch(d)
	}
	return nil
}

func unlink(p string) {
	for i, e := range entries {
		if e.path == p {
			e.node.nlink--
			entries = append(entries[:i:i], entries[i+1:]...)
			removed = append(removed, p)
			touch(p)
			return
		}
	}
}

func hasChildren(p string) bool {
	if p != "/" {
		p += "/"
	}
	for _, e := range entries {
		if len(e.path) > len(p) && e.path[:len(p)] == p {
			return true
		}
	}
	return false
}

//sym:replace os.Remove
func osRemove(name string) error {
	if enter("remove") {
		return perr("remove", name, syscall.EACCES)
	}
	p, err := resolve(name, false)
	if err != nil {
		return perr("remove", name, err)
	}
	e := find(p)
	if e == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if e.node.dir && hasChildren(p) {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	unlink(p)
	return nil
}

//sym:replace os.RemoveAll
func osRemoveAll(name string) error {
	if enter("remove") {
		return perr("remove", name, syscall.EACCES)
	}
	p, err := resolve(name, false)
	if err != nil {
		return perr("remove", name, err)
	}
	for again := true; again; {
		again = false
		for _, e := range entries {
			if e.path == p || len(e.path) > len(p) && e.path[:len(p)+1] == p+"/" {
				unlink(e.path)
				again = true
				break
			}
		}
	}
	return nil
}

//sym:replace os.Rename
func osRename(from, to string) error {
	if enter("rename") {
		return perr("rename", from, syscall.EACCES)
	}
	a, err := resolve(from, false)
	if err != nil {
		return perr("rename", from, err)
	}
	b, err := resolve(to, false)
	if err != nil {
		return perr("rename", to, err)
	}
	e := find(a)
	if e == nil {
		return perr("rename", from, syscall.ENOENT)
	}
	if err := walk(b); err != nil {
		return perr("rename", to, err)
	}
	if a == b {
		return nil
	}
	if o := find(b); o != nil {
		if o.node.dir {
			return perr("rename", to, syscall.EEXIST)
		}
		if o.node == e.node {
			return nil
		}
		unlink(b)
	}
	if e.node.dir {
		unsupported("renaming a directory")
	}
	e.path = b
	touch(a)
	touch(b)
	return nil
}

//sym:replace os.OpenFile
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if enter("open") {
		return nil, perr("open", name, syscall.EMFILE)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p, err := resolve(name, flag&syscall.O_NOFOLLOW == 0 && flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL)
	if err != nil {
		return nil, perr("open", name, err)
	}
	e := find(p)
	if e != nil && e.node.link != "" && flag&syscall.O_NOFOLLOW != 0 {
		return nil, perr("open", name, syscall.ELOOP)
	}
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if e == nil {
		if err := walk(p); err != nil {
			return nil, perr("open", name, err)
		}
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		e = &entry{p, &inode{mode: perm, nlink: 1}}
		entries = append(entries, e)
		touch(p)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if e.node.dir && w {
			return nil, perr("open", name, syscall.EISDIR)
		}
	}
	if flag&os.O_TRUNC != 0 && w {
		resize(e.node, 0)
	}
	f := new(os.File)
	handles[f] = &handle{node: e.node, path: name, flag: flag}
	return f, nil
}

//sym:replace os.Open
func osOpen(name string) (*os.File, error) { return osOpenFile(name, os.O_RDONLY, 0) }

//sym:replace os.Create
func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//sym:replace os.CreateTemp
func osCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '*' {
			pattern = pattern[:i] + pattern[i+1:]
			break
		}
	}
	for i := 0; ; i++ {
		p := dir + "/" + pattern + string(rune('0'+i))
		if find(clean(p)) == nil {
			return osOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		}
	}
}

//sym:replace os.ReadFile
func osReadFile(name string) ([]byte, error) {
	f, err := osOpen(name)
	if err != nil {
		return nil, err
	}
	h := handles[f]
	h.closed = true
	if h.node.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, h.node.data...), nil
}

//sym:replace io/ioutil.ReadFile
func ioutilReadFile(name string) ([]byte, error) { return osReadFile(name) }

//sym:replace os.WriteFile
func osWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := osOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	handles[f].closed = true
	return err
}

//sym:replace os.Chmod
func osChmod(name string, mode os.FileMode) error {
	if enter("chmod") {
		return perr("chmod", name, syscall.EPERM)
	}
	p, err := resolve(name, true)
	if err != nil {
		return perr("chmod", name, err)
	}
	e := find(p)
	if e == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	e.node.mode = mode
	return nil
}

//sym:replace os.Truncate
func osTruncate(name string, size int64) error {
	if enter("truncate") {
		return perr("truncate", name, syscall.EIO)
	}
	p, err := resolve(name, true)
	if err != nil {
		return perr("truncate", name, err)
	}
	e := find(p)
	if e == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	resize(e.node, int(size))
	return nil
}

func resize(n *inode, size int) {
	if size == len(n.data) {
		return
	}
	live := false
	for _, m := range n.maps {
		if m.live {
			live = true
			if size < len(m.mem) {
				// the pages behind the mapping are gone: an access is SIGBUS
				unalias(m.mem)
			}
		}
	}
	if size <= cap(n.data) && !live {
		old := len(n.data)
		n.data = n.data[:size]
		for i := old; i < size; i++ {
			n.data[i] = 0
		}
		return
	}
	if live && size > len(n.data) {
		unsupported("growing a mapped file")
	}
	d := make([]byte, size)
	copy(d, n.data)
	n.data = d
}

func get(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return h, perr(op, h.path, os.ErrClosed)
	}
	return h, nil
}

//sym:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h, err := get(f, "read")
	if err != nil {
		return 0, err
	}
	if enter("read") {
		return 0, perr("read", h.path, syscall.EIO)
	}
	if h.dev {
		return 0, io.EOF
	}
	if h.node.dir {
		return 0, perr("read", h.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.node.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.pos:])
	h.pos += int64(n)
	return n, nil
}

//sym:replace (*os.File).ReadAt
func fileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := get(f, "read")
	if err != nil {
		return 0, err
	}
	if enter("read") {
		return 0, perr("read", h.path, syscall.EIO)
	}
	if off >= int64(len(h.node.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func writeAt(h *handle, b []byte, off int64) {
	end := int(off) + len(b)
	if end > len(h.node.data) {
		resize(h.node, end)
	}
	copy(h.node.data[off:], b)
}

//sym:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	h, err := get(f, "write")
	if err != nil {
		return 0, err
	}
	if h.dev {
		return len(b), nil
	}
	if enter("write") {
		// a short write: half of the data reached the file
		k := len(b) / 2
		if k > 0 {
			writeAt(h, b[:k], h.pos)
			h.pos += int64(k)
		}
		return k, perr("write", h.path, syscall.ENOSPC)
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.path, syscall.EBADF)
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = int64(len(h.node.data))
	}
	writeAt(h, b, h.pos)
	h.pos += int64(len(b))
	return len(b), nil
}

//sym:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//sym:replace (*os.File).WriteAt
func fileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := get(f, "write")
	if err != nil {
		return 0, err
	}
	if enter("write") {
		return 0, perr("write", h.path, syscall.ENOSPC)
	}
	writeAt(h, b, off)
	return len(b), nil
}

//sym:replace (*os.File).Truncate
func fileTruncate(f *os.File, size int64) error {
	h, err := get(f, "truncate")
	if err != nil {
		return err
	}
	if enter("truncate") {
		return perr("truncate", h.path, syscall.EIO)
	}
	if size < 0 {
		return perr("truncate", h.path, syscall.EINVAL)
	}
	resize(h.node, int(size))
	return nil
}

//sym:replace (*os.File).Sync
func fileSync(f *os.File) error {
	h, err := get(f, "sync")
	if err != nil {
		return err
	}
	if enter("sync") {
		return perr("sync", h.path, syscall.EIO)
	}
	return nil
}

//sym:replace (*os.File).Close
func fileClose(f *os.File) error {
	h, err := get(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	if enter("close") {
		return perr("close", h.path, syscall.EIO)
	}
	return nil
}

//sym:replace (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	h, err := get(f, "stat")
	if err != nil {
		return nil, err
	}
	if enter("fstat") {
		return nil, perr("stat", h.path, syscall.EIO)
	}
	return &fileInfo{filepath.Base(h.path), h.node}, nil
}

//sym:replace (*os.File).Name
func fileName(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.path
	}
	return ""
}

//sym:replace (*os.File).Fd
func fileFd(f *os.File) uintptr {
	if h := handles[f]; h != nil && !h.closed {
		return 3
	}
	return ^uintptr(0)
}

//sym:replace (*os.File).Chmod
func fileChmod(f *os.File, mode os.FileMode) error {
	h, err := get(f, "chmod")
	if err != nil {
		return err
	}
	h.node.mode = mode
	return nil
}

//sym:replace (*os.File).Seek
func fileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := get(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += int64(len(h.node.data))
	}
	if off < 0 {
		return 0, perr("seek", h.path, syscall.EINVAL)
	}
	h.pos = off
	return off, nil
}

//sym:replace github.com/edsrzf/mmap-go.Map
func mmapMap(f *os.File, prot, flags int) (mmap.MMap, error) {
	return mmapRegion(f, -1, prot, flags, 0)
}

//sym:replace github.com/edsrzf/mmap-go.MapRegion
func mmapRegion(f *os.File, length int, prot, flags int, offset int64) (mmap.MMap, error) {
	h, err := get(f, "mmap")
	if err != nil {
		return nil, err
	}
	if enter("mmap") {
		return nil, syscall.ENOMEM
	}
	if flags&mmap.ANON != 0 || offset != 0 {
		unsupported("anonymous or partial mapping")
	}
	if length < 0 {
		length = len(h.node.data)
	}
	if length == 0 {
		return nil, syscall.EINVAL
	}
	if h.flag&os.O_RDWR == 0 && prot&mmap.RDWR != 0 {
		return nil, syscall.EACCES
	}
	if length > len(h.node.data) {
		unsupported("mapping beyond the end of the file")
	}
	m := &mapping{node: h.node, live: true}
	if prot&mmap.COPY != 0 {
		m.mem = alias(append([]byte{}, h.node.data[:length]...))
	} else {
		m.mem = alias(h.node.data[:length])
		h.node.maps = append(h.node.maps, m)
	}
	mappings = append(mappings, m)
	return mmap.MMap(m.mem), nil
}

func mappingOf(b []byte) *mapping {
	if len(b) == 0 {
		return nil
	}
	for _, m := range mappings {
		if m.live && sameArray(m.mem, b) && len(m.mem) == len(b) {
			return m
		}
	}
	return nil
}

//sym:replace (*github.com/edsrzf/mmap-go.MMap).Unmap
func mmapUnmap(p *mmap.MMap) error {
	m := mappingOf([]byte(*p))
	*p = nil
	if enter("munmap") {
		return syscall.EINVAL
	}
	if m == nil {
		return syscall.EINVAL
	}
	m.live = false
	unalias(m.mem)
	return nil
}

//sym:replace (github.com/edsrzf/mmap-go.MMap).Flush
func mmapFlush(b mmap.MMap) error {
	if enter("msync") {
		return syscall.EIO
	}
	if mappingOf([]byte(b)) == nil {
		return syscall.ENOMEM
	}
	return nil
}

//sym:replace (github.com/edsrzf/mmap-go.MMap).Lock
func mmapLock(b mmap.MMap) error { return nil }

//sym:replace (github.com/edsrzf/mmap-go.MMap).Unlock
func mmapUnlock(b mmap.MMap) error { return nil }

//sym:replace os.LookupEnv
func osLookupEnv(k string) (string, bool) { v, ok := env[k]; return v, ok }

//sym:replace os.Getenv
func osGetenv(k string) string { return env[k] }

//sym:replace syscall.Getenv
func sysGetenv(k string) (string, bool) { v, ok := env[k]; return v, ok }

//sym:replace os.Setenv
func osSetenv(k, v string) error { env[k] = v; return nil }

//sym:replace os.Unsetenv
func osUnsetenv(k string) error { delete(env, k); return nil }

//sym:replace os.Environ
func osEnviron() []string {
	var out []string
	for k, v := range env {
		out = append(out, k+"="+v)
	}
	return out
}

//sym:replace os.Getpagesize
func osGetpagesize() int { return 4096 }

//sym:replace os.Getppid
func osGetppid() int { return 1 }

//sym:replace os.Hostname
func osHostname() (string, error) { return "host", nil }

//sym:replace os.Exit
func osExit(code int) { fatal("os.Exit was called") }

//sym:replace (syscall.Errno).Error
func errnoError(e syscall.Errno) string { return "errno" }

//sym:replace (*sync.Pool).Get
func poolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

//sym:replace (*sync.Pool).Put
func poolPut(p *sync.Pool, x any) {}

type syncMap struct {
	mu sync.Mutex
	m  map[any]any
}

var syncMaps = map[*sync.Map]*syncMap{}

func theMap(p *sync.Map) *syncMap {
	s := syncMaps[p]
	if s == nil {
		s = &syncMap{m: map[any]any{}}
		syncMaps[p] = s
	}
	return s
}

//sym:replace (*sync.Map).Load
func mapLoad(p *sync.Map, k any) (any, bool) {
	s := theMap(p)
	s.mu.Lock()
	v, ok := s.m[k]
	s.mu.Unlock()
	return v, ok
}

//sym:replace (*sync.Map).Store
func mapStore(p *sync.Map, k, v any) {
	s := theMap(p)
	s.mu.Lock()
	s.m[k] = v
	s.mu.Unlock()
}

//sym:replace (*sync.Map).LoadOrStore
func mapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	s := theMap(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	if o, ok := s.m[k]; ok {
		return o, true
	}
	s.m[k] = v
	return v, false
}

//sym:replace (*sync.Map).Delete
func mapDelete(p *sync.Map, k any) {
	s := theMap(p)
	s.mu.Lock()
	delete(s.m, k)
	s.mu.Unlock()
}

//sym:replace (*sync.Map).Range
func mapRange(p *sync.Map, f func(k, v any) bool) {
	s := theMap(p)
	s.mu.Lock()
	type kv struct{ k, v any }
	var l []kv
	for k, v := range s.m {
		l = append(l, kv{k, v})
	}
	s.mu.Unlock()
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}

var _ = unsafe.Pointer(nil)
