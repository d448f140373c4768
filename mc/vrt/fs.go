package verifvrt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type EffKind uint8

const (
	ECreate   EffKind = iota // directory entry Path -> new inode Ino
	EWrite                   // Data at Off of Ino
	ETruncate                // Ino cut/extended to Off
	ESync                    // Ino durable, as of effect Off
	ERename                  // Path -> Path2
	ERemove                  // Path removed
	ESyncDir                 // directory entries durable
	EAck                     // Data sent on socket of connection Conn
	EMark                    // harness marker: Off
)

var effNames = []string{"create", "write", "truncate", "fsync", "rename", "remove", "syncdir", "send", "mark"}

func (k EffKind) String() string { return effNames[k] }

type Effect struct {
	Kind        EffKind
	Ino         int
	Path, Path2 string
	Off         int64
	Data        []byte
	Conn        int
	NowNS       int64
	Thread      int
}

func (e Effect) String() string {
	s := e.Kind.String()
	switch e.Kind {
	case EWrite:
		d := string(e.Data)
		if len(d) > 60 {
			d = d[:60] + "..."
		}
		s += " ino" + strconv.Itoa(e.Ino) + "@" + strconv.FormatInt(e.Off, 10) + " " + strconv.Quote(d)
	case EAck:
		d := string(e.Data)
		if len(d) > 60 {
			d = d[:60] + "..."
		}
		s += " conn" + strconv.Itoa(e.Conn) + " " + strconv.Quote(d)
	case ETruncate:
		s += " ino" + strconv.Itoa(e.Ino) + " to " + strconv.FormatInt(e.Off, 10)
	case ESync:
		s += " ino" + strconv.Itoa(e.Ino)
	case ECreate:
		s += " " + e.Path + " ino" + strconv.Itoa(e.Ino)
	case ERename:
		s += " " + e.Path + " -> " + e.Path2
	case ERemove, ESyncDir:
		s += " " + e.Path
	case EMark:
		s += " " + strconv.FormatInt(e.Off, 10)
	}
	return s
}

// Inode holds file contents.
type Inode struct {
	ID    int
	Data  []byte
	Mtime int64
}

// FS is the simulated file system.
type FS struct {
	Files   map[string]*Inode
	nextIno int
	nextTmp int
	Fault   func(op string, path string, n int) (int, error) // optional: may fail an operation (n: bytes done)
}

func NewFS() *FS { return &FS{Files: map[string]*Inode{}} }

// Clone copies the file system (contents included).
func (s *FS) Clone() *FS {
	c := &FS{Files: map[string]*Inode{}, nextIno: s.nextIno, nextTmp: s.nextTmp}
	m := map[*Inode]*Inode{}
	for p, i := range s.Files {
		if m[i] == nil {
			m[i] = &Inode{ID: i.ID, Data: append([]byte(nil), i.Data...), Mtime: i.Mtime}
		}
		c.Files[p] = m[i]
	}
	return c
}

func (s *FS) Paths() []string {
	var r []string
	for p := range s.Files {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

const Cwd = "/work"

func norm(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(Cwd, p)
	}
	return filepath.Clean(p)
}

func Abs(p string) string { return norm(p) }

func device(p string) int {
	if strings.HasPrefix(p, "/tmp/") || p == "/tmp" {
		return 1
	}
	return 0
}

func (s *FS) newInode() *Inode {
	s.nextIno++
	return &Inode{ID: s.nextIno}
}

func (w *World) effect(e Effect) {
	if w.Rec && !w.killing {
		e.NowNS = w.NowNS
		e.Thread = -1
		if w.Cur != nil {
			e.Thread = w.Cur.ID
		}
		w.Log = append(w.Log, e)
	}
}

func (w *World) fault(op, path string, n int) (int, error) {
	if w.FS.Fault != nil && !w.killing {
		return w.FS.Fault(op, path, n)
	}
	return n, nil
}

// Os_File is the stand-in for os.File.
type Os_File struct {
	ino    *Inode
	dir    bool
	name   string
	path   string
	off    int64
	flag   int
	closed bool
	fd     int
}

func fpoint(l string) { point(Point{Kind: PFS, Label: l}) }

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func Os_OpenFile(name string, flag int, perm os.FileMode) (*Os_File, error) {
	fpoint("open " + name)
	w := W
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p := norm(name)
	if _, err := w.fault("open", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	ino := w.FS.Files[p]
	if ino == nil {
		if w.isDir(p) && flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			f := &Os_File{dir: true, name: name, path: p, flag: flag}
			f.fd = w.Net.alloc(&FDObj{Kind: FDFile, File: f})
			return f, nil
		}
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = w.FS.newInode()
		if !w.killing {
			w.FS.Files[p] = ino
			ino.Mtime = w.NowNS
			w.effect(Effect{Kind: ECreate, Ino: ino.ID, Path: p})
		}
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	} else if flag&os.O_TRUNC != 0 && len(ino.Data) > 0 && !w.killing {
		ino.Data = nil
		w.effect(Effect{Kind: ETruncate, Ino: ino.ID})
	}
	f := &Os_File{ino: ino, name: name, path: p, flag: flag}
	f.fd = w.Net.alloc(&FDObj{Kind: FDFile, File: f})
	return f, nil
}

func (w *World) isDir(p string) bool {
	if p == Cwd || p == "/" || p == "/tmp" {
		return true
	}
	for q := range w.FS.Files {
		if strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	return false
}

func Os_Open(name string) (*Os_File, error) { return Os_OpenFile(name, os.O_RDONLY, 0) }
func Os_Create(name string) (*Os_File, error) {
	return Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func Os_CreateTemp(dir, pattern string) (*Os_File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		W.FS.nextTmp++
		name := filepath.Join(dir, pre+strconv.Itoa(1000000+W.FS.nextTmp)+suf)
		f, err := Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err != nil && errors.Is(err, syscall.EEXIST) {
			continue
		}
		return f, err
	}
}

func Ioutil_TempFile(dir, pattern string) (*Os_File, error) { return Os_CreateTemp(dir, pattern) }
func Os_TempDir() string                                    { return "/tmp" }
func Os_Getwd() (string, error)                             { return Cwd, nil }
func Os_MkdirAll(string, os.FileMode) error                 { return nil }
func Os_Mkdir(string, os.FileMode) error                    { return nil }
func Os_Exit(code int)                                      { panic(Exit{code, "os.Exit"}) }
func Os_Chmod(string, os.FileMode) error                    { return nil }

func Os_Remove(name string) error {
	fpoint("remove " + name)
	w := W
	p := norm(name)
	if w.FS.Files[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if _, err := w.fault("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	if !w.killing {
		delete(w.FS.Files, p)
		w.effect(Effect{Kind: ERemove, Path: p})
	}
	return nil
}

func Os_RemoveAll(name string) error {
	fpoint("removeall " + name)
	w := W
	p := norm(name)
	for _, q := range w.FS.Paths() {
		if (q == p || strings.HasPrefix(q, p+"/")) && !w.killing {
			delete(w.FS.Files, q)
			w.effect(Effect{Kind: ERemove, Path: q})
		}
	}
	return nil
}

func Os_Rename(from, to string) error {
	fpoint("rename " + from)
	w := W
	p, q := norm(from), norm(to)
	if w.FS.Files[p] == nil || to == "" {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if device(p) != device(q) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EXDEV}
	}
	if _, err := w.fault("rename", p, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	if p == q || w.killing {
		return nil
	}
	w.FS.Files[q] = w.FS.Files[p]
	delete(w.FS.Files, p)
	w.effect(Effect{Kind: ERename, Path: p, Path2: q})
	return nil
}

func Os_Truncate(name string, size int64) error {
	f, err := Os_OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Os_ReadFile(name string) ([]byte, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return append([]byte(nil), f.ino.Data...), nil
}

func Ioutil_ReadFile(name string) ([]byte, error) { return Os_ReadFile(name) }

func Os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Ioutil_WriteFile(name string, data []byte, perm os.FileMode) error {
	return Os_WriteFile(name, data, perm)
}

type fileInfo struct {
	name string
	ino  *Inode
}

func (i fileInfo) Name() string { return i.name }
func (i fileInfo) Size() int64 {
	if i.ino == nil {
		return 0
	}
	return int64(len(i.ino.Data))
}
func (i fileInfo) Mode() fs.FileMode {
	if i.ino == nil {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i fileInfo) ModTime() time.Time {
	if i.ino == nil {
		return time.Unix(StartSec, 0)
	}
	return time.Unix(0, i.ino.Mtime)
}
func (i fileInfo) IsDir() bool { return i.ino == nil }
func (i fileInfo) Sys() any    { return nil }

func Os_Stat(name string) (os.FileInfo, error) {
	fpoint("stat " + name)
	p := norm(name)
	ino := W.FS.Files[p]
	if ino == nil {
		if W.isDir(p) {
			return fileInfo{filepath.Base(p), nil}, nil
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return fileInfo{filepath.Base(p), ino}, nil
}
func Os_Lstat(name string) (os.FileInfo, error) { return Os_Stat(name) }

func (f *Os_File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *Os_File) Name() string { return f.name }
func (f *Os_File) Fd() uintptr  { return uintptr(f.fd) }

func (f *Os_File) Close() error {
	fpoint("close " + f.nameOf())
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	W.Net.release(f.fd)
	if _, err := W.fault("close", f.path, 0); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *Os_File) nameOf() string {
	if f == nil {
		return "<nil>"
	}
	return f.name
}

func (f *Os_File) Sync() error {
	fpoint("fsync " + f.nameOf())
	if err := f.check("sync"); err != nil {
		return err
	}
	from := int64(len(W.Log)) // what is written while the fsync runs need not be durable after it
	if W.Fine && W.SlowSync {
		fpoint("fsync ends " + f.nameOf())
	}
	if _, err := W.fault("sync", f.path, 0); err != nil {
		return perr("sync", f.name, err)
	}
	if f.dir {
		W.effect(Effect{Kind: ESyncDir, Path: f.path})
	} else {
		W.effect(Effect{Kind: ESync, Ino: f.ino.ID, Off: from})
	}
	return nil
}

func (f *Os_File) writeAt(b []byte, off int64) (int, error) {
	w := W
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 || f.dir {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n, err := w.fault("write", f.path, len(b))
	if err == nil {
		n = len(b)
	}
	b = b[:n]
	if len(b) > 0 && !w.killing {
		d := f.ino.Data
		end := off + int64(len(b))
		if int64(len(d)) < end {
			if int64(cap(d)) >= end {
				old := len(d)
				d = d[:end]
				for i := old; i < int(end); i++ {
					d[i] = 0
				}
			} else {
				nd := make([]byte, end, end*2)
				copy(nd, d)
				d = nd
			}
		}
		copy(d[off:], b)
		f.ino.Data = d
		f.ino.Mtime = w.NowNS
		w.effect(Effect{Kind: EWrite, Ino: f.ino.ID, Path: f.path, Off: off, Data: append([]byte(nil), b...)})
	}
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *Os_File) Write(b []byte) (int, error) {
	fpoint("write " + f.nameOf())
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 && f.ino != nil {
		f.off = int64(len(f.ino.Data))
	}
	n, err := f.writeAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *Os_File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *Os_File) WriteAt(b []byte, off int64) (int, error) {
	fpoint("writeat " + f.nameOf())
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off)
}

func (f *Os_File) Truncate(size int64) error {
	fpoint("truncate " + f.nameOf())
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 || f.dir || size < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if _, err := W.fault("truncate", f.path, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	if W.killing {
		return nil
	}
	if size <= int64(len(f.ino.Data)) {
		f.ino.Data = f.ino.Data[:size:size]
	} else {
		f.ino.Data = append(f.ino.Data, make([]byte, size-int64(len(f.ino.Data)))...)
	}
	W.effect(Effect{Kind: ETruncate, Ino: f.ino.ID, Off: size})
	return nil
}

func (f *Os_File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.flag&os.O_WRONLY != 0 || f.dir {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := len(b)
	if m := len(f.ino.Data) - int(f.off); m < n {
		n = m
	}
	n, err := W.fault("read", f.path, n)
	if err != nil {
		return 0, perr("read", f.name, err)
	}
	n = copy(b[:n], f.ino.Data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *Os_File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *Os_File) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 32<<10)
	var total int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := f.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (f *Os_File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *Os_File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return fileInfo{filepath.Base(f.path), f.ino}, nil
}

func (f *Os_File) Chmod(os.FileMode) error { return nil }

// --- subprocesses: only the file utilities ---

type Exec_Cmd struct {
	Path string
	Args []string
	err  error
}

func Exec_Command(name string, args ...string) *Exec_Cmd {
	return &Exec_Cmd{Path: name, Args: append([]string{name}, args...)}
}

func (c *Exec_Cmd) Run() error {
	fpoint("exec " + strings.Join(c.Args, " "))
	var files []string
	for _, a := range c.Args[1:] {
		if !strings.HasPrefix(a, "-") {
			files = append(files, a)
		}
	}
	switch filepath.Base(c.Path) {
	case "mv", "cp":
		if len(files) != 2 || files[1] == "" || files[0] == "" {
			return errors.New("exit status 1")
		}
		mv := filepath.Base(c.Path) == "mv"
		if mv && device(norm(files[0])) == device(norm(files[1])) {
			if err := Os_Rename(files[0], files[1]); err != nil {
				return errors.New("exit status 1")
			}
			return nil
		}
		src, err := Os_ReadFile(files[0])
		if err != nil {
			return errors.New("exit status 1")
		}
		if mv {
			_ = Os_Remove(files[1])
		}
		f, err := Os_OpenFile(files[1], os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
		if err != nil {
			return errors.New("exit status 1")
		}
		half := (len(src) + 1) / 2
		for _, part := range [][]byte{src[:half], src[half:]} {
			if len(part) > 0 {
				if _, err := f.Write(part); err != nil {
					return errors.New("exit status 1")
				}
			}
		}
		f.Close()
		if mv {
			_ = Os_Remove(files[0])
		}
		return nil
	case "rm":
		for _, n := range files {
			if err := Os_Remove(n); err != nil {
				return errors.New("exit status 1")
			}
		}
		return nil
	case "sync":
		return nil
	}
	return errors.New("exec: \"" + c.Path + "\": executable file not found in $PATH")
}
func (c *Exec_Cmd) Start() error                    { c.err = c.Run(); return nil }
func (c *Exec_Cmd) Wait() error                     { return c.err }
func (c *Exec_Cmd) Output() ([]byte, error)         { return nil, c.Run() }
func (c *Exec_Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }

// --- crash states ---

// CrashState rebuilds the file system from base after the first n effects of log; torn < 0 means
// the effects are whole, otherwise the n-th (0-based) effect, if a write, is applied for its first torn bytes.
func CrashState(base *FS, log []Effect, n, torn int) *FS {
	s := base.Clone()
	byID := map[int]*Inode{}
	for _, i := range s.Files {
		byID[i.ID] = i
	}
	if torn >= 0 && n < len(log) {
		e := log[n]
		e.Data = e.Data[:torn]
		for _, x := range log[:n] {
			s.apply(byID, x)
		}
		s.apply(byID, e)
		return s
	}
	for _, x := range log[:n] {
		s.apply(byID, x)
	}
	return s
}

func (s *FS) apply(byID map[int]*Inode, e Effect) {
	switch e.Kind {
	case ECreate:
		i := &Inode{ID: e.Ino}
		byID[e.Ino] = i
		s.Files[e.Path] = i
		if e.Ino > s.nextIno {
			s.nextIno = e.Ino
		}
	case EWrite:
		i := byID[e.Ino]
		if i == nil {
			return
		}
		end := int(e.Off) + len(e.Data)
		if len(i.Data) < end {
			i.Data = append(i.Data, make([]byte, end-len(i.Data))...)
		}
		copy(i.Data[e.Off:], e.Data)
	case ETruncate:
		i := byID[e.Ino]
		if i == nil {
			return
		}
		if int(e.Off) <= len(i.Data) {
			i.Data = i.Data[:e.Off:e.Off]
		} else {
			i.Data = append(i.Data, make([]byte, int(e.Off)-len(i.Data))...)
		}
	case ERename:
		if i := s.Files[e.Path]; i != nil {
			s.Files[e.Path2] = i
			delete(s.Files, e.Path)
		}
	case ERemove:
		delete(s.Files, e.Path)
	}
	s.nextTmp += 10
}

// PowerLossStates calls f with every file system that a power loss after the first n effects may leave,
// under this model: directory operations reach the disk in order, at least up to the last fsync of
// anything; of the writes to a file after its last fsync, any prefix survives.
// cuts limits the prefixes tried per file to none, half, and all when false is exhaustive byte-wise.
func PowerLossStates(base *FS, log []Effect, n int, f func(s *FS, desc string)) {
	lastSync := -1
	for i := 0; i < n; i++ {
		if log[i].Kind == ESync || log[i].Kind == ESyncDir {
			lastSync = i
		}
	}
	// metadata prefixes
	var metaCuts []int
	metaCuts = append(metaCuts, n)
	for i := n - 1; i > lastSync; i-- {
		switch log[i].Kind {
		case ECreate, ERename, ERemove:
			metaCuts = append(metaCuts, i)
		}
	}
	for _, mc := range metaCuts {
		for mode := 0; mode < 3; mode++ { // unsynced data: none, half of it, all
			s := base.Clone()
			byID := map[int]*Inode{}
			for _, i := range s.Files {
				byID[i.ID] = i
			}
			synced := map[int]int{}
			for i := 0; i < n; i++ {
				if log[i].Kind == ESync {
					if ls, ok := synced[log[i].Ino]; !ok || ls < int(log[i].Off)-1 {
						synced[log[i].Ino] = int(log[i].Off) - 1
					}
				}
			}
			pend := map[int]int{}
			total := map[int]int{}
			for i := 0; i < n; i++ {
				e := log[i]
				if ls, ok := synced[e.Ino]; e.Kind == EWrite && (!ok || i > ls) {
					total[e.Ino] += len(e.Data)
				}
			}
			for i := 0; i < n; i++ {
				e := log[i]
				switch e.Kind {
				case ECreate:
					if i >= mc {
						byID[e.Ino] = &Inode{ID: e.Ino}
						continue
					}
				case ERename, ERemove:
					if i >= mc {
						continue
					}
				case EWrite, ETruncate:
					ls, ok := synced[e.Ino]
					if !ok || i > ls {
						if e.Kind == ETruncate {
							if mode == 0 { // it comes before the writes of which a prefix survives
								continue
							}
						} else {
							lim := 0
							if mode == 1 {
								lim = total[e.Ino] / 2
							} else if mode == 2 {
								lim = total[e.Ino]
							}
							room := lim - pend[e.Ino]
							if room <= 0 {
								continue
							}
							if room < len(e.Data) {
								e.Data = e.Data[:room]
							}
							pend[e.Ino] += len(e.Data)
						}
					}
				}
				s.apply(byID, e)
			}
			f(s, "power loss, directory operations up to #"+strconv.Itoa(mc)+", unsynced data mode "+strconv.Itoa(mode))
		}
	}
}
