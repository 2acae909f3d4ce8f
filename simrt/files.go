package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// Disk is a simulated file system with faults. Only what was written and not
// lost is in Files.
type Disk struct {
	Files map[string][]byte
	// Fault is asked before every operation; an error makes it fail. For a
	// write, the number of bytes still written is returned, too.
	Fault func(op, name string, n int) (int, error)
	temp  int
	open  []*File
}

// Exit closes what the ending process left open; errors go unnoticed.
func (d *Disk) Exit() {
	for _, f := range d.open {
		if !f.closed {
			f.Close()
		}
	}
	d.open = nil
}

// CurrentDisk is the disk of the current run.
var CurrentDisk *Disk

// File is an open simulated file.
type File struct {
	d      *Disk
	name   string
	r      io.Reader
	off    int
	write  bool
	closed bool
}

func (d *Disk) fault(op, name string, n int) (int, error) {
	if d.Fault == nil {
		return n, nil
	}
	return d.Fault(op, name, n)
}

func clean(n string) string { return filepath.Clean(n) }

// ReaderFor gives the content of a file a reader of its own (to split reads).
var ReaderFor func(name string, b []byte) io.Reader

// Open replaces os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create replaces os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// OpenFile replaces os.OpenFile.
func OpenFile(name string, flag int, _ fs.FileMode) (*File, error) {
	d := CurrentDisk
	name = clean(name)
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		op = "create"
	}
	if _, err := d.fault(op, name, 0); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	b, ok := d.Files[name]
	if !ok && flag&os.O_CREATE == 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if ok && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	f := &File{d: d, name: name}
	d.open = append(d.open, f)
	if op == "create" {
		f.write = true
		if !ok || flag&os.O_TRUNC != 0 {
			d.Files[name] = []byte{}
		}
		if flag&os.O_APPEND != 0 {
			f.off = len(b)
		}
		return f, nil
	}
	if ReaderFor != nil {
		f.r = ReaderFor(name, b)
	} else {
		f.r = strings.NewReader(string(b))
	}
	return f, nil
}

// Name is the file's name.
func (f *File) Name() string { return f.name }

// Read reads from the file.
func (f *File) Read(p []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.r == nil {
		return 0, io.EOF
	}
	return f.r.Read(p)
}

// Write writes to the file.
func (f *File) Write(p []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if !f.write {
		return 0, fs.ErrPermission
	}
	n, err := f.d.fault("write", f.name, len(p))
	if n > len(p) {
		n = len(p)
	}
	b := f.d.Files[f.name]
	for len(b) < f.off {
		b = append(b, 0)
	}
	b = append(b[:f.off:f.off], append(append([]byte{}, p[:n]...), b[minInt(len(b), f.off+n):]...)...)
	f.off += n
	f.d.Files[f.name] = b
	if err == nil && n < len(p) {
		err = io.ErrShortWrite
	}
	if err != nil {
		err = &fs.PathError{Op: "write", Path: f.name, Err: err}
	}
	return n, err
}

// WriteString writes to the file.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Sync flushes the file.
func (f *File) Sync() error {
	_, err := f.d.fault("sync", f.name, 0)
	return err
}

// Chmod changes nothing.
func (f *File) Chmod(fs.FileMode) error { return nil }

// Close closes the file. When it fails, the end of what was written is lost.
func (f *File) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	n, err := f.d.fault("close", f.name, len(f.d.Files[f.name]))
	if err != nil && f.write {
		if b := f.d.Files[f.name]; n < len(b) {
			f.d.Files[f.name] = b[:n]
		}
	}
	return err
}

// ReadFile replaces os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile replaces os.WriteFile.
func WriteFile(name string, b []byte, m fs.FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// Rename replaces os.Rename.
func Rename(from, to string) error {
	d := CurrentDisk
	from, to = clean(from), clean(to)
	if _, err := d.fault("rename", to, 0); err != nil {
		return err
	}
	b, ok := d.Files[from]
	if !ok {
		return fs.ErrNotExist
	}
	delete(d.Files, from)
	d.Files[to] = b
	return nil
}

// Remove replaces os.Remove.
func Remove(name string) error {
	d := CurrentDisk
	name = clean(name)
	if _, ok := d.Files[name]; !ok {
		return fs.ErrNotExist
	}
	delete(d.Files, name)
	return nil
}

// CreateTemp replaces os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	d := CurrentDisk
	if d == nil {
		return nil, errors.New("no disk")
	}
	d.temp++
	if dir == "" {
		dir = "/tmp"
	}
	return Create(filepath.Join(dir, strings.Replace(pattern, "*", fmt.Sprint(d.temp), 1)))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
