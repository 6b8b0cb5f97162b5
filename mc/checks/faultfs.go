package checks

import (
	"errors"
	"io"
	"io/fs"
	"sync"
)

var errFS = errors.New("injected file error")

// faultFS fails the k-th Open, or the reads of the k-th opened file after half of it.
type faultFS struct {
	fs.FS
	mu    sync.Mutex
	n     int
	k     int // -1: never
	read  bool
	hit   bool
	names []string
}

func (f *faultFS) Open(name string) (fs.File, error) {
	f.mu.Lock()
	i := f.n
	f.n++
	f.names = append(f.names, name)
	f.mu.Unlock()
	file, err := f.FS.Open(name)
	if err != nil {
		return nil, err
	}
	if i != f.k {
		return file, nil
	}
	if !f.read {
		f.hit = true
		file.Close()
		return nil, &fs.PathError{Op: "open", Path: name, Err: errFS}
	}
	fi, err := file.Stat()
	if err != nil {
		return nil, err
	}
	return &faultFile{fs: f, File: file, left: fi.Size() / 2}, nil
}

type faultFile struct {
	fs *faultFS
	fs.File
	left int64
}

func (f *faultFile) Read(b []byte) (int, error) {
	if f.left <= 0 {
		f.fs.hit = true
		return 0, errFS
	}
	if int64(len(b)) > f.left {
		b = b[:f.left]
	}
	n, err := f.File.Read(b)
	f.left -= int64(n)
	if err == io.EOF {
		f.fs.hit = true
		err = errFS
	}
	return n, err
}

func (f *faultFile) ReadDir(n int) ([]fs.DirEntry, error) {
	f.fs.hit = true
	return nil, errFS
}
