package main

import (
	"bufio"
	"encoding/gob"
	"io"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"time"
)

// A damaged file can make its reader run wild. Files that may be damaged are
// read by another process with limited memory and time; a file it does not
// manage to read counts as unreadable.

type fileReader struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *gob.Decoder
}

type readResult struct {
	OK bool
	D  *Dump
}

// readerMain is the other process: it gets names of files, one per line.
func readerMain() {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30})
	in := bufio.NewScanner(os.Stdin)
	out := gob.NewEncoder(os.Stdout)
	for in.Scan() {
		d, err := readDBFile(in.Text())
		if out.Encode(readResult{err == nil, d}) != nil {
			return
		}
	}
}

func (f *fileReader) read(path string) (*Dump, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.cmd == nil {
		self, err := os.Executable()
		must(err)
		f.cmd = exec.Command(self, "reader")
		f.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		f.in, err = f.cmd.StdinPipe()
		must(err)
		o, err := f.cmd.StdoutPipe()
		must(err)
		must(f.cmd.Start())
		f.out = gob.NewDecoder(o)
	}
	io.WriteString(f.in, path+"\n")
	cmd := f.cmd
	timer := time.AfterFunc(10*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	var r readResult
	if err := f.out.Decode(&r); err != nil {
		f.cmd.Process.Kill()
		f.cmd.Wait()
		f.cmd = nil
		return nil, errPanic
	}
	if !r.OK {
		return nil, errPanic
	}
	if r.D.DN2ID == nil {
		r.D.DN2ID = map[string]uint64{}
	}
	if r.D.Kids == nil {
		r.D.Kids = map[uint64][]uint64{}
	}
	for k, v := range r.D.Kids {
		if v == nil {
			r.D.Kids[k] = []uint64{}
		}
	}
	return r.D, nil
}

func (f *fileReader) close() {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.cmd != nil {
		f.in.Close()
		f.cmd.Process.Kill()
		f.cmd.Wait()
		f.cmd = nil
	}
}
