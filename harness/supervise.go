package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Supervision of a server process: the kernel reports every system call that
// writes to a file or a socket before it is executed (seccomp user
// notification); it is recorded and then executed, or made to fail.

const (
	sysPwrite64, sysWrite, sysWritev, sysFdatasync, sysFsync, sysFtruncate = 18, 1, 20, 75, 74, 77
	sysPwritev, sysFallocate, sysMsync, sysSeccomp, sysSendto, sysPwritev2 = 296, 285, 26, 317, 44, 328
)

var supervised = []uint32{sysPwrite64, sysWrite, sysWritev, sysFdatasync, sysFsync, sysFtruncate, sysPwritev, sysFallocate, sysMsync, sysSendto, sysPwritev2}

// DiskOp is one recorded system call.
type DiskOp struct {
	Kind string // write, sync, size, answer, other
	Off  int64
	Data []byte
	Nr   int
}

// Supervisor sees the system calls of one process.
type Supervisor struct {
	mu     sync.Mutex
	file   string
	ops    []DiskOp
	fail   func(n int, op *DiskOp) syscall.Errno // decides about the n-th disk operation
	n      int
	failed int
	closed chan struct{}
}

// supervisedExec is the launcher: it installs the filter, hands the listener
// to the parent (file descriptor 3) and becomes the server.
func supervisedExec(argv []string) {
	runtime.LockOSThread()
	type insn struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	const ld, jeq, ret = 0x20, 0x15, 0x06
	prog := []insn{{ld, 0, 0, 0}}
	for i, nr := range supervised {
		prog = append(prog, insn{jeq, uint8(len(supervised) - i), 0, nr})
	}
	prog = append(prog, insn{ret, 0, 0, 0x7fff0000}, insn{ret, 0, 0, 0x7fc00000})
	fprog := struct {
		n uint16
		_ [6]byte
		p *insn
	}{n: uint16(len(prog)), p: &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		os.Exit(97)
	}
	// The descriptor is passed on with sendmsg, which is not filtered.
	fd, _, e := syscall.RawSyscall(sysSeccomp, 1, 8, uintptr(unsafe.Pointer(&fprog)))
	if e != 0 {
		os.Exit(98)
	}
	if err := syscall.Sendmsg(3, []byte{1}, syscall.UnixRights(int(fd)), nil, 0); err != nil {
		os.Exit(99)
	}
	syscall.Close(int(fd))
	syscall.Close(3)
	if err := syscall.Exec(argv[0], argv, os.Environ()); err != nil {
		os.Exit(96)
	}
}

// superviseServer starts a server whose writes to `file` are recorded.
func superviseServer(file string, args ...string) (*Server, *Supervisor, error) {
	self, err := os.Executable()
	must(err)
	pair, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	theirs := os.NewFile(uintptr(pair[1]), "theirs")
	ours := os.NewFile(uintptr(pair[0]), "ours")
	defer ours.Close()
	addr := freeAddr()
	full := append([]string{"supervised", idmd, "serve", "--ldap-listen", addr, "--log-level", "error"}, args...)
	s := runFiles(addr, args, nil, []*os.File{theirs}, self, full...)
	theirs.Close()
	conn, err := net.FileConn(ours)
	must(err)
	defer conn.Close()
	conn.SetReadDeadline(time.Now().Add(20 * time.Second))
	buf, oob := make([]byte, 1), make([]byte, 64)
	_, on, _, _, err := conn.(*net.UnixConn).ReadMsgUnix(buf, oob)
	if err != nil || on == 0 {
		s.kill()
		return nil, nil, fmt.Errorf("supervision is not possible: %v", err)
	}
	msgs, err := syscall.ParseSocketControlMessage(oob[:on])
	must(err)
	fds, err := syscall.ParseUnixRights(&msgs[0])
	must(err)
	v := &Supervisor{file: file, closed: make(chan struct{})}
	go v.loop(fds[0])
	if !s.await(30 * time.Second) {
		s.kill()
		<-v.closed
		return nil, nil, fmt.Errorf("the supervised server does not start: %s", s.stderr.String())
	}
	return s, v, nil
}

// canSupervise tells whether the kernel lets us.
func canSupervise() bool {
	db := scratchPath("probe.db")
	b, _ := parseDN("o=probe")
	writeDB(db, []Entry{{b.str(), []Attr{{"o", []string{"probe"}}}}})
	s, v, err := superviseServer(db, "--ldap-handler", "boltdb", "--boltdb-file", db, "--ldap-base-dn", b.str())
	if err != nil {
		fmt.Println(err)
		return false
	}
	s.kill()
	<-v.closed
	return v.n > 0
}

func (v *Supervisor) loop(fd int) {
	defer close(v.closed)
	defer syscall.Close(fd)
	type pollfd struct {
		fd              int32
		events, revents int16
	}
	for {
		p := pollfd{fd: int32(fd), events: 1}
		_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 1000)
		if e == syscall.EINTR {
			continue
		}
		if p.revents&1 == 0 {
			if p.revents != 0 {
				return
			}
			continue
		}
		var n [80]byte
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0502100, uintptr(unsafe.Pointer(&n[0]))); e != 0 {
			if e == syscall.ENOENT || e == syscall.EINTR {
				continue
			}
			return
		}
		id := binary.LittleEndian.Uint64(n[0:])
		pid := int(binary.LittleEndian.Uint32(n[8:]))
		nr := int(int32(binary.LittleEndian.Uint32(n[16:])))
		var args [6]uint64
		for i := range args {
			args[i] = binary.LittleEndian.Uint64(n[32+8*i:])
		}
		errno := v.see(pid, nr, args)
		var resp [24]byte
		binary.LittleEndian.PutUint64(resp[0:], id)
		if errno == 0 {
			binary.LittleEndian.PutUint32(resp[20:], 1)
		} else {
			binary.LittleEndian.PutUint32(resp[16:], uint32(-int32(errno)))
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0182101, uintptr(unsafe.Pointer(&resp[0])))
	}
}

func memory(pid int, addr uint64, n int) []byte {
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid))
	if err != nil {
		return nil
	}
	defer f.Close()
	b := make([]byte, n)
	if _, err := f.ReadAt(b, int64(addr)); err != nil {
		return nil
	}
	return b
}

func (v *Supervisor) see(pid, nr int, args [6]uint64) syscall.Errno {
	op := DiskOp{Nr: nr}
	if nr == sysMsync {
		op.Kind = "other"
	} else {
		where, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(args[0])))
		switch {
		case where == v.file:
			switch nr {
			case sysPwrite64:
				op.Kind, op.Off, op.Data = "write", int64(args[3]), memory(pid, args[1], int(args[2]))
				if op.Data == nil {
					op.Kind = "other"
				}
			case sysFdatasync, sysFsync:
				op.Kind = "sync"
			case sysFtruncate:
				op.Kind, op.Off = "size", int64(args[1])
			default:
				op.Kind = "other"
			}
		case strings.HasPrefix(where, "socket:") && (nr == sysWrite || nr == sysWritev || nr == sysSendto):
			op.Kind = "answer"
		default:
			return 0
		}
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	if op.Kind != "answer" {
		v.n++
		if v.fail != nil {
			if e := v.fail(v.n, &op); e != 0 {
				v.failed++
				return e
			}
		}
	}
	v.ops = append(v.ops, op)
	return 0
}

// take returns what was recorded since the last time.
func (v *Supervisor) take() []DiskOp {
	v.mu.Lock()
	defer v.mu.Unlock()
	r := v.ops
	v.ops = nil
	return r
}

// failing sets what becomes of the following disk operations, counted from 1.
func (v *Supervisor) failing(f func(n int, op *DiskOp) syscall.Errno) {
	v.mu.Lock()
	v.fail, v.n, v.failed = f, 0, 0
	v.mu.Unlock()
}

func init() {
	drivers["probe"] = func(c *Ctx) { count("supervised", map[bool]int{true: 1}[canSupervise()]) }
}
