package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var idmd string // the server binary under test

var (
	procMu  sync.Mutex
	procs   = map[*Server]bool{}
	scratch string
)

func cleanupAll() {
	procMu.Lock()
	for s := range procs {
		s.cmd.Process.Kill()
	}
	procMu.Unlock()
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func initScratch() {
	base := os.TempDir()
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		if d, err := os.MkdirTemp("/dev/shm", "idmverif"); err == nil {
			scratch = d
			return
		}
	}
	d, err := os.MkdirTemp(base, "idmverif")
	must(err)
	scratch = d
}

var scratchN int

func scratchPath(name string) string {
	procMu.Lock()
	defer procMu.Unlock()
	scratchN++
	return filepath.Join(scratch, fmt.Sprintf("%04d-%s", scratchN, name))
}

// lockedBuffer collects the output of a process.
type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *lockedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *lockedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

func (b *lockedBuffer) Len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Len()
}

// Server is a running server process.
type Server struct {
	cmd    *exec.Cmd
	addr   string
	args   []string
	stderr lockedBuffer
	done   chan struct{}
	err    error
	extra  string // second address (metrics)
}

// freePort finds a port that nobody uses, below those the system hands out
// to clients. It gives every port out once, so that servers started side by
// side do not take each other's.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < portCount; i++ {
		portNext = (portNext + 1) % portCount
		if unused(fmt.Sprintf("%s:%d", ownHost, portFirst+portNext)) {
			return portFirst + portNext
		}
	}
	fatal("no free port")
	return 0
}

// unused tells whether a server could listen at the address. No process is
// started meanwhile: it would keep the address in use for a moment.
func unused(addr string) bool {
	syscall.ForkLock.Lock()
	defer syscall.ForkLock.Unlock()
	l, err := net.Listen("tcp", addr)
	if err == nil {
		l.Close()
	}
	return err == nil
}

const portFirst, portCount = 10000, 22000

var (
	portMu   sync.Mutex
	portNext = os.Getpid() * 997 % portCount
	ownHost  = ownAddress()
)

// ownAddress is an address of this machine that belongs to this process, so
// that drivers running side by side cannot meet each other's servers.
func ownAddress() string {
	p := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 64+p>>16&63, p>>8&255, p&255)
	if l, err := net.Listen("tcp", host+":0"); err == nil {
		l.Close()
		return host
	}
	return "127.0.0.1"
}

func freeAddr() string { return fmt.Sprintf("%s:%d", ownHost, freePort()) }

// startServer runs `idmd serve` with the given arguments and waits until it accepts connections.
func startServer(args ...string) *Server {
	s, err := tryStart("", args...)
	if err != nil {
		fatal("cannot start server: %v", err)
	}
	return s
}

func tryStart(addr string, args ...string) (*Server, error) {
	var last error
	for i := 0; i < 5; i++ {
		a := addr
		if a == "" {
			a = freeAddr()
		}
		s := spawn(a, nil, args...)
		deadline := time.Now().Add(30 * time.Second)
		for time.Now().Before(deadline) {
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err == nil {
				c.Close()
				select {
				case <-s.done: // somebody else answered
				default:
					return s, nil
				}
			}
			select {
			case <-s.done:
				last = fmt.Errorf("server exited: %v %s", s.err, s.stderr.String())
				goto next
			case <-time.After(3 * time.Millisecond):
			}
		}
		last = fmt.Errorf("server does not accept connections: %s", s.stderr.String())
		s.kill()
	next:
		if addr != "" {
			break
		}
	}
	return nil, last
}

func spawn(addr string, wrapper []string, args ...string) *Server {
	return spawnEnv(addr, wrapper, nil, args...)
}

func spawnEnv(addr string, wrapper, env []string, args ...string) *Server {
	full := append([]string{"serve", "--ldap-listen", addr, "--log-level", "error"}, args...)
	name := idmd
	if len(wrapper) > 0 {
		full = append(append(append([]string{}, wrapper[1:]...), idmd), full...)
		name = wrapper[0]
	}
	return runEnv(addr, args, env, name, full...)
}

// await waits until the server accepts connections; false if it ends or the time is over.
func (s *Server) await(d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		if !s.alive() {
			return false
		}
		if c, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
			c.Close()
			return s.alive()
		}
	}
	return false
}

// slowSync is a wrapper that lets every synchronisation of a file take some
// microseconds longer; nil if the machine does not allow it.
func slowSync(us int) []string {
	straceOnce.Do(func() {
		straceOK = exec.Command("strace", "-f", "--kill-on-exit", "-o", "/dev/null", "true").Run() == nil
	})
	if !straceOK {
		return nil
	}
	return []string{"strace", "-f", "--kill-on-exit", "--seccomp-bpf", "-qq", "-o", "/dev/null", "-e", "trace=fdatasync,fsync", "-e", fmt.Sprintf("inject=fdatasync,fsync:delay_enter=%d", us)}
}

var (
	straceOnce sync.Once
	straceOK   bool
)

// spawnLib runs the in-process server of /verif/inproc.
func spawnLib(binary, addr string, args ...string) *Server {
	return run(addr, args, binary, append([]string{"-listen", addr}, args...)...)
}

// listening tells whether something listens at the address, without connecting to it.
func listening(addr string) bool {
	_, port, err := net.SplitHostPort(addr)
	must(err)
	n, err := strconv.Atoi(port)
	must(err)
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if w := strings.Fields(l); len(w) > 3 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", n)) {
				return true
			}
		}
	}
	return false
}

func run(addr string, args []string, name string, full ...string) *Server {
	return runEnv(addr, args, nil, name, full...)
}

func runEnv(addr string, args, env []string, name string, full ...string) *Server {
	return runFiles(addr, args, env, nil, name, full...)
}

func runFiles(addr string, args, env []string, files []*os.File, name string, full ...string) *Server {
	cmd := exec.Command(name, full...)
	cmd.ExtraFiles = files
	cmd.Env = append(append(os.Environ(), "IDMD_DEFAULT_LDIF_MAIN_PATH="), env...)
	s := &Server{cmd: cmd, addr: addr, args: args, done: make(chan struct{})}
	cmd.Stderr = &s.stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal("cannot run %s: %v", name, err)
	}
	procMu.Lock()
	procs[s] = true
	procMu.Unlock()
	go func() {
		s.err = cmd.Wait()
		procMu.Lock()
		delete(procs, s)
		procMu.Unlock()
		close(s.done)
	}()
	return s
}

func (s *Server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *Server) kill() {
	s.cmd.Process.Kill()
	<-s.done
}

// stop asks the server to terminate and waits for it.
func (s *Server) stop() bool {
	s.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-s.done:
		return true
	case <-time.After(20 * time.Second):
		s.kill()
		return false
	}
}
