// Package main runs the server of the repository inside a process that can be
// asked for its statistics and accepts connections pretending to come from any
// address. It is compiled into the repository's module by an overlay.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"

	"github.com/libregraph/idm/server"
)

// claimed is a connection with a claimed remote address.
type claimed struct {
	net.Conn
	r    *bufio.Reader
	addr net.Addr
}

func (c *claimed) Read(b []byte) (int, error) { return c.r.Read(b) }
func (c *claimed) RemoteAddr() net.Addr       { return c.addr }

// listener reads the claimed address from the first line.
type listener struct{ net.Listener }

func (l listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	r := bufio.NewReader(c)
	line, err := r.ReadString('\n')
	if err != nil {
		c.Close()
		return l.Accept()
	}
	a, err := net.ResolveTCPAddr("tcp", strings.TrimSpace(line))
	if err != nil {
		c.Close()
		return l.Accept()
	}
	return &claimed{c, r, a}, nil
}

func main() {
	var c server.Config
	var claim, control string
	flag.StringVar(&c.LDAPHandler, "handler", "boltdb", "")
	flag.StringVar(&c.LDAPListenAddr, "listen", "", "")
	flag.StringVar(&c.LDAPBaseDN, "base", "", "")
	flag.StringVar(&c.LDAPAdminDN, "admin", "", "")
	flag.BoolVar(&c.LDAPAllowLocalAnonymousBind, "anon", false, "")
	flag.StringVar(&c.BoltDBFile, "db", "", "")
	flag.StringVar(&c.LDIFMain, "main", "", "")
	flag.StringVar(&c.LDIFConfig, "config", "", "")
	flag.StringVar(&claim, "claim", "", "address of the listener for connections with claimed addresses")
	flag.StringVar(&control, "control", "", "socket answering each line with the statistics")
	flag.Parse()
	l := logrus.New()
	l.Out = io.Discard
	c.Logger = l
	if control != "" {
		c.Metrics = prometheus.NewRegistry()
	}
	c.OnReady = func(s *server.Server) {
		if claim != "" {
			ln, err := net.Listen("tcp", claim)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(9)
			}
			go s.LDAPServer.Serve(listener{ln})
		}
		if control != "" {
			ln, err := net.Listen("unix", control)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(9)
			}
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					defer conn.Close()
					r := bufio.NewReader(conn)
					for {
						if _, err := r.ReadString('\n'); err != nil {
							return
						}
						st := s.LDAPServer.GetStats()
						b, _ := json.Marshal(&st)
						conn.Write(append(b, '\n'))
					}
				}()
			}
		}
	}
	s, err := server.NewServer(&c)
	if err == nil {
		err = s.Serve(context.Background())
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
