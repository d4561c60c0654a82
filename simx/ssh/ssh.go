// Package ssh stands in for the parts of golang.org/x/crypto/ssh that talk to
// the network: clients and sessions run against a simulated server. Keys,
// configurations and errors are the real package's.
package ssh

import (
	"bytes"
	"errors"
	"io"
	"net"
	"reflect"
	"unsafe"

	real "golang.org/x/crypto/ssh"

	"verif/simrt"
)

// Server is the simulated far end of all connections.
type Server interface {
	// Connect opens a connection or fails, after some simulated time.
	Connect(network, addr string, cfg *real.ClientConfig, keys []real.PublicKey) (Remote, error)
}

// Remote is one connection as seen by the simulated server.
type Remote interface {
	Open() error
	// Exec runs a command to its end.
	Exec(cmd string, stdin io.Reader) (out, errOut []byte, err error)
	CloseSession()
	Close() error
}

// Backend is the server in use.
var Backend Server

// KeyAuth remembers the keys of a public key authentication.
type KeyAuth struct {
	real.AuthMethod
	Signers []real.Signer
}

// PublicKeys replaces ssh.PublicKeys.
func PublicKeys(s ...real.Signer) real.AuthMethod { return KeyAuth{real.PublicKeys(s...), s} }

// Client replaces ssh.Client.
type Client struct {
	rem    Remote
	closed bool
	User_  string
}

// Dial replaces ssh.Dial.
func Dial(network, addr string, cfg *real.ClientConfig) (*Client, error) {
	var keys []real.PublicKey
	for _, a := range cfg.Auth {
		if k, ok := a.(KeyAuth); ok {
			for _, s := range k.Signers {
				keys = append(keys, s.PublicKey())
			}
		}
	}
	if cfg.HostKeyCallback == nil {
		return nil, errors.New("ssh: must specify HostKeyCallback")
	}
	r, err := Backend.Connect(network, addr, cfg, keys)
	if err != nil {
		return nil, err
	}
	return &Client{rem: r, User_: cfg.User}, nil
}

// NewClient is not supported.
func NewClient(c real.Conn, chans <-chan real.NewChannel, reqs <-chan *real.Request) *Client {
	panic("simssh: NewClient")
}

func (c *Client) NewSession() (*Session, error) {
	if c.closed {
		return nil, net.ErrClosed
	}
	if err := c.rem.Open(); err != nil {
		return nil, err
	}
	return &Session{c: c}, nil
}

func (c *Client) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	return c.rem.Close()
}
func (c *Client) User() string { return c.User_ }
func (c *Client) Wait() error  { simrt.SitForever(); return nil }

// Session replaces ssh.Session.
type Session struct {
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer

	c       *Client
	started bool
	closed  bool
	done    bool
	err     error
	wait    *simrt.WaitGroup
}

func (s *Session) Start(cmd string) error {
	if s.started {
		return errors.New("ssh: session already started")
	}
	if s.closed {
		return io.EOF
	}
	s.started = true
	s.wait = &simrt.WaitGroup{}
	s.wait.Add(1)
	simrt.Go("ssh session", func() {
		s.exec(cmd)
		s.wait.Done()
	})
	return nil
}

func (s *Session) exec(cmd string) {
	o, e, err := s.c.rem.Exec(cmd, s.Stdin)
	if s.Stdout != nil {
		s.Stdout.Write(o)
	}
	if s.Stderr != nil {
		s.Stderr.Write(e)
	}
	s.err = err
}

func (s *Session) Wait() error {
	if !s.started {
		return errors.New("ssh: session not started")
	}
	if s.wait != nil {
		s.wait.Wait()
	}
	return s.err
}

func (s *Session) Run(cmd string) error {
	if s.started {
		return errors.New("ssh: session already started")
	}
	if s.closed {
		return io.EOF
	}
	s.started = true
	s.exec(cmd)
	return s.err
}

func (s *Session) Output(cmd string) ([]byte, error) {
	if s.Stdout != nil {
		return nil, errors.New("ssh: Stdout already set")
	}
	var b bytes.Buffer
	s.Stdout = &b
	err := s.Run(cmd)
	return b.Bytes(), err
}

func (s *Session) CombinedOutput(cmd string) ([]byte, error) {
	if s.Stdout != nil || s.Stderr != nil {
		return nil, errors.New("ssh: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	s.Stdout, s.Stderr = &b, &b
	err := s.Run(cmd)
	return b.Bytes(), err
}

func (s *Session) Close() error {
	if s.closed {
		return io.EOF
	}
	s.closed = true
	s.c.rem.CloseSession()
	return nil
}
func (s *Session) Setenv(name, value string) error                               { return nil }
func (s *Session) RequestPty(term string, h, w int, tm real.TerminalModes) error { return nil }
func (s *Session) Signal(sig real.Signal) error                                  { return nil }

// NewExitError makes the error of a remote command that ended with a status.
func NewExitError(status int, msg string) *real.ExitError {
	e := &real.ExitError{}
	v := reflect.ValueOf(&e.Waitmsg).Elem()
	set := func(name string, x any) {
		f := v.FieldByName(name)
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
	}
	set("status", status)
	set("msg", msg)
	return e
}
