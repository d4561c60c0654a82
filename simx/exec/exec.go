// Package exec stands in for os/exec: commands run in the simulation.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	real "os/exec"

	"verif/simrt"
)

// Run executes a command in the simulation.
var Run func(c *Cmd) (stdout, stderr []byte, err error)

// Cmd replaces exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	ProcessState *os.ProcessState
	Err          error

	started bool
	done    bool
	err     error
	wait    *simrt.WaitGroup
}

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

func CommandContext(_ context.Context, name string, args ...string) *Cmd {
	return Command(name, args...)
}

func LookPath(f string) (string, error) { return "/usr/bin/" + f, nil }

func (c *Cmd) exec() error {
	o, e, err := Run(c)
	if c.Stdout != nil {
		c.Stdout.Write(o)
	}
	if c.Stderr != nil {
		c.Stderr.Write(e)
	}
	return err
}

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	c.wait = &simrt.WaitGroup{}
	c.wait.Add(1)
	simrt.Go("local command", func() { c.err = c.exec(); c.wait.Done() })
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.wait != nil {
		c.wait.Wait()
	}
	return c.err
}

func (c *Cmd) Run() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	return c.exec()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var o, e bytes.Buffer
	c.Stdout = &o
	own := c.Stderr == nil
	if own {
		c.Stderr = &e
	}
	err := c.Run()
	if x, ok := err.(*real.ExitError); ok && own {
		x.Stderr = e.Bytes()
	}
	return o.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) String() string {
	s := c.Path
	for _, a := range c.Args[1:] {
		s += " " + a
	}
	return s
}
