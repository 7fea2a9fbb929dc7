package main

import (
	"bytes"
	"context"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Result of one run of a built command.
type cmdResult struct {
	Code     int // -1: ended by a signal or the time limit
	Out, Err string
	TimedOut bool
}

// crashed tells whether the command died in a way no command should.
func (r cmdResult) crashed() bool {
	return r.Code < 0 || r.Code == 2 && strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:") || strings.Contains(r.Err, "SIGSEGV")
}

// run runs a command in the case's directory.
func (c *Ctx) run(stdin io.Reader, name string, args ...string) cmdResult {
	return c.runIn(c.Dir, stdin, name, args...)
}

func (c *Ctx) runIn(dir string, stdin io.Reader, name string, args ...string) cmdResult {
	return c.runTo(dir, stdin, nil, name, args...)
}

// runTo runs a command that writes to stdout, if that is not nil; name is a path
// or the name of a built command.
func (c *Ctx) runTo(dir string, stdin io.Reader, stdout *os.File, name string, args ...string) cmdResult {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	bin := name
	if !filepath.IsAbs(bin) {
		bin = filepath.Join(c.BinDir, name)
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Stdin = stdin
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if stdout != nil {
		cmd.Stdout = stdout
	}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=2GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	res := cmdResult{Out: ob.String(), Err: eb.String(), TimedOut: ctx.Err() != nil}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			res.Code = ee.ExitCode()
		} else {
			c.Setup("running %s: %v", name, err)
		}
	}
	c.Count("runs_of_"+filepath.Base(name), 1)
	return res
}
