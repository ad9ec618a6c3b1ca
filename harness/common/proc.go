//go:build go1.21

package main

import (
	"bytes"
	"os"
	"os/exec"
	"time"
)

// runTool runs a command of the repository in an empty environment.
func runTool(c *C, path string, args ...string) (code int, stdout, stderr string) {
	cmd := exec.Command(path, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = []string{"TMPDIR=.", "HOME=.", "TZ=" + os.Getenv("TZ")}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(100*time.Second, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		c.Fail("the command ends", "%s %q did not end", path, args)
	}
	code = 0
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = x.ExitCode()
	}
	return code, o.String(), e.String()
}
