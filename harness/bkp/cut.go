package bkp

import (
	"bytes"
	"os"
	"os/exec"
)

// cut runs the command but passes on only half of its output.
func cut(path string, args []string) int {
	c := exec.Command(path, args...)
	c.Stdin, c.Stderr = os.Stdin, os.Stderr
	var b bytes.Buffer
	c.Stdout = &b
	_ = c.Run()
	_, _ = os.Stdout.Write(b.Bytes()[:b.Len()/2])
	return 1
}
