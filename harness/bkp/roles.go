// Package bkp runs the real moco-backup command against an emulated
// Kubernetes API server, object storage and mysqld, and records what it does.
//
// The test binary plays several roles: the driver, moco-backup itself, and
// the commands that moco-backup starts.
package bkp

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/cybozu-go/moco/cmd/moco-backup/cmd"
	"github.com/go-sql-driver/mysql"
)

// call is what a command tells the world, reply the answer.
type call struct {
	Name  string            `json:"name"`
	Args  []string          `json:"args"`
	TZ    string            `json:"tz"`
	Stdin string            `json:"stdin"`
	Files map[string]string `json:"files"`
}

type reply struct {
	Code   int               `json:"code"`
	Stdout string            `json:"stdout"`
	Files  map[string]string `json:"files"`
	Exec   bool              `json:"exec"` // run the real command
	Cut    bool              `json:"cut"`  // leave the output incomplete
}

// role returns if the process is the driver; otherwise it does not return.
func role() {
	name := filepath.Base(os.Args[0])
	switch name {
	case "moco-backup":
		mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
			c, err := (&net.Dialer{}).DialContext(ctx, "tcp", os.Getenv("VERIF_SQL"))
			if err != nil {
				return nil, err
			}
			if _, err := c.Write([]byte(addr + "\n")); err != nil {
				return nil, err
			}
			b := make([]byte, 1)
			if _, err := io.ReadFull(c, b); err != nil || b[0] != '+' {
				_ = c.Close()
				return nil, fmt.Errorf("dial tcp %s: connection refused", addr)
			}
			return c, nil
		})
		cmd.Execute()
		os.Exit(0)
	case "mysqlsh", "mysqlbinlog", "mysql", "tar", "zstd":
		os.Exit(command(name))
	}
}

func command(name string) int {
	c := call{Name: name, Args: os.Args[1:], TZ: os.Getenv("TZ"), Files: map[string]string{}}
	switch {
	case name == "mysql":
		b, _ := io.ReadAll(os.Stdin)
		c.Stdin = string(b)
	case name == "mysqlsh" && has(c.Args, "load-dump"):
		dir := after(c.Args, "load-dump")
		_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				b, _ := os.ReadFile(p)
				r, _ := filepath.Rel(dir, p)
				c.Files[r] = string(b)
			}
			return nil
		})
	case name == "mysqlbinlog" && !has(c.Args, "--raw"):
		for _, a := range c.Args {
			if !strings.HasPrefix(a, "-") {
				if b, err := os.ReadFile(a); err == nil {
					c.Files[a] = string(b)
				}
			}
		}
	}
	body, _ := json.Marshal(c)
	resp, err := http.Post(os.Getenv("VERIF_WORLD")+"/verif/cmd", "application/json", bytes.NewReader(body))
	if err != nil {
		return 3
	}
	var r reply
	err = json.NewDecoder(resp.Body).Decode(&r)
	_ = resp.Body.Close()
	if err != nil {
		return 3
	}
	for p, s := range r.Files {
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 4
		}
	}
	if r.Stdout != "" {
		if _, err := os.Stdout.WriteString(r.Stdout); err != nil {
			return 4
		}
	}
	if r.Exec {
		real := "/usr/bin/" + name
		if _, err := os.Stat(real); err != nil {
			real = "/bin/" + name
		}
		if !r.Cut {
			err := syscall.Exec(real, append([]string{name}, os.Args[1:]...), os.Environ())
			fmt.Fprintln(os.Stderr, err)
			return 5
		}
		// a part of the output, then failure
		return cut(real, os.Args[1:])
	}
	return r.Code
}

func has(args []string, s string) bool {
	for _, a := range args {
		if a == s {
			return true
		}
	}
	return false
}

func after(args []string, s string) string {
	for i, a := range args {
		if a == s && i+1 < len(args) {
			return args[i+1]
		}
	}
	return ""
}

func opt(args []string, s string) (string, bool) {
	for _, a := range args {
		if v, ok := strings.CutPrefix(a, s+"="); ok {
			return v, true
		}
	}
	return "", false
}
