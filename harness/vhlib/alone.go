package zzvhlib

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
)

// Alone makes a driver run every case in a process of its own, for what can
// only be told apart by process.
func Alone(d Driver) Driver {
	if os.Getenv("VH_ALONE") != "" {
		return d
	}
	return func(c *Case) error {
		b, err := json.Marshal(line{c.Index, c.Raw})
		Must(err)
		in, out := filepath.Join(c.Scratch, "case"), filepath.Join(c.Scratch, "result")
		Must(os.WriteFile(in, append(b, '\n'), 0644))
		cmd := exec.Command(os.Args[0], os.Args[1], "-cases", in, "-out", out, "-scratch", filepath.Join(c.Scratch, "own"), "-case-timeout", "100000")
		cmd.Env = append(os.Environ(), "VH_ALONE=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		rerr := cmd.Run()
		f, err := os.Open(out)
		Must(err)
		defer f.Close()
		dec := json.NewDecoder(f)
		for {
			var r result
			if err := dec.Decode(&r); err != nil {
				return Bad("the process ended: %v\n%.4000s", rerr, stderr.String())
			}
			switch {
			case r.Begin:
			case r.Harness:
				Harness("%s", r.Msg)
			case !r.OK:
				return Bad("%s", r.Msg)
			default:
				c.Obs = r.Obs
				return nil
			}
		}
	}
}
