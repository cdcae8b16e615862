package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type lockOp struct {
	E string `json:"e"`
	C int    `json:"c"`
	K string `json:"k"`
	L int    `json:"l"`
}

type locksCase struct {
	Ops   []lockOp `json:"ops"`
	Procs []bool   `json:"procs"` // contender is a process of its own
	Forms bool     `json:"forms"` // the same lock is spelled in different ways
	Exist bool     `json:"exist"` // the locked files exist
	Deep  bool     `json:"deep"`
}

// lockChild obeys lines "lock <k> <url>" and "unlock" and answers "got" and "left".
func lockChild() {
	in := bufio.NewReader(os.Stdin)
	var held io.Closer
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}
		f := strings.Fields(l)
		switch f[0] {
		case "lock":
			if held, err = take(f[1], f[2]); err != nil {
				fmt.Println("error", err)
				os.Exit(1)
			}
			fmt.Println("got")
		case "unlock":
			if err := held.Close(); err != nil {
				fmt.Println("error", err)
				os.Exit(1)
			}
			fmt.Println("left")
		}
	}
}

func take(k, url string) (io.Closer, error) {
	if k == "x" {
		return storage.Lock(url)
	}
	return storage.RLock(url)
}

type contender struct {
	n     int
	send  func(string)
	die   func()
	state string // idle, waits, has, dead
	kind  string
	lock  int
}

type lockMsg struct {
	c   int
	msg string
}

func locksDriver(c *vh.Case) error {
	var s locksCase
	c.Decode(&s)
	msgs := make(chan lockMsg, 100)
	path := func(l int) string {
		p := filepath.Join(c.Scratch, "locks")
		if s.Deep {
			p = filepath.Join(p, "a", "b")
		}
		return fmt.Sprintf("%s/l%d", p, l)
	}
	url := func(l, n int) string {
		p := path(l)
		if s.Forms {
			switch n % 3 {
			case 0:
				return p
			case 1:
				return "file:" + filepath.Dir(p) + "/./" + filepath.Base(p)
			}
		}
		return "file://" + p
	}
	if s.Exist {
		vh.Must(os.MkdirAll(filepath.Dir(path(1)), 0755))
		for l := 1; l <= 2; l++ {
			vh.Must(os.WriteFile(path(l), []byte("content"), 0644))
		}
	}
	cs := make(map[int]*contender)
	var procs []*exec.Cmd
	defer func() {
		for _, p := range procs {
			p.Process.Kill()
			p.Wait()
		}
	}()
	for n := 1; n <= len(s.Procs); n++ {
		n := n
		k := &contender{n: n, state: "idle"}
		cs[n] = k
		if s.Procs[n-1] {
			cmd := exec.Command("/proc/self/exe", "child", "lock")
			in, err := cmd.StdinPipe()
			vh.Must(err)
			out, err := cmd.StdoutPipe()
			vh.Must(err)
			vh.Must(cmd.Start())
			procs = append(procs, cmd)
			k.send = func(l string) { io.WriteString(in, l+"\n") }
			k.die = func() { cmd.Process.Kill() }
			go func() {
				r := bufio.NewReader(out)
				for {
					l, err := r.ReadString('\n')
					if err != nil {
						return
					}
					msgs <- lockMsg{n, strings.TrimSpace(l)}
				}
			}()
			continue
		}
		todo := make(chan string, 4)
		k.send = func(l string) { todo <- l }
		defer close(todo)
		go func() {
			var held io.Closer
			for l := range todo {
				f := strings.Fields(l)
				var err error
				if f[0] == "lock" {
					if held, err = take(f[1], f[2]); err == nil {
						msgs <- lockMsg{n, "got"}
					}
				} else if err = held.Close(); err == nil {
					msgs <- lockMsg{n, "left"}
				}
				if err != nil {
					msgs <- lockMsg{n, "error " + err.Error()}
				}
			}
		}()
	}
	var events []map[string]interface{}
	defer func() { c.Obs = map[string]interface{}{"ev": events} }()
	log := func(e string, k *contender) {
		ev := map[string]interface{}{"e": e, "c": k.n}
		if e == "request" {
			ev["k"], ev["l"] = k.kind, k.lock
		}
		events = append(events, ev)
	}
	leaving := 0
	handle := func(m lockMsg) error {
		k := cs[m.c]
		if k.state == "dead" {
			return nil
		}
		switch {
		case m.msg == "got":
			k.state = "has"
			log("got", k)
		case m.msg == "left":
			leaving--
		default:
			return vh.Bad("contender %d: %s", m.c, m.msg)
		}
		return nil
	}
	// due: somebody must be granted a lock by now
	due := func() string {
		for l := 1; l <= 2; l++ {
			var hx, hs, wx, ws int
			for _, k := range cs {
				if k.lock == l && k.state == "has" {
					if k.kind == "x" {
						hx++
					} else {
						hs++
					}
				}
				if k.lock == l && k.state == "waits" {
					if k.kind == "x" {
						wx++
					} else {
						ws++
					}
				}
			}
			if hx+hs == 0 && wx+ws > 0 {
				return fmt.Sprintf("lock %d is free, but %d and %d waiters wait", l, wx, ws)
			}
			if hx == 0 && hs > 0 && wx == 0 && ws > 0 {
				return fmt.Sprintf("lock %d is shared, but %d wait to share it", l, ws)
			}
		}
		if leaving > 0 {
			return "a release does not return"
		}
		return ""
	}
	// settle waits for what is due, then a moment for what should not come
	settle := func() error {
		deadline := time.After(10 * time.Second)
		for d := due(); d != ""; d = due() {
			select {
			case m := <-msgs:
				if err := handle(m); err != nil {
					return err
				}
			case <-deadline:
				return vh.Bad("%s", d)
			}
		}
		moment := time.After(2 * time.Millisecond)
		for {
			select {
			case m := <-msgs:
				if err := handle(m); err != nil {
					return err
				}
			case <-moment:
				return nil
			}
		}
	}
	release := func(k *contender) {
		log("release", k)
		k.state, k.lock = "idle", 0
		leaving++
		k.send("unlock")
	}
	for _, op := range s.Ops {
		k := cs[op.C]
		switch op.E {
		case "request":
			if k.state != "idle" {
				continue
			}
			k.state, k.kind, k.lock = "waits", op.K, op.L
			log("request", k)
			k.send("lock " + op.K + " " + url(op.L, op.C))
		case "release":
			if k.state != "has" {
				continue
			}
			release(k)
		case "die":
			if k.die == nil || k.state != "has" && k.state != "waits" {
				continue
			}
			log("die", k)
			k.state, k.lock = "dead", 0
			k.die()
		}
		if err := settle(); err != nil {
			return err
		}
	}
	for {
		if err := settle(); err != nil {
			return err
		}
		var holder *contender
		for n := 1; n <= len(s.Procs); n++ {
			if cs[n].state == "has" {
				holder = cs[n]
				break
			}
		}
		if holder == nil {
			break
		}
		release(holder)
	}
	for _, k := range cs {
		if k.state == "waits" {
			return vh.Bad("contender %d waits for ever", k.n)
		}
	}
	if s.Exist {
		for l := 1; l <= 2; l++ {
			if err := same("file://"+path(l), []byte("content")); err != nil {
				return vh.Bad("a locked object changed: %v", err)
			}
		}
	}
	return nil
}
