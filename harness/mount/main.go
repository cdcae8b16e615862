// Command zz_mount runs the tool's mount command with a stand-in for
// fusermount, and plays the kernel's part of the conversation.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	if filepath.Base(os.Args[0]) == "fusermount" {
		fusermount()
		return
	}
	vh.Main(map[string]vh.Driver{"mount": mountDriver})
}

// fusermount asks the harness what to do and passes the connection on.
func fusermount() {
	fail := func(f string, a ...interface{}) {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
		os.Exit(1)
	}
	c, err := net.Dial("unix", os.Getenv("VERIF_FUSE"))
	if err != nil {
		fail("harness: %v", err)
	}
	uc := c.(*net.UnixConn)
	if err := json.NewEncoder(uc).Encode(os.Args[1:]); err != nil {
		fail("harness: %v", err)
	}
	b, oob := make([]byte, 16), make([]byte, 64)
	n, on, _, _, err := uc.ReadMsgUnix(b, oob)
	if err != nil || n == 0 || b[0] != 'y' {
		fail("refused")
	}
	if on == 0 {
		return
	}
	fd, err := strconv.Atoi(os.Getenv("_FUSE_COMMFD"))
	if err != nil {
		fail("no _FUSE_COMMFD")
	}
	scms, err := syscall.ParseSocketControlMessage(oob[:on])
	if err != nil || len(scms) != 1 {
		fail("harness: no descriptor")
	}
	fds, err := syscall.ParseUnixRights(&scms[0])
	if err != nil {
		fail("harness: %v", err)
	}
	if err := syscall.Sendmsg(fd, []byte{0}, syscall.UnixRights(fds[0]), nil, 0); err != nil {
		fail("sendmsg: %v", err)
	}
}

type mountCase struct {
	vhd.Spec
	Flaw  string   `json:"flaw"`
	Allow bool     `json:"allow"`
	Calls []string `json:"calls"`
	Exit  string   `json:"exit"`
	Acts  []act    `json:"acts"`
	Seed  int64    `json:"seed"`
	Conc  bool     `json:"conc"`
}

type act struct {
	Op   string   `json:"op"`
	P    []string `json:"p"`
	O    int      `json:"o"`
	Want string   `json:"want"`
	Busy bool     `json:"busy"`
	Late int      `json:"late"`
}

// kernel is the other end of the connection.
type kernel struct {
	c      *net.UnixConn
	mu     sync.Mutex
	next   uint64
	wait   map[uint64]chan []byte
	closed bool
	down   chan bool // nothing more comes
}

func newKernel() (*kernel, *os.File) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_SEQPACKET|syscall.SOCK_CLOEXEC, 0)
	vh.Must(err)
	for _, fd := range fds {
		vh.Must(syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<20))
	}
	f := os.NewFile(uintptr(fds[0]), "kernel")
	c, err := net.FileConn(f)
	vh.Must(err)
	f.Close()
	k := &kernel{c: c.(*net.UnixConn), next: 2, wait: map[uint64]chan []byte{}, down: make(chan bool)}
	go k.read()
	return k, os.NewFile(uintptr(fds[1]), "fuse")
}

func (k *kernel) read() {
	buf := make([]byte, 4<<20)
	for {
		n, err := k.c.Read(buf)
		if err != nil || n == 0 {
			break
		}
		if n < 16 || int(binary.LittleEndian.Uint32(buf)) != n {
			continue
		}
		id := binary.LittleEndian.Uint64(buf[8:])
		k.mu.Lock()
		ch := k.wait[id]
		delete(k.wait, id)
		k.mu.Unlock()
		if ch != nil {
			ch <- append([]byte(nil), buf[:n]...)
		}
	}
	close(k.down)
}

func (k *kernel) hangup() {
	k.mu.Lock()
	defer k.mu.Unlock()
	if !k.closed {
		k.closed = true
		k.c.Close()
	}
}

const (
	opLookup, opForget, opGetattr, opReadlink                       = 1, 2, 3, 5
	opMkdir, opUnlink, opOpen, opRead, opWrite, opStatfs, opRelease = 9, 10, 14, 15, 16, 17, 18
	opFlush, opInit, opOpendir, opReaddir, opReleasedir             = 25, 26, 27, 28, 29
)

type noAnswer struct{}

// call sends a request and returns the error number and body of the answer.
func (k *kernel) call(op uint32, node uint64, fields ...interface{}) (syscall.Errno, []byte) {
	var b bytes.Buffer
	k.mu.Lock()
	id := k.next
	k.next += 2
	ch := make(chan []byte, 1)
	if op != opForget {
		k.wait[id] = ch
	}
	k.mu.Unlock()
	w := func(v interface{}) { vh.Must(binary.Write(&b, binary.LittleEndian, v)) }
	w(uint32(0))
	w(op)
	w(id)
	w(node)
	w([4]uint32{0, 0, 1, 0})
	for _, f := range fields {
		if s, ok := f.(string); ok {
			b.WriteString(s + "\x00")
		} else {
			w(f)
		}
	}
	binary.LittleEndian.PutUint32(b.Bytes(), uint32(b.Len()))
	if _, err := k.c.Write(b.Bytes()); err != nil {
		panic(noAnswer{})
	}
	if op == opForget {
		return 0, nil
	}
	select {
	case r := <-ch:
		return syscall.Errno(-int32(binary.LittleEndian.Uint32(r[4:]))), r[16:]
	case <-k.down:
	case <-time.After(30 * time.Second):
	}
	panic(noAnswer{})
}

func (k *kernel) start() (syscall.Errno, []byte) {
	return k.call(opInit, 0, [4]uint32{7, 12, 65536, 0})
}

type attr struct {
	ino, size   uint64
	mode, nlink uint32
	uid, gid    uint32
	mtime       uint64
}

func parseAttr(b []byte) attr {
	le := binary.LittleEndian
	return attr{ino: le.Uint64(b), size: le.Uint64(b[8:]), mtime: le.Uint64(b[32:]), mode: le.Uint32(b[60:]), nlink: le.Uint32(b[64:]), uid: le.Uint32(b[68:]), gid: le.Uint32(b[72:])}
}

// walk looks names up one after the other; forget gives the references back.
func (k *kernel) walk(names []string) (node uint64, a attr, e syscall.Errno, forget func()) {
	var held []uint64
	forget = func() {
		for _, n := range held {
			k.call(opForget, n, uint64(1))
		}
	}
	node = 1
	for i, n := range names {
		if i > 0 && a.mode&syscall.S_IFMT != syscall.S_IFDIR {
			e = syscall.ENOTDIR // the kernel does not ask
			return
		}
		var b []byte
		e, b = k.call(opLookup, node, n)
		if e != 0 {
			return
		}
		node = binary.LittleEndian.Uint64(b)
		if node == 0 {
			e = syscall.ENOENT
			return
		}
		held = append(held, node)
		a = parseAttr(b[40:])
	}
	return
}

type session struct {
	s    *mountCase
	d    *vhd.Disc
	k    *kernel
	want map[string]vhd.Node
}

func split(p string) []string {
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (m *session) checkAttr(p string, a attr) error {
	n := m.want[p]
	kind := map[string]uint32{"dir": syscall.S_IFDIR, "file": syscall.S_IFREG, "link": syscall.S_IFLNK}[n.K]
	if a.mode&syscall.S_IFMT != kind {
		return vh.Bad("%s: mode %o of a %s", p, a.mode, n.K)
	}
	if a.mode&0222 != 0 && n.K != "link" {
		return vh.Bad("%s: mode %o can be written", p, a.mode)
	}
	if n.K == "file" && a.size != uint64(m.d.Objects[n.O-1].Size) {
		return vh.Bad("%s: size %d, burned with %d", p, a.size, m.d.Objects[n.O-1].Size)
	}
	return nil
}

// do sends one request of the history and judges the answer.
func (m *session) do(q act, rnd *rand.Rand) (err error) {
	p := "/" + vhd.Path(q.P, false)
	node, a, e, forget := m.k.walk(split(p))
	defer forget()
	if q.Op == "stat" && q.Want == "absent" {
		if e != syscall.ENOENT && e != syscall.ENOTDIR && e != syscall.EINVAL {
			return vh.Bad("lookup of %s: %v", p, e)
		}
		return nil
	}
	if e != 0 {
		return vh.Bad("lookup of %s: %v", p, e)
	}
	if p != "/" {
		if err := m.checkAttr(p, a); err != nil {
			return err
		}
	}
	switch q.Op {
	case "stat":
		e, b := m.k.call(opGetattr, node, [4]uint32{})
		if e != 0 {
			return vh.Bad("attributes of %s: %v", p, e)
		}
		if err := m.checkAttr(p, parseAttr(b[16:])); err != nil {
			return err
		}
		if e, b := m.k.call(opStatfs, 1); e != 0 || len(b) < 48 {
			return vh.Bad("statfs: %v", e)
		}
	case "link":
		e, b := m.k.call(opReadlink, node)
		if t := filepath.Clean(vhd.Target(m.want[p].T)); e != 0 || string(b) != t {
			return vh.Bad("link %s: %v, %q instead of %q", p, e, b, t)
		}
	case "list":
		return m.list(p, node, rnd)
	case "read":
		return m.read(p, node, q.Want, rnd)
	case "write":
		if e, _ := m.k.call(opMkdir, node, [2]uint32{0755, 0}, "new"); e == 0 {
			return vh.Bad("a directory was made in %s", p)
		}
		for n := range vhd.Children(m.want, p) {
			if e, _ := m.k.call(opUnlink, node, n); e == 0 {
				return vh.Bad("%s/%s was removed", p, n)
			}
			break
		}
	default:
		vh.Harness("act %q", q.Op)
	}
	return nil
}

func (m *session) list(p string, node uint64, rnd *rand.Rand) error {
	e, b := m.k.call(opOpendir, node, [2]uint32{})
	if e != 0 {
		return vh.Bad("opening directory %s: %v", p, e)
	}
	fh := binary.LittleEndian.Uint64(b)
	seen := map[string]uint32{}
	off := uint64(0)
	for n := 0; ; n++ {
		if n > 10000 {
			return vh.Bad("the listing of %s does not end", p)
		}
		size := uint32(4096 + 4096*rnd.Intn(8))
		e, b := m.k.call(opReaddir, node, fh, off, size, uint32(0), uint64(0), [2]uint32{})
		if e != 0 {
			return vh.Bad("listing %s at %d: %v", p, off, e)
		}
		if uint32(len(b)) > size {
			return vh.Bad("listing %s: %d bytes instead of %d", p, len(b), size)
		}
		if len(b) == 0 {
			break
		}
		for len(b) > 0 {
			if len(b) < 24 {
				return vh.Bad("listing %s: cut entry", p)
			}
			nl := int(binary.LittleEndian.Uint32(b[16:]))
			if 24+nl > len(b) {
				return vh.Bad("listing %s: cut entry", p)
			}
			name := string(b[24 : 24+nl])
			if _, ok := seen[name]; ok {
				return vh.Bad("listing %s: %q twice", p, name)
			}
			seen[name] = binary.LittleEndian.Uint32(b[20:])
			off = binary.LittleEndian.Uint64(b[8:])
			l := 24 + (nl+7)/8*8
			if l > len(b) {
				l = len(b)
			}
			b = b[l:]
		}
	}
	if e, _ := m.k.call(opReleasedir, node, fh, [2]uint32{}, uint64(0)); e != 0 {
		return vh.Bad("closing directory %s: %v", p, e)
	}
	delete(seen, ".")
	delete(seen, "..")
	kids := vhd.Children(m.want, p)
	for n, t := range seen {
		x, ok := kids[n]
		if !ok {
			return vh.Bad("listing %s: %q", p, n)
		}
		if want := map[string]uint32{"dir": 4, "file": 8, "link": 10}[x.K]; t != want {
			return vh.Bad("listing %s: type %d of %q", p, t, n)
		}
	}
	if len(seen) != len(kids) {
		return vh.Bad("listing %s: %d entries instead of %d", p, len(seen), len(kids))
	}
	return nil
}

func (m *session) read(p string, node uint64, want string, rnd *rand.Rand) error {
	obj := m.d.Objects[m.want[p].O-1]
	failed := func(what string, e syscall.Errno) error {
		if want == "ok" {
			return vh.Bad("%s %s: %v", what, p, e)
		}
		return nil
	}
	e, b := m.k.call(opOpen, node, [2]uint32{})
	if e != 0 {
		return failed("opening", e)
	}
	fh := binary.LittleEndian.Uint64(b)
	defer func() {
		m.k.call(opFlush, node, fh, [2]uint32{}, uint64(0))
		m.k.call(opRelease, node, fh, [2]uint32{}, uint64(0))
	}()
	size := uint32(4096 << uint(rnd.Intn(6)))
	var got []byte
	for {
		e, b := m.k.call(opRead, node, fh, uint64(len(got)), size, uint32(0), uint64(0), [2]uint32{})
		if e != 0 {
			return failed("reading", e)
		}
		got = append(got, b...)
		if uint32(len(b)) < size || len(got) > int(obj.Size) {
			break
		}
	}
	if want == "fail" {
		return vh.Bad("%s is read although its source is gone", p)
	}
	if !bytes.Equal(got, vh.Pattern(obj.ID, 0, obj.Size)) {
		return vh.Bad("%s: %d bytes read, not the %d of the source", p, len(got), obj.Size)
	}
	return nil
}

func chown(dir string) {
	vh.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, nobody, nobody)
	}))
}

// The command has no privileges: whatever it does, nothing real is mounted.
const nobody = 65534

func mountDriver(c *vh.Case) (err error) {
	var s mountCase
	c.Decode(&s)
	rnd := rand.New(rand.NewSource(s.Seed))
	d := vhd.NewDisc(c, &s.Spec)
	defer d.Close()
	if err := d.Apply(); err != nil {
		return err
	}
	if err := d.Build(); err != nil {
		return vh.Bad("burning: %v", err)
	}
	disc := filepath.Join(d.Dir, "disc.vdsc")
	bin := filepath.Join(c.Scratch, "bin")
	mp := filepath.Join(c.Scratch, "mnt")
	cache := filepath.Join(c.Scratch, "cache")
	tmp := filepath.Join(c.Scratch, "tmp")
	for _, p := range []string{bin, mp, cache, tmp} {
		vh.Must(os.Mkdir(p, 0755))
	}
	self, err := os.Executable()
	vh.Must(err)
	vh.Must(os.Symlink(self, filepath.Join(bin, "fusermount")))
	switch s.Flaw {
	case "nodisc":
		vh.Must(os.Remove(disc))
	case "nodir":
		vh.Must(os.Remove(mp))
	case "cut":
		vh.Must(os.Truncate(disc+".isohdr", int64(16+rnd.Intn(2))*2048-int64(rnd.Intn(2))*1000))
	}
	chown(c.Scratch)
	vh.Must(os.Chmod(filepath.Dir(os.Getenv("VDISC_BIN")), 0755))

	// the harness end of fusermount
	sock := fmt.Sprintf("@verif-fuse-%d-%d-%d", os.Getpid(), c.Index, time.Now().UnixNano())
	l, err := net.Listen("unix", sock)
	vh.Must(err)
	defer l.Close()
	k, dev := newKernel()
	defer k.hangup()
	sess := &session{s: &s, d: d, k: k, want: d.Want()}
	var mu sync.Mutex
	var calls []string
	var oops error
	report := func(e error) {
		mu.Lock()
		if e != nil && oops == nil {
			oops = e
		}
		mu.Unlock()
	}
	guard := func(what string, f func() error) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(noAnswer); !ok {
					panic(x)
				}
				report(vh.Bad("%s: no answer", what))
			}
		}()
		report(f())
	}
	mounted := make(chan bool, 1)
	var last act
	if len(s.Acts) > 0 {
		last = s.Acts[len(s.Acts)-1]
	}
	var lasts []act // what may still be asked
	for _, q := range s.Acts {
		if q.Op == "stat" || q.Op == "list" {
			lasts = append(lasts, q)
		}
	}
	serve := func(uc *net.UnixConn) {
		defer uc.Close()
		var args []string
		if err := json.NewDecoder(uc).Decode(&args); err != nil {
			return
		}
		if len(args) == 2 && args[0] == "-u" {
			mu.Lock()
			calls = append(calls, "unmount")
			mu.Unlock()
			if args[1] != mp {
				report(vh.Bad("unmounts %q instead of %q", args[1], mp))
			}
			for i := 0; i < last.Late && len(lasts) > 0; i++ {
				q := lasts[i%len(lasts)]
				guard(fmt.Sprintf("%v while unmounting", q), func() error { return sess.do(q, rnd) })
			}
			if last.Busy || last.Op == "both" && rnd.Intn(2) == 0 {
				uc.Write([]byte("n"))
				return
			}
			k.hangup()
			uc.Write([]byte("y"))
			return
		}
		mu.Lock()
		calls = append(calls, "mount")
		mu.Unlock()
		if len(args) != 4 || args[0] != "-o" || args[2] != "--" || args[3] != mp {
			report(vh.Bad("mounts with %q", args))
		} else {
			opts := map[string]bool{}
			for _, o := range strings.Split(args[1], ",") {
				opts[o] = true
			}
			if !opts["ro"] || opts["rw"] {
				report(vh.Bad("does not mount read-only: %q", args[1]))
			}
			if opts["allow_other"] != s.Allow {
				report(vh.Bad("allow_other is %v: %q", s.Allow, args[1]))
			}
		}
		if s.Flaw == "refused" {
			uc.Write([]byte("n"))
			return
		}
		uc.WriteMsgUnix([]byte("y"), syscall.UnixRights(int(dev.Fd())), nil)
		// the descriptor is open here until it has arrived there
		guard("start", func() error {
			if e, b := k.start(); e != 0 || len(b) < 24 {
				return vh.Bad("start of the connection: %v", e)
			}
			return nil
		})
		dev.Close()
		mounted <- true
	}
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			go serve(nc.(*net.UnixConn))
		}
	}()

	args := []string{"--cache-mode=" + []string{"disabled", "memory", "disk"}[rnd.Intn(3)], "--cache-root=" + cache, "--cache-bsize=" + []string{"4KiB", "64KiB", "4MiB"}[rnd.Intn(3)],
		"--log-level=" + []string{"info", "error", "debug"}[rnd.Intn(3)], "mount", "-u", []string{disc, "file://" + disc}[rnd.Intn(2)], "-p", mp}
	if rnd.Intn(2) == 0 {
		args = append(args, "--mode=fuse")
	}
	if s.Allow {
		args = append(args, "--fuse-allow-other-users")
	}
	cmd := exec.Command(os.Getenv("VDISC_BIN"), args...)
	cmd.Dir = mp
	if s.Flaw == "nodir" {
		cmd.Dir = c.Scratch
	}
	cmd.Env = []string{"HOME=" + tmp, "TMPDIR=" + tmp, "PATH=" + bin + ":" + os.Getenv("PATH"), "VERIF_FUSE=" + sock}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL}
	var out lockedBuffer
	cmd.Stdout, cmd.Stderr = &out, &out
	exited := make(chan bool)
	if err := cmd.Start(); err != nil {
		vh.Harness("starting the tool: %v", err)
	}
	go func() { cmd.Wait(); close(exited) }()
	defer func() {
		cmd.Process.Kill()
		<-exited
	}()
	bad := func(f string, a ...interface{}) error {
		return vh.Bad("%s; %s", fmt.Sprintf(f, a...), out.tail())
	}
	ended := func() error {
		select {
		case <-exited:
			return nil
		case <-time.After(30 * time.Second):
			return bad("the command does not end")
		}
	}
	problem := func() error {
		mu.Lock()
		defer mu.Unlock()
		return oops
	}

	if s.Flaw == "none" {
		select {
		case <-mounted:
		case <-exited:
			return bad("the command ends: %v", cmd.ProcessState)
		case <-time.After(30 * time.Second):
			return bad("nothing is mounted")
		}
	}
	for i := 0; i < len(s.Acts); i++ {
		if err := problem(); err != nil {
			return bad("%v", err)
		}
		select {
		case <-exited:
			return bad("the command ends by itself: %v", cmd.ProcessState)
		default:
		}
		q := s.Acts[i]
		switch q.Op {
		case "gone":
			obj := d.Objects[q.O-1]
			if obj.Local != "" {
				vh.Must(os.Remove(filepath.Join(d.Dir, obj.Local)))
			} else if strings.HasPrefix(obj.URL, "http") {
				vhd.Web().Remove(obj.URL)
			}
		case "int", "term", "both":
			sig := syscall.SIGINT
			if q.Op == "term" || q.Op == "both" && rnd.Intn(2) == 0 {
				sig = syscall.SIGTERM
			}
			if q.Op == "both" && rnd.Intn(2) == 0 {
				k.hangup()
			}
			cmd.Process.Signal(sig) // it may have ended already
			if q.Op == "both" {
				k.hangup()
			}
		case "umount":
			k.hangup()
		default:
			j := i + 1
			if s.Conc {
				for j < len(s.Acts) && j < i+6 && s.Acts[j].Op != "gone" && s.Acts[j].P != nil {
					j++
				}
			}
			var wg sync.WaitGroup
			for _, q := range s.Acts[i:j] {
				wg.Add(1)
				go func(q act, r *rand.Rand) {
					defer wg.Done()
					guard(fmt.Sprintf("%s %v", q.Op, q.P), func() error { return sess.do(q, r) })
				}(q, rand.New(rand.NewSource(rnd.Int63())))
			}
			wg.Wait()
			i = j - 1
		}
	}
	if err := ended(); err != nil {
		return err
	}
	if err := problem(); err != nil {
		return bad("%v", err)
	}
	code := cmd.ProcessState.ExitCode()
	switch s.Exit {
	case "ok":
		if code != 0 {
			return bad("the command ends with %d", code)
		}
	case "fail":
		if code == 0 {
			return bad("the command succeeds")
		}
	}
	if code < 0 || code == 2 {
		return bad("the command crashes: %v", cmd.ProcessState)
	}
	mu.Lock()
	defer mu.Unlock()
	got := append([]string{}, calls...)
	if s.Exit == "any" && len(got) == 2 {
		got = got[:1]
	}
	if strings.Join(got, " ") != strings.Join(s.Calls, " ") {
		return bad("fusermount is called to %v instead of %v", calls, s.Calls)
	}
	return nil
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) tail() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	b := l.b.Bytes()
	if len(b) > 600 {
		b = b[len(b)-600:]
	}
	return string(b)
}
