package main

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	vh.Main(map[string]vh.Driver{"cli": cliDriver})
}

type cliCase struct {
	vhd.Spec
	Flaw   string `json:"flaw"`
	Known  bool   `json:"known"`
	Burned bool   `json:"burned"`
	Cmds   []struct {
		C    string   `json:"c"`
		P    []string `json:"p"`
		O    int      `json:"o"`
		Want string   `json:"want"`
	} `json:"cmds"`
	Seed   int64 `json:"seed"`
	Before bool  `json:"before"` // something is at the output already
}

type tool struct {
	bin, dir, cache string
	rnd             *rand.Rand
	sizes           []string // of cache blocks
}

type result struct {
	out, err string
	code     int
	args     []string
}

func (t *tool) run(args ...string) result {
	mode := []string{"disabled", "memory", "disk"}[t.rnd.Intn(3)]
	args = append([]string{"--cache-mode=" + mode, "--cache-root=" + t.cache, "--cache-bsize=" + t.sizes[t.rnd.Intn(len(t.sizes))],
		"--cache-bcount=" + strconv.Itoa(4+t.rnd.Intn(20)), "--cache-read-ahead-window=" + strconv.Itoa(t.rnd.Intn(4)), "--log-level=" + []string{"info", "error", "debug"}[t.rnd.Intn(3)]}, args...)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, t.bin, args...)
	c.Dir = t.dir
	c.Env = []string{"HOME=" + t.dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + os.TempDir()}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	r := result{out: o.String(), err: e.String(), args: args}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		} else {
			vh.Harness("running the tool: %v", err)
		}
		if ctx.Err() != nil {
			r.code = -9
		}
	}
	return r
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func (r result) String() string {
	return fmt.Sprintf("vdisc %s: exit %d, output %q, errors %q", clip(strings.Join(r.args[6:], " ")), r.code, clip(r.out), clip(r.err))
}

var (
	isoIDs   = []string{"volume-identifier", "volume-set-identifier", "publisher-identifier", "data-preparer-identifier", "application-identifier", "system-identifier", "copyright-file-identifier", "abstract-file-identifier", "bibliographic-file-identifier"}
	isoField = []string{"VolumeIdentifier", "VolumeSetIdentifier", "PublisherIdentifier", "DataPreparerIdentifier", "ApplicationIdentifier", "SystemIdentifier", "CopyrightFileIdentifier", "AbstractFileIdentifier", "BibliographicFileIdentifier"}
	treeLine = regexp.MustCompile(`^((?:│   |    )*)(?:├|└)── +\[ *(\d+)\] (.*)$`)
	longLine = regexp.MustCompile(`^([-dl])([-rwx]{9}) (\S+) (\S+) +(\d+) [A-Z][a-z]{2} \d\d \d\d:\d\d \d{4} (.*)$`)
)

func cliDriver(c *vh.Case) error {
	var s cliCase
	c.Decode(&s)
	d := vhd.NewDisc(c, &s.Spec)
	defer d.Close()
	t := &tool{bin: os.Getenv("VDISC_BIN"), dir: d.Dir, cache: filepath.Join(c.Scratch, "cache"), rnd: rand.New(rand.NewSource(s.Seed)), sizes: []string{"4KiB", "64KiB", "4MiB"}}
	if t.bin == "" {
		vh.Harness("no tool")
	}
	vh.Must(os.MkdirAll(t.cache, 0755))
	remove := func(o int) {
		obj := d.Objects[o-1]
		if obj.Local != "" {
			vh.Must(os.Remove(filepath.Join(d.Dir, obj.Local)))
		} else if strings.HasPrefix(obj.URL, "http") {
			vhd.Web().Remove(obj.URL)
		}
	}

	// the list of files
	var rows [][]string
	add := func(p string, o int) {
		obj := d.Objects[o-1]
		size := strconv.FormatInt(obj.Size, 10)
		if !s.Known {
			size = "-1"
		}
		rows = append(rows, []string{p, obj.URL, size})
	}
	for _, op := range s.Ops {
		switch op.Op {
		case "bulk":
			for j := 1; j <= op.N; j++ {
				add(vhd.Path(append(append([]string{}, op.Path...), fmt.Sprintf("b%d", j)), true), op.O)
			}
		case "file":
			add(vhd.Path(op.Path, op.Abs), op.Node.O)
		default:
			vh.Harness("op %q", op.Op)
		}
	}
	at := 0
	if len(rows) > 0 {
		at = t.rnd.Intn(len(rows))
	}
	insert := func(r ...string) {
		rows = append(rows[:at:at], append([][]string{r}, rows[at:]...)...)
	}
	out := filepath.Join(d.Dir, "disc.vdsc")
	csvPath := filepath.Join(d.Dir, "files.csv")
	text := ""
	switch s.Flaw {
	case "none", "nocsv", "nodir":
	case "short":
		for i := range rows {
			rows[i] = rows[i][:2]
		}
		if len(rows) == 0 {
			insert("x", "y")
		}
	case "size":
		insert("zz/bad", d.Objects[0].URL, []string{"", "x", "1.5", "9223372036854775808", "0x10"}[t.rnd.Intn(5)])
	case "quote":
		text = "zz/quote,\"unterminated,5\nmore,than,1\n"
	case "uneven":
		rows = append(rows, []string{"zz/ok", d.Objects[0].URL, strconv.FormatInt(d.Objects[0].Size, 10)}, []string{"zz/more", d.Objects[0].URL, strconv.FormatInt(d.Objects[0].Size, 10), "more"})
	case "absent":
		insert("zz/absent", "file://"+filepath.Join(d.Dir, "nothing", "here"), "-1")
	default:
		vh.Harness("flaw %q", s.Flaw)
	}
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	vh.Must(w.WriteAll(rows))
	if s.Flaw != "nocsv" {
		vh.Must(ioutil.WriteFile(csvPath, append(b.Bytes(), text...), 0644))
	}
	if s.Flaw == "nodir" {
		out = filepath.Join(d.Dir, "files.csv", "disc.vdsc")
	}
	old := []byte("what was here before")
	if s.Before && s.Flaw != "nodir" {
		vh.Must(ioutil.WriteFile(out, old, 0644))
	}
	ids := map[string]string{}
	args := []string{"burn", "-o", out, "-i", csvPath, "--iso9660-name-validation=" + s.Rule}
	if t.rnd.Intn(2) == 0 {
		args[2], args[4] = "file://"+out, "file://"+csvPath
	} else if t.rnd.Intn(3) == 0 && s.Flaw != "nodir" {
		args[2], args[4] = "disc.vdsc", "files.csv"
	}
	for i, id := range isoIDs {
		if t.rnd.Intn(3) == 0 {
			v := strings.Repeat("ABCDEFGH_12", 12)[:1+t.rnd.Intn([]int{32, 128, 128, 128, 128, 32, 36, 36, 36}[i])]
			ids[isoField[i]] = v
			args = append(args, "--iso9660-"+id+"="+v)
		}
	}
	r := t.run(args...)
	list := func() (l []string) {
		fis, err := ioutil.ReadDir(d.Dir)
		vh.Must(err)
		for _, fi := range fis {
			if fi.Name() != "objs" && fi.Name() != "files.csv" && !strings.HasPrefix(fi.Name(), "here_") {
				l = append(l, fi.Name())
			}
		}
		return
	}
	if s.Burned {
		if r.code != 0 {
			return vh.Bad("%v", r)
		}
	} else {
		if r.code == 0 || strings.Contains(r.err, "complete") || strings.Contains(r.out, "complete") {
			return vh.Bad("succeeds: %v", r)
		}
		if s.Before && s.Flaw != "nodir" {
			if b, err := ioutil.ReadFile(out); err != nil || !bytes.Equal(b, old) {
				return vh.Bad("failed and changed what was there: %v", r)
			}
		} else if _, err := os.Stat(out); err == nil {
			return vh.Bad("failed and left a disc: %v; %v", r, list())
		}
	}
	want := d.Want()
	kids := func(p string) (l []string) {
		for n := range vhd.Children(want, p) {
			l = append(l, n)
		}
		sort.Strings(l)
		return
	}
	sizeOf := func(p string) int64 {
		if n := want[p]; n.K == "file" {
			return d.Objects[n.O-1].Size
		}
		return -1
	}
	d.LoadURL = "file://" + out

	for i, q := range s.Cmds {
		p := "/" + vhd.Path(q.P, false)
		url := []string{out, "file://" + out, "file://" + out}[t.rnd.Intn(3)]
		if t.rnd.Intn(4) == 0 && s.Flaw != "nodir" {
			url = "disc.vdsc"
		}
		var r result
		outFile := ""
		switch q.C {
		case "gone":
			remove(q.O)
			continue
		case "cut":
			// everything from this directory on
			vh.Must(d.Load())
			fi, err := d.W.Lstat(p)
			if err != nil {
				return vh.Bad("loading after burning: %v", err)
			}
			vh.Must(os.Truncate(out+".isohdr", int64(fi.Extent())*2048))
			t.cache += "2"
			t.sizes = []string{"2KiB", "4KiB"}
			vh.Must(os.MkdirAll(t.cache, 0755))
			continue
		case "ls":
			r = t.run("ls", "-u", url, "--path="+p)
		case "lsl":
			r = t.run("ls", "-l", "-u", url, "--path="+p)
		case "lsr":
			r = t.run("ls", "-r", "-u", url, "--path="+p)
		case "tree":
			if p == "/" && t.rnd.Intn(2) == 0 {
				r = t.run("tree", "-u", url)
			} else {
				r = t.run("tree", "-u", url, "--path="+p)
			}
		case "inspect":
			r = t.run("inspect", "-u", url)
		case "cp":
			if t.rnd.Intn(3) == 0 {
				r = t.run("cp", "-u", url, "--path="+p, "--out=-")
			} else {
				outFile = filepath.Join(c.Scratch, fmt.Sprintf("out%d", i))
				if t.rnd.Intn(2) == 0 {
					vh.Must(ioutil.WriteFile(outFile, bytes.Repeat([]byte("old"), 40000), 0644))
				}
				r = t.run("cp", "-u", url, "--path="+p, "-o", outFile)
				if b, err := ioutil.ReadFile(outFile); err == nil {
					r.out = string(b)
				} else if r.code == 0 {
					return vh.Bad("%v: no output", r)
				}
			}
		default:
			vh.Harness("command %q", q.C)
		}
		if r.code == -9 {
			return vh.Bad("does not end: %v", r)
		}
		switch q.Want {
		case "any":
			continue
		case "ok":
			if r.code != 0 {
				return vh.Bad("%v", r)
			}
		case "fail":
			if r.code == 0 {
				return vh.Bad("succeeds: %v", r)
			}
			continue
		case "okfail":
			if r.code != 0 {
				continue
			}
		}
		bad := func(f string, a ...interface{}) error { return vh.Bad("%s: %v", fmt.Sprintf(f, a...), r) }
		lines := strings.Split(strings.TrimSuffix(r.out, "\n"), "\n")
		if r.out == "" {
			lines = nil
		}
		// a listing of what is in p, or of p
		expect := kids(p)
		if want[p].K == "file" {
			expect = []string{path.Base(p)}
		}
		full := func(n string) string {
			if want[p].K == "file" {
				return p
			}
			return path.Join(p, n)
		}
		switch q.C {
		case "ls":
			sort.Strings(lines)
			if strings.Join(lines, "\n") != strings.Join(expect, "\n") {
				return bad("expected %v", expect)
			}
		case "lsl":
			var names []string
			for _, l := range lines {
				m := longLine.FindStringSubmatch(l)
				if m == nil {
					return bad("line %q", l)
				}
				x := full(m[6])
				names = append(names, m[6])
				if want[x].K == "file" && (m[1] != "-" || m[5] != strconv.FormatInt(sizeOf(x), 10)) || want[x].K == "dir" && m[1] != "d" {
					return bad("%q is %s of %d bytes", x, want[x].K, sizeOf(x))
				}
			}
			sort.Strings(names)
			if strings.Join(names, "\n") != strings.Join(expect, "\n") {
				return bad("expected %v", expect)
			}
		case "lsr":
			got := map[string]int{}
			dir := p
			for _, l := range lines {
				if l == "" {
					continue
				}
				if strings.HasPrefix(l, "/") && strings.HasSuffix(l, ":") {
					dir = strings.TrimSuffix(l, ":")
					continue
				}
				got[path.Join(dir, l)]++
			}
			if self := path.Join(p, path.Base(p)); p != "/" && want[p].K == "dir" && got[self] > 0 {
				if got[self]--; got[self] == 0 {
					delete(got, self)
				}
			}
			under := 0
			for x := range want {
				switch {
				case want[p].K == "file":
					if x != p {
						continue
					}
					x = path.Join(p, path.Base(p))
				case x == p:
					continue
				case p != "/" && !strings.HasPrefix(x, p+"/"):
					continue
				}
				under++
				if got[x] != 1 {
					return bad("%q is listed %d times", x, got[x])
				}
			}
			if under != len(got) {
				return bad("%d listed instead of %d", len(got), under)
			}
		case "tree":
			if len(lines) == 0 || lines[0] != p {
				return bad("first line")
			}
			var at []string
			got := map[string]bool{}
			for _, l := range lines[1:] {
				m := treeLine.FindStringSubmatch(l)
				if m == nil {
					return bad("line %q", l)
				}
				depth := len([]rune(m[1])) / 4
				if depth > len(at) {
					return bad("depth of %q", l)
				}
				name, src := m[3], ""
				if k := strings.Index(name, " ⇒ "); k >= 0 {
					name, src = name[:k], name[k+len(" ⇒ "):]
				}
				at = append(at[:depth:depth], name)
				x := path.Join(append([]string{p}, at...)...)
				n, ok := want[x]
				if !ok || got[x] {
					return bad("%q", x)
				}
				got[x] = true
				if n.K == "file" {
					if m[2] != strconv.FormatInt(sizeOf(x), 10) {
						return bad("size of %q is %d", x, sizeOf(x))
					}
					if src == "" || d.Canon(src) != d.WantURL(n.O) {
						return bad("source of %q is %q", x, d.WantURL(n.O))
					}
				} else if src != "" {
					return bad("directory %q has a source", x)
				}
			}
			under := 0
			for x := range want {
				if x != "/" && x != p && (p == "/" || strings.HasPrefix(x, p+"/")) {
					under++
				}
			}
			if under != len(got) {
				return bad("%d shown instead of %d", len(got), under)
			}
		case "inspect":
			var v struct {
				FsType                  string
				BlockSize               int
				PrimaryVolumeDescriptor map[string]interface{}
			}
			if err := json.Unmarshal([]byte(r.out), &v); err != nil {
				return bad("no JSON: %v", err)
			}
			if v.FsType != "iso9660" || v.BlockSize != 2048 {
				return bad("type or block size")
			}
			for f, w := range ids {
				if got, ok := v.PrimaryVolumeDescriptor[f].(string); !ok || strings.TrimRight(got, " \x00") != w {
					return bad("%s is %q", f, w)
				}
			}
		case "cp":
			n := want[p]
			if o := d.Objects[n.O-1]; r.out != string(vh.Pattern(o.ID, 0, o.Size)) {
				return vh.Bad("vdisc %v: %d bytes, not the %d of the source", r.args, len(r.out), o.Size)
			}
		}
	}
	return nil
}
