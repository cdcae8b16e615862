// Package zzvhdisc burns the discs that behaviours of Disc.tla describe and compares what
// readers of the disc see with the tree of the specification.
package zzvhdisc

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	stdurl "net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/ram"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type ObjSpec struct {
	Size  int    `json:"size"`
	Style string `json:"style"`
}

type Node struct {
	K string `json:"k"`
	O int    `json:"o"`
	T string `json:"t"`
}

type Op struct {
	Op   string   `json:"op"`
	Path []string `json:"path"`
	Abs  bool     `json:"abs"`
	Node Node     `json:"node"`
	Ok   bool     `json:"ok"`
	N    int      `json:"n"`
	O    int      `json:"o"`
}

type TreeEntry struct {
	P []string `json:"p"`
	N Node     `json:"n"`
}

// Spec is one behaviour of Disc.tla plus the knobs the check adds.
type Spec struct {
	Rule string      `json:"rule"`
	Objs []ObjSpec   `json:"objs"`
	Ops  []Op        `json:"ops"`
	Tree []TreeEntry `json:"tree"`

	Aspects  []string `json:"aspects"`
	Cache    string   `json:"cache"`    // nop, mem, disk
	Declared bool     `json:"declared"` // give the size when adding
	Out      string   `json:"out"`      // file, path, rel, ram, http, esc, ver
	Move     bool     `json:"move"`     // rename the directory before loading
	Bsize    int64    `json:"bsize"`
}

func (s *Spec) Has(a string) bool {
	for _, x := range s.Aspects {
		if x == a {
			return true
		}
	}
	return false
}

const maxPart = 4294965248

// Sizes are the size classes of Disc.tla.
var Sizes = []int64{0, 1, 2047, 2048, 2049, 4096, 5000, 70000, maxPart, maxPart + 1, 1<<32 + 3000, 2*maxPart + 5000, 5 << 40, 9 << 40}

// Name maps a component token of the specification to a string.
func Name(tok string) string {
	if tok == "" || tok == "." || tok == ".." {
		return tok
	}
	n, err := strconv.Atoi(tok[1:])
	if err != nil {
		vh.Harness("token %q", tok)
	}
	long := func(length int) string {
		s := strings.Repeat("Long_name-0.", length/12+2)[:length-2]
		return s + fmt.Sprintf("%02d", n%100)
	}
	pick := func(l ...string) string { return l[(n-1)%len(l)] }
	switch tok[0] {
	case 's':
		return pick("a", "b.txt", "A", "a1", "...", "-x", ".a", "a_1", "0", "AA______")[0:] + ifThen(n > 10, strconv.Itoa(n))
	case 'c': // names that are easily taken for one another, or for parts of a path
		return pick("m", "mm", "n", "mn", "nm", "..m", "m..", "m.", ".m", "m.m", "M", "....")
	case 'l':
		return long(90 + 7*n)
	case 'w':
		return long([]int{248, 249, 250, 251, 252, 255, 256, 499, 500, 501, 502, 180, 181, 182, 183}[(n-1)%15])
	case 'n':
		return long(200 + n)
	case 'h':
		return long(253 + n)
	case 'g':
		return long(600 + n)
	case 'v':
		return long(3000 + 900*n)
	case 'e':
		return pick("ä", strings.Repeat("日本語", 60), "a+b=c,(d)#é", "\xff\xfe", "a&b'c", "~^`{}")
	case 'x':
		return pick("a b", "a\nb", "a*b", "\x01", "a\\b", "a%20b", "q?", "<a>")
	case 'b':
		switch n % 5 {
		case 0:
			return fmt.Sprintf("bulk%d", n)
		case 1:
			return fmt.Sprintf("bulk%d_%s", n, strings.Repeat("m", 60+n%7))
		case 2:
			return fmt.Sprintf("bulk%d_%s", n, strings.Repeat("n", 110+n%11))
		case 3:
			return fmt.Sprintf("bulk%d_%s", n, strings.Repeat("o", 200+n%13))
		default:
			if n%10 == 9 { // the last piece of the name is short
				return fmt.Sprintf("bulk%d_%s", n, strings.Repeat("q", 237+n%29))
			}
			return fmt.Sprintf("bulk%d_%s", n, strings.Repeat("p", 300+n%17))
		}
	}
	vh.Harness("token %q", tok)
	return ""
}

func ifThen(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

// Path joins the tokens.
func Path(toks []string, abs bool) string {
	var l []string
	for _, t := range toks {
		l = append(l, Name(t))
	}
	p := strings.Join(l, "/")
	if abs {
		p = "/" + p
	}
	return p
}

// Target maps a link target token to a string: t:<tok>/<tok>... or t<n>.
func Target(tok string) string {
	if strings.HasPrefix(tok, "t:") {
		f := strings.Split(tok[2:], "/")
		var l []string
		for _, t := range f {
			l = append(l, Name(t))
		}
		return strings.Join(l, "/")
	}
	switch tok {
	case "t1":
		return "a"
	case "t2":
		return "/a/b.txt"
	case "t3":
		return "../a"
	case "t4":
		return "."
	case "t5":
		return ".."
	case "t6":
		return "/"
	case "t7":
		return "../../../" + Name("l1") + "/" + Name("g1") + "/x"
	case "t8":
		return Name("v1") + "/" + Name("v2")
	case "t9":
		return "a//b/./c/../d/"
	case "t10":
		return "../.."
	case "t11":
		return "/" + strings.Repeat("d/", 150) + "e"
	case "t12":
		return Name("w1") + "/" + Name("w2") + "/" + Name("w3") + "/" + Name("w4")
	case "t13":
		return "a/.."
	case "t14":
		return "日本語/" + strings.Repeat("é", 130)
	}
	vh.Harness("target %q", tok)
	return ""
}

// Object is a source object of a disc.
type Object struct {
	ID    int
	Size  int64
	URL   string // as given to AddFile
	Local string // file holding it, if any, relative to Dir
}

// Disc is a burned disc.
type Disc struct {
	Spec    *Spec
	Began   time.Time
	Dir     string // directory of the disc and its objects
	Objects []Object
	Builder vdisc.Builder
	URL     string // as reported by Build
	LoadURL string
	V       vdisc.VDisc
	W       *iso9660.Walker
	unlock  func()
}

var (
	cwdMu   sync.RWMutex
	ramOnce sync.Once
	webOnce sync.Once
	web     *vh.Store
)

// Web is the loopback object server.
func Web() *vh.Store {
	webOnce.Do(func() { web = vh.NewStore() })
	return web
}

// UseRAM registers the ram scheme.
var verOnce sync.Once

func UseRAM() { ramOnce.Do(ramdriver.RegisterDefaultDriver) }

func usesCwd(s *Spec) bool {
	if s.Out == "rel" {
		return true
	}
	for _, o := range s.Objs {
		if strings.HasPrefix(o.Style, "rel") {
			return true
		}
	}
	return false
}

var objNames = []string{"a", "ab", "abc/d", "b", "abc/de", "c"}

// NewDisc makes the source objects and an empty builder.
func NewDisc(c *vh.Case, s *Spec) *Disc {
	vh.UseSim()
	d := &Disc{Spec: s, Began: time.Now(), Dir: filepath.Join(c.Scratch, "top", "disc")}
	vh.Must(os.MkdirAll(filepath.Join(d.Dir, "objs"), 0755))
	if usesCwd(s) {
		cwdMu.Lock()
		old, err := os.Getwd()
		vh.Must(err)
		vh.Must(os.Chdir(d.Dir))
		d.unlock = func() { os.Chdir(old); cwdMu.Unlock() }
	} else {
		cwdMu.RLock()
		d.unlock = cwdMu.RUnlock
	}
	for k, o := range s.Objs {
		d.Objects = append(d.Objects, d.makeObject(c, k, o))
	}
	url := ""
	switch s.Out {
	case "", "path":
		url = filepath.Join(d.Dir, "disc.vdsc")
	case "file", "http":
		url = "file://" + filepath.Join(d.Dir, "disc.vdsc")
	case "esc":
		url = "file://" + filepath.Join(d.Dir, "di%20s%23c%3f.vdsc")
	case "rel":
		url = "disc.vdsc"
	case "ver":
		verOnce.Do(func() { vh.NewVersionStore("vver") })
		url = fmt.Sprintf("vver://store/case%d/disc.vdsc", c.Index)
	case "ram":
		UseRAM()
		url = fmt.Sprintf("ram:/case%d/disc.vdsc", c.Index)
	default:
		vh.Harness("out %q", s.Out)
	}
	cfg := vdisc.BuilderConfig{URL: url}
	if s.Rule == "extended" {
		d.Builder = vdisc.NewExtendedISO9660Builder(cfg)
	} else {
		d.Builder = vdisc.NewISO9660Builder(cfg)
	}
	d.URL = url
	return d
}

func (d *Disc) makeObject(c *vh.Case, k int, o ObjSpec) Object {
	obj := Object{ID: c.Index*100 + k, Size: Sizes[o.Size]}
	name := objNames[k%len(objNames)]
	if k >= len(objNames) {
		name += strconv.Itoa(k)
	}
	style := o.Style
	if obj.Size > 1<<20 {
		style = "sim"
	}
	if style == "path" && (d.Spec.Out == "ram" || d.Spec.Out == "ver" || d.Spec.Out == "http") {
		style = "abs" // a bare path is relative to the scheme and host of the disc
	}
	content := func() []byte { return vh.Pattern(obj.ID, 0, obj.Size) }
	local := func(rel string) {
		obj.Local = rel
		p := filepath.Join(d.Dir, rel)
		vh.Must(os.MkdirAll(filepath.Dir(p), 0755))
		vh.Must(os.WriteFile(p, content(), 0644))
	}
	// keep names prefix-free where they are files and directories at once
	fname := strings.Replace(name, "/", "_/", -1)
	switch style {
	case "sim":
		obj.URL = vh.SimURL(obj.ID, obj.Size, name)
	case "abs":
		local("objs/" + fname)
		obj.URL = "file://" + filepath.Join(d.Dir, obj.Local)
	case "path":
		local("objs/" + fname)
		obj.URL = filepath.Join(d.Dir, obj.Local)
	case "rel":
		local("objs/" + fname)
		obj.URL = obj.Local
	case "reldot":
		local("objs/" + fname)
		obj.URL = "./" + obj.Local
	case "relup":
		local("objs/" + fname)
		obj.URL = "../" + filepath.Base(d.Dir) + "/" + obj.Local
	case "relhere":
		local("here_" + strings.Replace(name, "/", "_", -1))
		obj.URL = obj.Local
	case "esc":
		local("objs/o b#" + fname + "?é%41")
		obj.URL = "file://" + filepath.Join(d.Dir, "objs/o%20b%23"+fname+"%3F%C3%A9%2541")
	case "ram":
		UseRAM()
		obj.URL = fmt.Sprintf("ram:/case%d/%s", c.Index, fname)
		w, err := storage.Create(obj.URL)
		vh.Must(err)
		_, err = w.Write(content())
		vh.Must(err)
		_, err = w.Commit()
		vh.Must(err)
	case "data":
		obj.URL = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(content())
	case "http":
		obj.URL = Web().Put(fmt.Sprintf("/c%d/%s", c.Index, name), content())
	case "query":
		obj.URL = Web().Put(fmt.Sprintf("/c%d/%s", c.Index, name), content()) + fmt.Sprintf("?versionId=%d%%2F&b=c#frag", k)
	case "httpesc":
		Web().Put(fmt.Sprintf("/c%d/x /%s#", c.Index, name), content())
		obj.URL = Web().URL + fmt.Sprintf("/c%d/x%%20/%s%%23", c.Index, name)
	default:
		vh.Harness("style %q", style)
	}
	return obj
}

// Close releases what NewDisc took.
func (d *Disc) Close() {
	if d.V != nil {
		d.V.Close()
	}
	d.unlock()
}

// Apply performs the additions; it reports the first whose acceptance differs.
func (d *Disc) Apply() error {
	for i, op := range d.Spec.Ops {
		switch op.Op {
		case "bulk":
			for j := 1; j <= op.N; j++ {
				p := Path(append(append([]string{}, op.Path...), fmt.Sprintf("b%d", j)), true)
				if err := d.addFile(p, op.O); err != nil {
					return vh.Bad("op %d: bulk entry %q: %v", i, p, err)
				}
			}
		case "file", "link":
			p := Path(op.Path, op.Abs)
			var err error
			if op.Op == "file" {
				err = d.addFile(p, op.Node.O)
			} else {
				err = d.Builder.AddSymlink(p, Target(op.Node.T))
			}
			if (err == nil) != op.Ok {
				return vh.Bad("op %d: adding %s %q: error %v, but the specification says accepted=%v", i, op.Op, clip(p), err, op.Ok)
			}
		default:
			vh.Harness("op %q", op.Op)
		}
	}
	return nil
}

func (d *Disc) addFile(p string, o int) error {
	obj := d.Objects[o-1]
	size := int64(-1)
	if d.Spec.Declared {
		size = obj.Size
	}
	return d.Builder.AddFile(p, obj.URL, size)
}

// Cache makes the cache of the mode.
func Cache(mode, dir string, bsize int64) caching.Cache {
	if bsize == 0 {
		bsize = 4096
	}
	switch mode {
	case "", "nop":
		return caching.NopCache
	case "mem":
		s, err := caching.NewMemorySlicer(bsize, 8)
		vh.Must(err)
		return caching.NewCache(s, 2, 3)
	case "memwide":
		s, err := caching.NewMemorySlicer(bsize, 64)
		vh.Must(err)
		return caching.NewCache(s, 8, 16)
	case "disk":
		return caching.NewCache(caching.NewDiskSlicer(dir, bsize), 2, 3)
	}
	vh.Harness("cache %q", mode)
	return nil
}

// Build builds the disc; the error is the builder's.
func (d *Disc) Build() error {
	url, err := d.Builder.Build()
	if err != nil {
		return err
	}
	d.URL = url
	return nil
}

// Load loads the disc the way the case asks for.
func (d *Disc) Load() error {
	s := d.Spec
	d.LoadURL = d.URL
	if s.Move {
		to := filepath.Join(filepath.Dir(filepath.Dir(d.Dir)), "moved", "disc")
		vh.Must(os.Rename(filepath.Dir(d.Dir), filepath.Dir(to)))
		d.LoadURL = strings.Replace(d.LoadURL, d.Dir, to, 1)
		d.Dir = to
		if usesCwd(s) {
			vh.Must(os.Chdir(to))
		}
	}
	if s.Out == "http" {
		base := fmt.Sprintf("/pub%d/disc", len(d.Dir)*1000003+int(d.Objects[0].ID))
		vh.Must(filepath.Walk(d.Dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(d.Dir, p)
			Web().Put(path.Join(base, rel), b)
			return nil
		}))
		d.LoadURL = Web().URL + base + "/disc.vdsc"
	}
	v, err := vdisc.Load(d.LoadURL, Cache(s.Cache, filepath.Join(d.Dir, "cache"), s.Bsize))
	if err != nil {
		return vh.Bad("loading %s: %v", d.LoadURL, err)
	}
	d.V = v
	d.W = iso9660.NewWalker(v.Image())
	return nil
}

func clip(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", s[:80], len(s))
	}
	return s
}

// Want is the expected tree: absolute path -> node.
func (d *Disc) Want() map[string]Node {
	m := map[string]Node{}
	for _, e := range d.Spec.Tree {
		m["/"+Path(e.P, false)] = e.N
	}
	return m
}

// Children lists the names expected in a directory.
func Children(want map[string]Node, dir string) map[string]Node {
	m := map[string]Node{}
	for p, n := range want {
		if p != "/" && path.Dir(p) == dir {
			m[p[strings.LastIndexByte(p, '/')+1:]] = n
		}
	}
	return m
}

func kindOf(fi *iso9660.FileInfo) string {
	switch {
	case fi.IsDir():
		return "dir"
	case fi.Mode()&os.ModeSymlink != 0:
		return "link"
	default:
		return "file"
	}
}

// CheckEntry compares one entry with the specification's node.
func (d *Disc) CheckEntry(where string, fi *iso9660.FileInfo, n Node) error {
	if k := kindOf(fi); k != n.K {
		return vh.Bad("%s is a %s, burned as a %s", where, k, n.K)
	}
	if fi.IsDir() != fi.Mode().IsDir() {
		return vh.Bad("%s: IsDir %v but mode %v", where, fi.IsDir(), fi.Mode())
	}
	if t := fi.ModTime(); t.Before(d.Began.Add(-time.Second)) || t.After(time.Now()) {
		return vh.Bad("%s has time %v, burned after %v", where, t, d.Began)
	}
	switch n.K {
	case "file":
		if fi.Size() != d.Objects[n.O-1].Size {
			return vh.Bad("%s has size %d, burned with %d", where, fi.Size(), d.Objects[n.O-1].Size)
		}
		if fi.Target() != "" {
			return vh.Bad("%s is a file with link target %q", where, fi.Target())
		}
	case "link":
		if want := path.Clean(Target(n.T)); fi.Target() != want {
			return vh.Bad("%s has target %q, burned with %q", where, clip(fi.Target()), clip(want))
		} else if fi.Size() != int64(len(want)) {
			return vh.Bad("%s: link size %d, target length %d", where, fi.Size(), len(want))
		}
	}
	return nil
}

func (d *Disc) checkDir(how, dir string, got []*iso9660.FileInfo, want map[string]Node, self, parent uint32) error {
	exp := Children(want, dir)
	seen := map[string]int{}
	for _, fi := range got {
		seen[fi.Name()]++
		where := fmt.Sprintf("%s of %q: entry %q", how, clip(dir), clip(fi.Name()))
		if seen[fi.Name()] > 1 {
			return vh.Bad("%s appears %d times", where, seen[fi.Name()])
		}
		switch fi.Name() {
		case ".":
			if !fi.IsDir() || fi.Ino() != self {
				return vh.Bad("%s is inode %d, the directory is %d", where, fi.Ino(), self)
			}
		case "..":
			if !fi.IsDir() || fi.Ino() != parent {
				return vh.Bad("%s is inode %d, the parent is %d", where, fi.Ino(), parent)
			}
		default:
			n, ok := exp[fi.Name()]
			if !ok {
				return vh.Bad("%s was never burned", where)
			}
			if err := d.CheckEntry(where, fi, n); err != nil {
				return err
			}
		}
	}
	for name := range exp {
		if seen[name] == 0 {
			return vh.Bad("%s of %q lacks the burned entry %q", how, clip(dir), clip(name))
		}
	}
	if seen["."] == 0 || seen[".."] == 0 {
		return vh.Bad("%s of %q lacks the self or parent entry", how, clip(dir))
	}
	return nil
}

// CheckListings compares every way of listing with the specification.
func (d *Disc) CheckListings() error {
	want := d.Want()
	var dirs []string
	for p, n := range want {
		if n.K == "dir" {
			dirs = append(dirs, p)
		}
	}
	sort.Strings(dirs)
	// parent of the root is the root
	info := map[string]*iso9660.FileInfo{}
	inos := map[uint32]string{}
	for _, dir := range dirs {
		fi, err := d.W.Lstat(dir)
		if err != nil {
			return vh.Bad("lstat %q: %v", clip(dir), err)
		}
		if !fi.IsDir() {
			return vh.Bad("lstat %q: not a directory", clip(dir))
		}
		if o, dup := inos[fi.Ino()]; dup {
			return vh.Bad("directories %q and %q share inode %d", clip(o), clip(dir), fi.Ino())
		}
		inos[fi.Ino()] = dir
		info[dir] = fi
	}
	for _, dir := range dirs {
		self, parent := info[dir].Ino(), info[path.Dir(dir)].Ino()
		if dir == "/" {
			parent = self
		}
		got, err := d.W.ReadDir(dir)
		if err != nil {
			return vh.Bad("readdir %q: %v", clip(dir), err)
		}
		if err := d.checkDir("readdir", dir, got, want, self, parent); err != nil {
			return err
		}
		f, err := d.W.Open(dir)
		if err != nil {
			return vh.Bad("open directory %q: %v", clip(dir), err)
		}
		got2, err := f.ReadDir()
		if err != nil {
			return vh.Bad("File.ReadDir %q: %v", clip(dir), err)
		}
		if err := d.checkDir("File.ReadDir", dir, got2, want, self, parent); err != nil {
			return err
		}
		if err := d.checkIterator(dir, info[dir], got); err != nil {
			return err
		}
		// nlink: two plus sub-directories
		subs := 0
		for _, n := range Children(want, dir) {
			if n.K == "dir" {
				subs++
			}
		}
		if int(info[dir].Nlink()) != 2+subs {
			return vh.Bad("directory %q has %d links, it has %d sub-directories", clip(dir), info[dir].Nlink(), subs)
		}
	}
	return d.checkWalk(want, dirs)
}

// checkIterator resumes the iteration from every position it hands out.
func (d *Disc) checkIterator(dir string, di *iso9660.FileInfo, full []*iso9660.FileInfo) error {
	var offs []int64
	off := int64(0)
	it := iso9660.NewReadDirIterator(d.V.Image(), di.Extent(), di.Size(), 0)
	var names []string
	for it.Next() {
		fi, n := it.FileInfoAndLen()
		offs = append(offs, off)
		off += n
		names = append(names, fi.Name())
	}
	if it.Err() != nil {
		return vh.Bad("iterating %q: %v", clip(dir), it.Err())
	}
	if len(names) != len(full) {
		return vh.Bad("iterating %q gives %d entries, listing %d", clip(dir), len(names), len(full))
	}
	offs = append(offs, off)
	step := 1
	if len(offs) > 60 {
		step = len(offs) / 40
	}
	for i := 0; i < len(offs); i += step {
		it := iso9660.NewReadDirIterator(d.V.Image(), di.Extent(), di.Size(), offs[i])
		j := i
		for it.Next() {
			fi, n := it.FileInfoAndLen()
			if j >= len(names) || fi.Name() != names[j] {
				return vh.Bad("iterating %q from offset %d: entry %d is %q", clip(dir), offs[i], j, clip(fi.Name()))
			}
			if want := full[j]; fi.Size() != want.Size() || fi.Mode() != want.Mode() || fi.Extent() != want.Extent() || fi.Target() != want.Target() {
				return vh.Bad("iterating %q from offset %d: entry %q differs from the listing", clip(dir), offs[i], clip(fi.Name()))
			}
			if offs[j]+n != offs[j+1] {
				return vh.Bad("iterating %q from offset %d: entry %q ends at %d, in the full iteration at %d", clip(dir), offs[i], clip(fi.Name()), offs[j]+n, offs[j+1])
			}
			j++
		}
		if it.Err() != nil {
			return vh.Bad("iterating %q from offset %d: %v", clip(dir), offs[i], it.Err())
		}
		if j != len(names) {
			return vh.Bad("iterating %q from offset %d stops after entry %d of %d", clip(dir), offs[i], j, len(names))
		}
	}
	return nil
}

func (d *Disc) checkWalk(want map[string]Node, dirs []string) error {
	roots := []string{"/"}
	if len(dirs) > 1 {
		roots = append(roots, dirs[len(dirs)/2])
	}
	for _, root := range roots {
		got := map[string]int{}
		first := true
		calls := 0
		walk := func(p string, fi os.FileInfo, err error) error {
			calls++
			if err != nil {
				return err
			}
			if first {
				first = false
				return nil
			}
			if fi.Name() == "." || fi.Name() == ".." {
				return nil
			}
			full := path.Join(p, fi.Name())
			got[full]++
			n, ok := want[full]
			if !ok {
				return vh.Bad("walk of %q shows %q, never burned", clip(root), clip(full))
			}
			if got[full] > 1 {
				return vh.Bad("walk of %q shows %q twice", clip(root), clip(full))
			}
			return d.CheckEntry("walk: "+clip(full), fi.(*iso9660.FileInfo), n)
		}
		var seen error
		err := d.W.Walk(root, func(p string, fi os.FileInfo, err error) error {
			err = walk(p, fi, err)
			if seen == nil {
				seen = err
			}
			return err
		})
		if seen != nil {
			return seen
		}
		if err != nil {
			return err
		}
		// whoever is called can end the walk
		stop, left := errors.New("stop"), 1+calls*2/3
		err = d.W.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if left--; left <= 0 {
				return stop
			}
			return nil
		})
		if err != stop || left < 0 {
			return vh.Bad("walk of %q goes on although it was stopped: %v, %d", clip(root), err, left)
		}
		for p := range want {
			if p != root && (root == "/" || strings.HasPrefix(p, root+"/")) && got[p] == 0 {
				return vh.Bad("walk of %q lacks %q", clip(root), clip(p))
			}
		}
	}
	return nil
}

// CheckAt compares one positional read.
func CheckAt(what string, r io.ReaderAt, id int, size, off, n int64) error {
	buf := make([]byte, n)
	for i := range buf {
		buf[i] = 0xEE
	}
	got, err := r.ReadAt(buf, off)
	want := size - off
	if want < 0 {
		want = 0
	}
	if want > n {
		want = n
	}
	if int64(got) != want || (err != nil && err != io.EOF) || (want < n && off >= size && n > 0 && err == nil) {
		return vh.Bad("%s: reading %d bytes at %d of %d gives %d bytes, error %v", what, n, off, size, got, err)
	}
	exp := vh.Pattern(id, off, want)
	if !bytes.Equal(buf[:got], exp) {
		for i := range exp {
			if buf[i] != exp[i] {
				return vh.Bad("%s: reading %d bytes at %d: byte at %d is %#x, source has %#x", what, n, off, off+int64(i), buf[i], exp[i])
			}
		}
	}
	return nil
}

// Ranges are the interesting ranges of a file.
func Ranges(size int64) [][2]int64 {
	var r [][2]int64
	if size <= 1<<20 {
		r = append(r, [2]int64{0, size}, [2]int64{0, size + 10})
	}
	for _, p := range []int64{0, 1, 2046, 2047, 2048, 4095, 4096, 8190, size / 2, maxPart - 3, maxPart, 1<<32 - 2, 1 << 32, 2*maxPart - 1, size - 2049, size - 1, size, size + 1} {
		if p < 0 || p > size+1 {
			continue
		}
		for _, n := range []int64{1, 2, 2049, 5000} {
			r = append(r, [2]int64{p, n})
		}
	}
	return r
}

// CheckReads reads every file every way.
func (d *Disc) CheckReads() error {
	img := d.V.Image()
	for p, n := range d.Want() {
		if n.K != "file" {
			continue
		}
		obj := d.Objects[n.O-1]
		fi, err := d.W.Lstat(p)
		if err != nil {
			return vh.Bad("lstat %q: %v", clip(p), err)
		}
		f, err := d.W.Open(p)
		if err != nil {
			return vh.Bad("open %q: %v", clip(p), err)
		}
		if f.Size() != obj.Size {
			return vh.Bad("%q opens with size %d, source has %d", clip(p), f.Size(), obj.Size)
		}
		ext, err := d.V.OpenExtent(fi.Extent())
		if err != nil {
			return vh.Bad("extent %d of %q: %v", fi.Extent(), clip(p), err)
		}
		if ext.Size() != obj.Size {
			return vh.Bad("extent of %q has size %d, source has %d", clip(p), ext.Size(), obj.Size)
		}
		base := int64(fi.Extent()) * 2048
		if base+obj.Size > img.Size() {
			return vh.Bad("%q ends at %d, the image at %d", clip(p), base+obj.Size, img.Size())
		}
		part := io.NewSectionReader(img, base, obj.Size)
		for _, rg := range Ranges(obj.Size) {
			if err := CheckAt(fmt.Sprintf("%q by path", clip(p)), f, obj.ID, obj.Size, rg[0], rg[1]); err != nil {
				return err
			}
			if err := CheckAt(fmt.Sprintf("%q by extent", clip(p)), ext, obj.ID, obj.Size, rg[0], rg[1]); err != nil {
				return err
			}
			if err := CheckAt(fmt.Sprintf("%q in the image", clip(p)), part, obj.ID, obj.Size, rg[0], rg[1]); err != nil {
				return err
			}
		}
		if obj.Size <= 1<<20 {
			for how, r := range map[string]io.Reader{"by path": f, "by extent": ext} {
				b, err := io.ReadAll(oddReader{r, 700})
				if err != nil || !bytes.Equal(b, vh.Pattern(obj.ID, 0, obj.Size)) {
					return vh.Bad("reading %q %s sequentially: %d bytes, error %v, or wrong bytes", clip(p), how, len(b), err)
				}
			}
		}
		// padding up to the sector
		if pad := (2048 - obj.Size%2048) % 2048; pad > 0 {
			buf := make([]byte, pad)
			m, err := img.ReadAt(buf, base+obj.Size)
			if int64(m) != pad || (err != nil && err != io.EOF) || len(bytes.Trim(buf, "\x00")) != 0 {
				return vh.Bad("padding after %q: %d of %d bytes, error %v, zero=%v", clip(p), m, pad, err, len(bytes.Trim(buf, "\x00")) == 0)
			}
		}
		ext.Close()
		f.Close()
	}
	return nil
}

// CheckShrunk truncates source objects after burning: no read may deliver wrong bytes, and a
// read of the whole file may not look complete.
func (d *Disc) CheckShrunk() error {
	for _, o := range d.Objects {
		short := vh.Pattern(o.ID, 0, o.Size/2)
		if o.Local != "" {
			vh.Must(os.WriteFile(filepath.Join(d.Dir, o.Local), short, 0644))
		} else if strings.HasPrefix(o.URL, "http:") {
			Web().Put(strings.TrimPrefix(o.URL, Web().URL), short)
		} else {
			w, err := storage.Create(o.URL)
			vh.Must(err)
			_, err = w.Write(short)
			vh.Must(err)
			_, err = w.Commit()
			vh.Must(err)
		}
	}
	for p, n := range d.Want() {
		if n.K != "file" {
			continue
		}
		obj := d.Objects[n.O-1]
		fi, err := d.W.Lstat(p)
		if err != nil {
			return vh.Bad("lstat %q: %v", clip(p), err)
		}
		f, err := d.W.Open(p)
		if err != nil {
			return vh.Bad("open %q: %v", clip(p), err)
		}
		ext, err := d.V.OpenExtent(fi.Extent())
		if err != nil {
			return vh.Bad("extent of %q: %v", clip(p), err)
		}
		want := vh.Pattern(obj.ID, 0, obj.Size)
		for how, r := range map[string]io.ReaderAt{"by path": f, "by extent": ext} {
			for _, off := range []int64{0, obj.Size / 4, obj.Size/2 + 1} {
				if off > obj.Size {
					continue
				}
				buf := make([]byte, obj.Size-off)
				n, err := r.ReadAt(buf, off)
				if !bytes.Equal(buf[:n], want[off:off+int64(n)]) {
					return vh.Bad("%q %s, source cut to %d of %d bytes: reading at %d returns %d bytes (error %v), some of them wrong",
						clip(p), how, obj.Size/2, obj.Size, off, n, err)
				}
				if n < len(buf) && err == nil {
					return vh.Bad("%q %s, source cut to %d of %d bytes: reading %d bytes at %d returns %d and no error",
						clip(p), how, obj.Size/2, obj.Size, len(buf), off, n)
				}
			}
		}
		for how, r := range map[string]io.Reader{"by path": f, "by extent": ext} {
			b, err := io.ReadAll(oddReader{r, 700})
			if !bytes.Equal(b, want[:minInt(len(b), len(want))]) {
				return vh.Bad("%q %s, source cut to %d of %d bytes: sequential reading returns %d bytes (error %v), some of them wrong",
					clip(p), how, obj.Size/2, obj.Size, len(b), err)
			}
			if err == nil && int64(len(b)) < obj.Size {
				return vh.Bad("%q %s, source cut to %d of %d bytes: sequential reading ends after %d bytes without an error",
					clip(p), how, obj.Size/2, obj.Size, len(b))
			}
		}
	}
	return nil
}

type oddReader struct {
	r io.Reader
	n int
}

func (o oddReader) Read(p []byte) (int, error) {
	if len(p) > o.n {
		p = p[:o.n]
	}
	return o.r.Read(p)
}

// Canon names the place a URL stands for.
func (d *Disc) Canon(url string) string {
	u, err := stdurl.Parse(url)
	if err != nil {
		return "unparsable " + url
	}
	u.OmitHost = false
	switch u.Scheme {
	case "", "file":
		p := u.Path
		if u.Opaque != "" {
			p = u.Opaque
		}
		if !path.IsAbs(p) {
			p = path.Join(d.Dir, p)
		}
		return "file " + path.Clean(p)
	case "http":
		u.Path = path.Clean(u.Path)
		return u.String()
	}
	return u.String()
}

// WantURL is where the object of a file is expected.
func (d *Disc) WantURL(o int) string {
	obj := d.Objects[o-1]
	u, err := stdurl.Parse(obj.URL)
	vh.Must(err)
	if u.Scheme == "" && d.Spec.Out == "http" {
		// relative to the place the disc was loaded from
		b, err := stdurl.Parse(d.LoadURL)
		vh.Must(err)
		return d.Canon(b.ResolveReference(u).String())
	}
	return d.Canon(obj.URL)
}

// an empty authority may be written or left out
func sameText(a, b string) bool {
	return strings.Replace(a, ":///", ":/", 1) == strings.Replace(b, ":///", ":/", 1)
}

// CheckURLs compares the URL each extent reports.
func (d *Disc) CheckURLs() error {
	starts := map[iso9660.LogicalBlockAddress]string{}
	var all []iso9660.LogicalBlockAddress
	for p, n := range d.Want() {
		fi, err := d.W.Lstat(p)
		if err != nil {
			return vh.Bad("lstat %q: %v", clip(p), err)
		}
		switch n.K {
		case "file":
			if o, dup := starts[fi.Extent()]; dup && d.WantURL(d.Want()[o].O) != d.WantURL(n.O) {
				return vh.Bad("files %q and %q of different objects share extent %d", clip(o), clip(p), fi.Extent())
			}
			starts[fi.Extent()] = p
			got, err := d.V.ExtentURL(fi.Extent())
			if err != nil {
				return vh.Bad("extent %d of %q: %v", fi.Extent(), clip(p), err)
			}
			if w := d.WantURL(n.O); d.Canon(got) != w {
				return vh.Bad("%q was burned from %s but its extent reports %s (%s)", clip(p), clip(w), clip(got), clip(d.Canon(got)))
			}
			if strings.Contains(got, ":") && strings.Contains(d.Objects[n.O-1].URL, ":") && !sameText(got, d.Objects[n.O-1].URL) {
				return vh.Bad("%q was burned from %q but its extent reports %q", clip(p), d.Objects[n.O-1].URL, got)
			}
			ext, err := d.V.OpenExtent(fi.Extent())
			if err != nil {
				return vh.Bad("opening extent %d: %v", fi.Extent(), err)
			}
			if ext.URL() != got {
				return vh.Bad("extent of %q: URL() %q, ExtentURL %q", clip(p), ext.URL(), got)
			}
			ext.Close()
			all = append(all, fi.Extent())
			blocks := (fi.Size() + 2047) / 2048
			if blocks > 1 {
				all = append(all, fi.Extent()+1, fi.Extent()+iso9660.LogicalBlockAddress(blocks-1))
			}
		case "dir":
			all = append(all, fi.Extent())
		}
	}
	all = append(all, 1, 16, 17, 18, 0xffffffff, iso9660.LogicalBlockAddress(d.V.Image().Size()/2048))
	for _, lba := range all {
		if _, isFile := starts[lba]; isFile {
			continue
		}
		if u, err := d.V.ExtentURL(lba); err == nil {
			return vh.Bad("no file starts at block %d but it reports %q", lba, u)
		}
		if _, err := d.V.OpenExtent(lba); err == nil {
			return vh.Bad("no file starts at block %d but it can be opened as an extent", lba)
		}
	}
	return nil
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
