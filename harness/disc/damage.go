package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	capnp "zombiezen.com/go/capnproto2"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type damageCase struct {
	vhd.Spec
	Lanes  int `json:"lanes"`
	Most   int `json:"most"`
	Damage struct {
		Kind string `json:"kind"`
		Lane int    `json:"lane"`
		Mask int    `json:"mask"`
		Word string `json:"word"`
		What string `json:"what"`
		Once bool   `json:"once"`
		How  string `json:"how"`
		Step int    `json:"step"`
	} `json:"damage"`
	Allowed []string `json:"allowed"`
}

// lookAll is everything one can see on a disc: a text and whether something
// failed.
func lookAll(img io.ReaderAt, v vdisc.VDisc) (text string, failed bool) {
	var b strings.Builder
	w := iso9660.NewWalker(img)
	stop := errors.New("enough")
	var paths []string
	n := 0
	err := w.Walk("/", func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if n++; n > 3000 {
			return stop
		}
		fi := info.(*iso9660.FileInfo)
		fmt.Fprintf(&b, "%q %s\n", p, fiText(fi))
		if n > 1 && fi.Name() != "." && fi.Name() != ".." {
			paths = append(paths, path.Join(p, fi.Name()))
		}
		return nil
	})
	if err != nil {
		failed = true
		fmt.Fprintf(&b, "walk: error\n")
	}
	sort.Strings(paths)
	if len(paths) > 200 {
		paths = paths[:200]
	}
	buf := make([]byte, 5000)
	for _, p := range paths {
		for _, kind := range []string{"lstat", "stat", "readdir"} {
			res, _, _ := doLook(w, kind, p)
			if res.err != nil {
				fmt.Fprintf(&b, "%s %q: error\n", kind, p)
			} else {
				fmt.Fprintf(&b, "%s %q: %s\n", kind, p, res.text)
			}
		}
		fi, err := w.Lstat(p)
		if err != nil {
			failed = true
			continue
		}
		f, err := w.Open(p)
		if err == nil {
			if _, rerr := f.ReadAt(buf, 0); rerr != nil && rerr != io.EOF && !fi.IsDir() {
				failed = failed || v != nil
			}
			f.Close()
		}
		if fi.IsDir() || fi.Mode()&os.ModeSymlink != 0 || v == nil {
			continue
		}
		o, err := v.OpenExtent(fi.Extent())
		if err != nil {
			failed = true
			fmt.Fprintf(&b, "extent %q: error\n", p)
			continue
		}
		for _, off := range []int64{0, o.Size() - 5, 1 << 40} {
			if off < 0 {
				continue
			}
			n, err := o.ReadAt(buf, off)
			fmt.Fprintf(&b, "read %q %d: %x %v\n", p, off, buf[:n], err == nil || err == io.EOF)
			if err != nil && err != io.EOF {
				failed = true
			}
		}
		o.Close()
		if u, err := v.ExtentURL(fi.Extent()); err != nil {
			failed = true
		} else {
			fmt.Fprintf(&b, "url %q %s\n", p, u)
		}
	}
	if v != nil {
		n, err := v.Image().ReadAt(buf, 0)
		fmt.Fprintf(&b, "image %d %s %d %x\n", v.Image().Size(), v.FsType(), v.BlockSize(), buf[:n])
		if err != nil && err != io.EOF {
			failed = true
		}
		if size := v.Image().Size(); size > 100 {
			v.Image().ReadAt(buf[:100], size-50)
			v.Image().ReadAt(buf[:100], size/2)
		}
	}
	return b.String(), failed
}

// guarded runs f and turns panics and endless runs into outcomes.
func guarded(f func() string) (out, detail string) {
	type res struct{ out, detail string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				for i, l := range st {
					if strings.HasPrefix(l, "panic(") {
						st = st[i:]
						break
					}
				}
				if len(st) > 14 {
					st = st[:14]
				}
				ch <- res{"crash", fmt.Sprintf("%v\n%s", e, strings.Join(st, "\n"))}
			}
		}()
		ch <- res{f(), ""}
	}()
	select {
	case r := <-ch:
		return r.out, r.detail
	case <-time.After(15 * time.Second):
		return "hang", "no answer in 15 s"
	}
}

type faultyImage struct {
	r    io.ReaderAt
	n    int
	step int
	once bool
	how  string
	hit  bool
}

func (f *faultyImage) ReadAt(p []byte, off int64) (int, error) {
	f.n++
	if f.n == f.step || (!f.once && f.n > f.step) {
		f.hit = true
		if f.how == "short" {
			n, _ := f.r.ReadAt(p[:len(p)/2], off)
			return n, io.ErrUnexpectedEOF
		}
		return 0, vh.ErrInjected
	}
	return f.r.ReadAt(p, off)
}

func damageDriver(c *vh.Case) error {
	var s damageCase
	c.Decode(&s)
	d := vhd.NewDisc(c, &s.Spec)
	defer d.Close()
	if err := d.Apply(); err != nil {
		return err
	}
	if err := d.Build(); err != nil {
		return vh.Bad("burning: %v", err)
	}
	discFile := filepath.Join(d.Dir, "disc.vdsc")
	metaFile := discFile + ".isohdr"
	disc, err := ioutil.ReadFile(discFile)
	vh.Must(err)
	meta, err := ioutil.ReadFile(metaFile)
	vh.Must(err)
	zr, err := gzip.NewReader(bytes.NewReader(disc))
	vh.Must(err)
	plain, err := ioutil.ReadAll(zr)
	vh.Must(err)
	cache := func() string { return s.Cache }

	load := func(base string) string {
		v, err := vdisc.Load(discFile, vhd.Cache(cache(), "", s.Bsize))
		if err != nil {
			return "refused"
		}
		defer v.Close()
		text, failed := lookAll(v.Image(), v)
		if base == "" {
			if failed {
				return "undamaged disc: " + text
			}
			return "text:" + text
		}
		if text == base {
			return "same"
		}
		if failed {
			return "error"
		}
		return "other"
	}
	out, detail := guarded(func() string { return load("") })
	if !strings.HasPrefix(out, "text:") {
		return vh.Bad("undamaged disc: %s %s", clipS(out), detail)
	}
	base := strings.TrimPrefix(out, "text:")
	allowed := map[string]bool{}
	for _, a := range s.Allowed {
		allowed[a] = true
	}
	seen := map[string]int{}
	judge := func(what string, f func() string) error {
		out, detail := guarded(f)
		seen[out]++
		if !allowed[out] {
			return vh.Bad("%s: %s, allowed %v\n%s", what, out, s.Allowed, detail)
		}
		return nil
	}
	try := func(what string, file string, content []byte) error {
		vh.Must(ioutil.WriteFile(file, content, 0644))
		return judge(what, func() string { return load(base) })
	}
	lookMeta := func(b []byte) func() string {
		return func() string {
			want, _ := lookAll(bytes.NewReader(meta), nil)
			text, failed := lookAll(bytes.NewReader(b), nil)
			switch {
			case text == want:
				return "same"
			case failed:
				return "error"
			}
			return "other"
		}
	}
	D := s.Damage
	positions := func(n int) (l []int) {
		for i := D.Lane; i < n; i += s.Lanes {
			l = append(l, i)
		}
		return
	}
	interesting := func() (l []int) { // metadata bytes in sectors in use
		k := 0
		for i := 16 * 2048; i < len(meta); i++ {
			z := meta[i : i+minI(16, len(meta)-i)]
			if meta[i] == 0 && bytes.Count(z, []byte{0}) == len(z) {
				continue
			}
			if i < 17*2048 && i > 16*2048+190 && i < 16*2048+800 {
				continue
			}
			if k%s.Lanes == D.Lane {
				l = append(l, i)
			}
			k++
		}
		if s.Most > 0 && len(l) > s.Most { // spread over the metadata
			var m []int
			for i := 0; i < s.Most; i++ {
				m = append(m, l[i*len(l)/s.Most])
			}
			l = m
		}
		return
	}
	word := func(b []byte, i int) []byte {
		m := append([]byte(nil), b...)
		x := m[i : i+8]
		v := binary.LittleEndian.Uint64(x)
		switch D.Word {
		case "zero":
			v = 0
		case "ones":
			v = ^uint64(0)
		case "inc":
			v++
		case "dec":
			v--
		case "swap":
			v = v<<32 | v>>32
		case "self":
			v = uint64(i / 8)
		case "big":
			v |= 0x7fffffff00000000
		default:
			vh.Harness("word %q", D.Word)
		}
		binary.LittleEndian.PutUint64(x, v)
		return m
	}
	flip := func(b []byte, i int) []byte {
		m := append([]byte(nil), b...)
		m[i] ^= byte(D.Mask)
		return m
	}
	switch D.Kind {
	case "none":
		err = try("nothing", discFile, disc)
	case "cut":
		for _, n := range positions(len(disc)) {
			if err = try(fmt.Sprintf("disc cut at %d of %d", n, len(disc)), discFile, disc[:n]); err != nil {
				break
			}
		}
	case "plaincut":
		for _, n := range positions(len(plain)) {
			if err = try(fmt.Sprintf("plain disc cut at %d of %d", n, len(plain)), discFile, plain[:n]); err != nil {
				break
			}
		}
	case "metacut":
		for _, n := range append(positions(len(meta))[:3:3], positions(len(meta)/512)...) {
			if n >= 3*s.Lanes {
				n *= 512
			}
			if err = try(fmt.Sprintf("metadata cut at %d of %d", n, len(meta)), metaFile, meta[:n]); err != nil {
				break
			}
		}
	case "flip":
		for _, i := range positions(len(disc)) {
			if err = try(fmt.Sprintf("disc byte %d of %d ^ %#x", i, len(disc), D.Mask), discFile, flip(disc, i)); err != nil {
				break
			}
		}
	case "plainflip":
		for _, i := range positions(len(plain)) {
			if err = try(fmt.Sprintf("plain disc byte %d of %d ^ %#x", i, len(plain), D.Mask), discFile, flip(plain, i)); err != nil {
				break
			}
		}
	case "plainword":
		for _, i := range positions(len(plain) / 8) {
			if err = try(fmt.Sprintf("plain disc word %d of %d %s", i, len(plain)/8, D.Word), discFile, word(plain, i*8)); err != nil {
				break
			}
		}
	case "metaflip":
		for _, i := range interesting() {
			if err = judge(fmt.Sprintf("metadata byte %d of %d ^ %#x", i, len(meta), D.Mask), lookMeta(flip(meta, i))); err != nil {
				break
			}
		}
	case "metaword":
		for _, i := range interesting() {
			if i+8 <= len(meta) {
				if err = judge(fmt.Sprintf("metadata bytes at %d of %d %s", i, len(meta), D.Word), lookMeta(word(meta, i))); err != nil {
					break
				}
			}
		}
	case "celoop":
		// a continuation that continues at itself, or at the previous one
		iso, perr := vhd.ParseIso(meta)
		if perr != nil {
			return vh.Bad("an independent reader says: %v", perr)
		}
		for _, at := range iso.Continuations(meta) {
			if err != nil {
				break
			}
			for _, to := range []int{at, at - 30, at &^ 2047} {
				m := append([]byte(nil), meta...)
				vhd.PointCE(m, at, to)
				if err = judge(fmt.Sprintf("metadata continuation at %d moved to %d", at, to), lookMeta(m)); err != nil {
					break
				}
			}
		}
	case "extend":
		err = try("disc with bytes after it", discFile, append(append([]byte(nil), disc...), "trailing bytes"...))
	case "plainextend":
		err = try("plain disc with bytes after it", discFile, append(append([]byte(nil), plain...), "trailing bytes"...))
	case "metamissing":
		vh.Must(os.Remove(metaFile))
		err = judge("metadata missing", func() string { return load(base) })
	case "noversion":
		msg, seg, merr := capnp.NewMessage(capnp.SingleSegment(nil))
		vh.Must(merr)
		root, merr := capnp.NewRootStruct(seg, capnp.ObjectSize{DataSize: 8, PointerCount: 2})
		vh.Must(merr)
		sub, merr := capnp.NewStruct(seg, capnp.ObjectSize{DataSize: 8, PointerCount: 3})
		vh.Must(merr)
		vh.Must(root.SetPtr(1, sub.ToPtr()))
		b, merr := msg.Marshal()
		vh.Must(merr)
		if err = try("disc of a later version", discFile, b); err == nil {
			err = try("compressed disc of a later version", discFile, zip(b))
		}
	case "foreign":
		err = try(D.What, discFile, foreign(D.What, meta, disc))
	case "fault":
		err = judge(fmt.Sprintf("metadata read %d %s", D.Step, D.How), func() string {
			want, _ := lookAll(bytes.NewReader(meta), nil)
			f := &faultyImage{r: bytes.NewReader(meta), step: D.Step, once: D.Once, how: D.How}
			// one look at a time, each on a fresh walker
			var b strings.Builder
			failed := false
			_ = want
			paths := []string{"/"}
			for _, e := range s.Tree {
				paths = append(paths, vhd.Path(e.P, true))
			}
			for _, kind := range []string{"walk", "readdir", "lstat", "stat", "open"} {
				for _, p := range paths {
					good, _, _ := doLook(iso9660.NewWalker(bytes.NewReader(meta)), kind, p)
					f.n = 0
					got, _, _ := doLook(iso9660.NewWalker(f), kind, p)
					if got.err != nil {
						failed = true
						continue
					}
					if good.err != nil || got.text != good.text {
						if kind == "open" && strings.HasPrefix(got.text, "dir ") && !strings.HasSuffix(got.text, " <nil>") {
							continue // an error of ReadDir on the open file
						}
						fmt.Fprintf(&b, "%s %q", kind, p)
					}
				}
			}
			if b.Len() > 0 {
				return "other"
			}
			if failed {
				return "error"
			}
			return "same"
		})
	default:
		vh.Harness("damage %q", D.Kind)
	}
	c.Obs = seen
	return err
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func zip(b []byte) []byte {
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

func foreign(what string, meta, disc []byte) []byte {
	switch what {
	case "empty":
		return nil
	case "byte":
		return []byte{0x1f}
	case "text":
		return []byte("this is not a disc\nthis is not a disc\n")
	case "html":
		return []byte("<!DOCTYPE html><html><head><title>404 Not Found</title></head><body></body></html>")
	case "zeros":
		return make([]byte, 4096)
	case "ones":
		return bytes.Repeat([]byte{0xff}, 4096)
	case "iso":
		return meta
	case "gztext":
		return zip([]byte("this is not a disc\nthis is not a disc\n"))
	case "gzempty":
		return zip(nil)
	case "gzhead":
		return []byte{0x1f, 0x8b, 8, 0}
	case "gzzeros":
		return zip(make([]byte, 64))
	case "gzgz":
		return zip(disc)
	case "words":
		b := make([]byte, 800)
		for i := range b {
			b[i] = byte(i * 7)
		}
		return b
	}
	vh.Harness("foreign %q", what)
	return nil
}
