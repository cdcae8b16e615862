package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type walkCase struct {
	Adds []struct {
		Path []string `json:"path"`
		Node struct {
			K    string   `json:"k"`
			O    int      `json:"o"`
			Raw  []string `json:"raw"`
			RAbs bool     `json:"rabs"`
			Abs  bool     `json:"abs"`
			T    []string `json:"t"`
		} `json:"node"`
	} `json:"adds"`
	Looks []struct {
		Kind   string   `json:"kind"`
		Raw    []string `json:"raw"`
		Expect string   `json:"expect"`
		P      []string `json:"p"`
	} `json:"looks"`
	Tree []struct {
		P []string `json:"p"`
		K string   `json:"k"`
	} `json:"tree"`
	Bulk int  `json:"bulk"`
	Conc bool `json:"conc"`
}

const bulkObj = 99

func fileSize(o int) int64 { return int64(100*o + 7) }

// what one lookup gave
type looked struct {
	err  error
	text string
}

func fiText(fi *iso9660.FileInfo) string {
	if fi == nil {
		return "nil"
	}
	return fmt.Sprintf("%q size=%d mode=%v extent=%d target=%q nlink=%d", fi.Name(), fi.Size(), fi.Mode(), fi.Extent(), fi.Target(), fi.Nlink())
}

func doLook(w *iso9660.Walker, kind, p string) (res looked, fi *iso9660.FileInfo, list []string) {
	switch kind {
	case "lstat":
		fi, res.err = w.Lstat(p)
		res.text = fiText(fi)
	case "stat":
		fi, res.err = w.Stat(p)
		res.text = fiText(fi)
	case "open":
		var f *iso9660.File
		f, res.err = w.Open(p)
		if res.err == nil {
			b, rerr := ioutil.ReadAll(io.LimitReader(f, 1<<20))
			if rerr == nil {
				res.text = fmt.Sprintf("file %d %x", len(b), b)
			} else {
				l, derr := f.ReadDir()
				var names []string
				for _, e := range l {
					names = append(names, fiText(e))
				}
				res.text = fmt.Sprintf("dir %v %v", names, derr)
			}
			f.Close()
		}
	case "readdir":
		var l []*iso9660.FileInfo
		l, res.err = w.ReadDir(p)
		for _, e := range l {
			list = append(list, e.Name())
			res.text += fiText(e) + ";"
		}
	case "walk":
		res.err = w.Walk(p, func(at string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			res.text += fmt.Sprintf("%q %q %d;", at, info.Name(), info.Size())
			list = append(list, at+" "+info.Name())
			return nil
		})
	}
	return
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

func hasErrno(err error, e syscall.Errno) bool {
	return errors.Is(err, e) || strings.Contains(err.Error(), e.Error()) ||
		(e == syscall.ENOENT && os.IsNotExist(err))
}

func walkDriver(c *vh.Case) error {
	var s walkCase
	c.Decode(&s)
	vh.UseSim()
	v := iso9660.NewNvidiaExtendedVolume()
	for _, a := range s.Adds {
		p := vhd.Path(a.Path, true)
		var err error
		if a.Node.K == "file" {
			obj, oerr := storage.Open(vh.SimURL(a.Node.O, fileSize(a.Node.O), "f"))
			vh.Must(oerr)
			err = v.AddFile(p, obj)
		} else {
			err = v.AddSymlink(p, vhd.Path(a.Node.Raw, a.Node.RAbs))
		}
		if err != nil {
			return vh.Bad("adding %q: %v", p, err)
		}
	}
	kind := map[string]string{}
	below := map[string][]string{}
	for _, t := range s.Tree {
		p := vhd.Path(t.P, true)
		kind[p] = t.K
		if p != "/" {
			below[path.Dir(p)] = append(below[path.Dir(p)], path.Base(p))
		}
		if t.K == "dir" {
			for j := 1; j <= s.Bulk; j++ {
				obj, oerr := storage.Open(vh.SimURL(bulkObj, 10, "b"))
				vh.Must(oerr)
				b := path.Join(p, vhd.Name(fmt.Sprintf("b%d", j)))
				if err := v.AddFile(b, obj); err != nil {
					return vh.Bad("adding %q: %v", b, err)
				}
				below[p] = append(below[p], path.Base(b))
			}
		}
	}
	var img bytes.Buffer
	if _, err := v.WriteTo(&img); err != nil {
		return vh.Bad("writing the image: %v", err)
	}
	iso, err := vhd.ParseIso(img.Bytes())
	if err != nil {
		return vh.Bad("an independent reader says: %v", err)
	}
	entries := iso.Entries()
	objOf := map[string]int{}
	targetOf := map[string]string{}
	for _, a := range s.Adds {
		p := vhd.Path(a.Path, true)
		if a.Node.K == "file" {
			objOf[p] = a.Node.O
		} else {
			t := vhd.Path(a.Node.T, a.Node.Abs)
			if t == "" {
				t = "."
			}
			targetOf[p] = t
		}
	}
	w := iso9660.NewWalker(bytes.NewReader(img.Bytes()))

	one := func(w *iso9660.Walker, i int) error {
		l := s.Looks[i]
		p := vhd.Path(l.Raw, i%2 == 0)
		got, fi, list := doLook(w, l.Kind, p)
		fresh, _, _ := doLook(iso9660.NewWalker(bytes.NewReader(img.Bytes())), l.Kind, p)
		if !sameErr(got.err, fresh.err) || got.text != fresh.text {
			return vh.Bad("look %d: %s %q gives %s, %v; on a fresh walker %s, %v", i, l.Kind, p, clipS(got.text), got.err, clipS(fresh.text), fresh.err)
		}
		switch l.Expect {
		case "any":
			return nil
		case "loop":
			if got.err == nil {
				return vh.Bad("look %d: %s %q goes round in circles but gives %s", i, l.Kind, p, clipS(got.text))
			}
			return nil
		case "ENOENT", "ENOTDIR":
			want := map[string]syscall.Errno{"ENOENT": syscall.ENOENT, "ENOTDIR": syscall.ENOTDIR}[l.Expect]
			if got.err == nil || !hasErrno(got.err, want) {
				return vh.Bad("look %d: %s %q gives %s, error %v, specified %s", i, l.Kind, p, clipS(got.text), got.err, l.Expect)
			}
			return nil
		}
		if got.err != nil {
			return vh.Bad("look %d: %s %q fails: %v", i, l.Kind, p, got.err)
		}
		dst := vhd.Path(l.P, true)
		switch l.Kind {
		case "lstat", "stat":
			e := entries[dst]
			k := "file"
			if fi.IsDir() {
				k = "dir"
			} else if fi.Mode()&os.ModeSymlink != 0 {
				k = "link"
			}
			if k != kind[dst] || int(fi.Extent()) != e.Start || (k == "file" && fi.Size() != fileSize(objOf[dst])) || fi.Target() != targetOf[dst] {
				return vh.Bad("look %d: %s %q gives %s, specified %s %s at %d, target %q", i, l.Kind, p, fiText(fi), kind[dst], dst, e.Start, targetOf[dst])
			}
			if dst != "/" && fi.Name() != path.Base(dst) {
				return vh.Bad("look %d: %s %q gives the name %q, specified %q", i, l.Kind, p, fi.Name(), path.Base(dst))
			}
		case "open":
			if kind[dst] == "file" {
				b := vh.Pattern(objOf[dst], 0, fileSize(objOf[dst]))
				if want := fmt.Sprintf("file %d %x", len(b), b); got.text != want {
					return vh.Bad("look %d: open %q gives %s, specified %s", i, p, clipS(got.text), clipS(want))
				}
			} else if !strings.HasPrefix(got.text, "dir ") {
				return vh.Bad("look %d: open %q gives %s, specified a directory", i, p, clipS(got.text))
			}
		case "readdir":
			if err := sameNames(list, below[dst], ""); err != nil {
				return vh.Bad("look %d: readdir %q: %v", i, p, err)
			}
		case "walk":
			want := []string{}
			var rec func(real, shown string)
			rec = func(real, shown string) {
				for _, n := range below[real] {
					want = append(want, shown+" "+n)
				}
				for _, n := range below[real] {
					if kind[path.Join(real, n)] == "dir" {
						rec(path.Join(real, n), path.Join(shown, n))
					}
				}
			}
			if kind[dst] == "dir" {
				rec(dst, path.Clean("/"+p))
			}
			if len(list) == 0 {
				return vh.Bad("look %d: walk %q visits nothing", i, p)
			}
			if err := sameNames(list[1:], want, " "); err != nil {
				return vh.Bad("look %d: walk %q: %v", i, p, err)
			}
		}
		return nil
	}
	if s.Conc {
		errs := make([]error, 4)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := range s.Looks {
					if err := one(w, (k+g*3)%len(s.Looks)); err != nil {
						errs[g] = err
						return
					}
				}
			}(g)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	for i := range s.Looks {
		if err := one(w, i); err != nil {
			return err
		}
	}
	return nil
}

func sameNames(got, want []string, sep string) error {
	var g []string
	for _, n := range got {
		base := n
		if sep != "" {
			base = n[strings.LastIndex(n, sep)+1:]
		}
		if base != "." && base != ".." {
			g = append(g, n)
		}
	}
	w := append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Errorf("names %s, specified %s", clipS(fmt.Sprintf("%q", g)), clipS(fmt.Sprintf("%q", w)))
	}
	return nil
}

func clipS(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}
