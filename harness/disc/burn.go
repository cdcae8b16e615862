package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

var (
	faultOnce sync.Once
	faults    *vh.FaultStore
)

// burnFault burns onto a store one step of which fails.
func burnFault(c *vh.Case) error {
	var s struct {
		Fault struct {
			At     string `json:"at"`
			Nth    int    `json:"nth"`
			Sticky bool   `json:"sticky"`
			Big    bool   `json:"big"`
		} `json:"fault"`
		Result string `json:"result"`
		Disc   bool   `json:"disc"`
	}
	c.Decode(&s)
	faultOnce.Do(func() { faults = vh.NewFaultStore("vfault") })
	vh.UseSim()
	url := fmt.Sprintf("vfault:/case%d/disc.vdsc", c.Index)
	faults.Fault = nil
	if s.Fault.At != "none" {
		f := strings.Fields(s.Fault.At)
		suffix := "disc.vdsc"
		if f[1] == "header" {
			suffix = ".isohdr"
		}
		faults.Fault = &vh.Fault{Suffix: suffix, Step: f[0], Nth: s.Fault.Nth, Once: !s.Fault.Sticky}
	}
	b := vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: url})
	files := 3
	if s.Fault.Big {
		files = 3000
	}
	for i := 0; i < files; i++ {
		// enough metadata and URLs for several writes
		p := fmt.Sprintf("d%d/%s%d", i%7, strings.Repeat("n", 200), i)
		if err := b.AddFile(p, vh.SimURL(i, int64(i), fmt.Sprintf("%x", uint64(i)*0x9E3779B97F4A7C15)), -1); err != nil {
			return vh.Bad("adding %q: %v", p, err)
		}
	}
	got, err := b.Build()
	writes := faults.Writes[url+".isohdr"]
	if s.Fault.At == "write disc" {
		writes = faults.Writes[url]
	}
	if strings.HasPrefix(s.Fault.At, "write") && writes < s.Fault.Nth {
		// that write never happened, so nothing failed
		s.Result, s.Disc = "ok", true
	}
	if (err == nil) != (s.Result == "ok") {
		return vh.Bad("burn with a failure at %q (%d): error %v", s.Fault.At, s.Fault.Nth, err)
	}
	if err == nil && got != url {
		return vh.Bad("burn reports %q instead of %q", got, url)
	}
	if _, ok := faults.Get(url); ok != s.Disc {
		return vh.Bad("burn with a failure at %q (%d): disc present is %v", s.Fault.At, s.Fault.Nth, ok)
	}
	c.Obs = map[string]interface{}{"error": fmt.Sprint(err), "writes": writes}
	faults.Fault = nil
	if s.Disc {
		v, err := vdisc.Load(url, caching.NopCache)
		if err != nil {
			return vh.Bad("loading: %v", err)
		}
		v.Close()
	}
	return nil
}

// missing burns a file whose source does not exist.
func missing(c *vh.Case) error {
	var s struct {
		Style    string `json:"style"`
		Declared bool   `json:"declared"`
	}
	c.Decode(&s)
	vh.UseSim()
	vhd.UseRAM()
	mustFail := !s.Declared
	url := ""
	switch s.Style {
	case "abs":
		url = "file://" + filepath.Join(c.Scratch, "nope")
	case "path":
		url = filepath.Join(c.Scratch, "nope")
	case "rel":
		url = "definitely/not/here"
	case "http":
		url = vhd.Web().URL + "/nope"
	case "ram":
		url = fmt.Sprintf("ram:/case%d/nope", c.Index)
	case "sim":
		url = "vsim:/nope"
	case "badurl":
		url = "http://[::1/x%zz"
		mustFail = true
	case "scheme":
		url = "nosuchscheme://x/y"
		mustFail = true
	case "data":
		url = "data:;;;base64,***"
	}
	size := int64(-1)
	if s.Declared {
		size = 100
	}
	out := filepath.Join(c.Scratch, "disc.vdsc")
	b := vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: out})
	addErr := b.AddFile("d/a", url, size)
	if addErr == nil && mustFail {
		return vh.Bad("adding a file of the missing object %q is accepted", url)
	}
	c.Obs = fmt.Sprint(addErr)
	if addErr != nil {
		// as if never attempted
		if err := b.AddFile("d", vh.SimURL(1, 5, "x"), -1); err != nil {
			return vh.Bad("after a rejected d/a, adding d fails: %v", err)
		}
		if _, err := b.Build(); err != nil {
			return vh.Bad("burning after a rejected addition: %v", err)
		}
		v, err := vdisc.Load(out, caching.NopCache)
		if err != nil {
			return vh.Bad("loading after a rejected addition: %v", err)
		}
		v.Close()
		return nil
	}
	if _, err := os.Stat(out); err == nil {
		return vh.Bad("a disc appears before it is burned")
	}
	_, err := storage.Stat(out)
	if err == nil {
		return vh.Bad("a disc appears before it is burned")
	}
	return nil
}
