package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/vincent-petithory/dataurl"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/ram"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

var (
	storeOnce sync.Once
	store     *vh.Store
	ramOnce   sync.Once
)

func webStore() *vh.Store {
	storeOnce.Do(func() { store = vh.NewStore() })
	return store
}

func useRAM() { ramOnce.Do(ramdriver.RegisterDefaultDriver) }

func isNotExist(err error) bool {
	return err != nil && (os.IsNotExist(err) || errors.Is(err, os.ErrNotExist))
}

// makeObject stores content under the scheme and returns its URL.
func makeObject(c *vh.Case, kind string, content []byte) string {
	switch kind {
	case "file":
		p := filepath.Join(c.Scratch, "obj")
		vh.Must(os.WriteFile(p, content, 0644))
		return "file://" + p
	case "path":
		p := filepath.Join(c.Scratch, "ob j")
		vh.Must(os.WriteFile(p, content, 0644))
		return filepath.Join(c.Scratch, "ob%20j")
	case "data":
		return dataurl.New(content, "application/octet-stream").String()
	case "datahex":
		s := "data:,"
		for _, b := range content {
			s += fmt.Sprintf("%%%02x", b)
		}
		return s
	case "zero":
		return fmt.Sprintf("zero:%d", len(content))
	case "ram":
		useRAM()
		url := fmt.Sprintf("ram:c%d/obj", c.Index)
		w, err := storage.Create(url)
		vh.Must(err)
		_, err = w.Write(content)
		vh.Must(err)
		_, err = w.Commit()
		vh.Must(err)
		return url
	case "http":
		return webStore().Put(fmt.Sprintf("/c%d/obj", c.Index), content)
	}
	vh.Harness("kind %q", kind)
	return ""
}

func missingURL(c *vh.Case, kind string) string {
	switch kind {
	case "file":
		return "file://" + filepath.Join(c.Scratch, "nope")
	case "path":
		return filepath.Join(c.Scratch, "no%20pe")
	case "ram":
		useRAM()
		return "ram:///absent/nope"
	case "http":
		return webStore().URL + "/absent"
	}
	return ""
}

func schemeDriver(c *vh.Case) error {
	var rc vh.ReadCase
	c.Decode(&rc)
	if rc.Unit == 0 {
		rc.Unit = 1
	}
	kind := rc.Cfg.Kind
	size := 0
	if len(rc.Cfg.Parts) > 0 {
		size = rc.Cfg.Parts[0]
	}
	content := vh.PartBytes(1, size, rc.Unit)
	url := makeObject(c, kind, content)
	decl := int64(-1)
	if rc.Cfg.N >= 0 {
		decl = int64(rc.Cfg.N) * int64(rc.Unit)
	}
	obj, err := storage.OpenContextSize(context.Background(), url, decl)
	if err != nil {
		return vh.Bad("open %s: %v", url, err)
	}
	if err := vh.RunReads(obj, &rc, kind == "zero", nil); err != nil {
		return vh.Bad("%s: %v", kind, err)
	}
	if obj.URL() == "" {
		return vh.Bad("%s: empty URL", kind)
	}
	again, err := storage.Open(obj.URL())
	if err != nil {
		return vh.Bad("%s: the object's own URL %q cannot be opened: %v", kind, obj.URL(), err)
	}
	if again.Size() != int64(len(content)) {
		return vh.Bad("%s: reopened size %d, want %d", kind, again.Size(), len(content))
	}
	again.Close()
	if fi, err := storage.Stat(url); err != nil || fi.Size() != int64(len(content)) || fi.IsDir() {
		return vh.Bad("%s: stat size: %v, %v; want %d", kind, fi, err, len(content))
	}
	if err := obj.Close(); err != nil {
		return vh.Bad("close: %v", err)
	}
	// something missing
	if mu := missingURL(c, kind); mu != "" {
		for _, decl := range []int64{-1, int64(len(content))} {
			o, err := storage.OpenSize(mu, decl)
			if err == nil {
				if decl == 0 {
					continue // nothing will ever be asked of the server
				}
				_, err = o.ReadAt(make([]byte, 1), 0)
				o.Close()
			}
			if !isNotExist(err) {
				return vh.Bad("%s: missing object, declared size %d: %v; want not-found", kind, decl, err)
			}
		}
		if _, err := storage.Stat(mu); !isNotExist(err) {
			return vh.Bad("%s: stat of missing object: %v", kind, err)
		}
	}
	return nil
}
