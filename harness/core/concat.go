package main

import (
	"errors"

	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func concatDriver(c *vh.Case) error {
	var rc vh.ReadCase
	c.Decode(&rc)
	if rc.Unit == 0 {
		rc.Unit = 1
	}
	var parts []storage.AnonymousObject
	var fakes []*vh.FakeObject
	for i, n := range rc.Cfg.Parts {
		f := &vh.FakeObject{ID: i + 1, Cells: n, Unit: rc.Unit, Bad: map[int]bool{}, EagerEOF: i%2 == 1}
		for _, b := range rc.Cfg.Bad {
			if b[0] == i+1 {
				f.Bad[b[1]] = true
			}
		}
		fakes = append(fakes, f)
		parts = append(parts, f)
	}
	var obj storage.AnonymousObject
	switch rc.Cfg.Kind {
	case "concat":
		obj = storage.Concat(parts...)
	case "concurrent":
		obj = storage.ConcurrentConcat(parts...)
	case "nested":
		// (p1) ++ (p2 ++ p3 ...)
		if len(parts) == 0 {
			obj = storage.Concat()
		} else {
			obj = storage.Concat(parts[0], storage.ConcurrentConcat(parts[1:]...))
		}
	default:
		vh.Harness("kind %q", rc.Cfg.Kind)
	}
	if rc.Cfg.N >= 0 {
		obj = storage.Slice(obj, int64(rc.Cfg.Lo)*int64(rc.Unit), int64(rc.Cfg.N)*int64(rc.Unit))
	}
	if c.Index%3 == 1 {
		obj = storage.WithURL(obj, "x:y")
	}
	if err := vh.RunReads(obj, &rc, false, func(e error) bool { return errors.Is(e, vh.ErrInjected) }); err != nil {
		return err
	}
	if err := obj.Close(); err != nil {
		return vh.Bad("close: %v", err)
	}
	return nil
}
