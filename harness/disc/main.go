package main

import (
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	vh.Main(map[string]vh.Driver{
		"disc":      discDriver,
		"burnfault": burnFault,
		"missing":   missing,
		"layout":    layout,
		"damage":    damageDriver,
		"walk":      walkDriver,
		"toobig":    toobig,
		"handles":   vh.Alone(handles),
	})
}

func discDriver(c *vh.Case) error {
	var s vhd.Spec
	c.Decode(&s)
	d := vhd.NewDisc(c, &s)
	defer d.Close()
	if err := d.Apply(); err != nil {
		return err
	}
	if err := d.Build(); err != nil {
		return vh.Bad("burning: %v", err)
	}
	if err := d.Load(); err != nil {
		return err
	}
	if s.Has("shrunk") {
		return d.CheckShrunk()
	}
	if s.Has("list") {
		if err := d.CheckListings(); err != nil {
			return err
		}
	}
	if s.Has("read") {
		if err := d.CheckReads(); err != nil {
			return err
		}
	}
	if s.Has("url") {
		if err := d.CheckURLs(); err != nil {
			return err
		}
	}
	c.Obs = map[string]interface{}{"entries": len(s.Tree), "image": d.V.Image().Size()}
	return nil
}
