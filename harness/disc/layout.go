package main

import (
	"bytes"
	"fmt"
	"path"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func makeVolume(c *vh.Case, s *vhd.Spec) (*iso9660.Volume, error) {
	v := iso9660.NewPosixPortableVolume()
	if s.Rule == "extended" {
		v = iso9660.NewNvidiaExtendedVolume()
	}
	object := func(o int) storage.Object {
		obj, err := storage.Open(vh.SimURL(o, vhd.Sizes[s.Objs[o-1].Size], fmt.Sprint(o)))
		vh.Must(err)
		return obj
	}
	for i, op := range s.Ops {
		if op.Op == "bulk" {
			for j := 1; j <= op.N; j++ {
				p := vhd.Path(append(append([]string{}, op.Path...), fmt.Sprintf("b%d", j)), true)
				if err := v.AddFile(p, object(op.O)); err != nil {
					return nil, vh.Bad("op %d: bulk entry %q: %v", i, p, err)
				}
			}
			continue
		}
		p := vhd.Path(op.Path, op.Abs)
		var err error
		if op.Op == "file" {
			err = v.AddFile(p, object(op.Node.O))
		} else {
			err = v.AddSymlink(p, vhd.Target(op.Node.T))
		}
		if (err == nil) != op.Ok {
			return nil, vh.Bad("op %d: adding %s: error %v, specified accepted=%v", i, op.Op, err, op.Ok)
		}
	}
	return v, nil
}

// layout describes the volume as an independent reader sees it; the verdict on
// the description is the specification's.
func layout(c *vh.Case) error {
	var s vhd.Spec
	c.Decode(&s)
	vh.UseSim()
	v, err := makeVolume(c, &s)
	if err != nil {
		return err
	}
	var meta bytes.Buffer
	n, err := v.WriteMetadataTo(&meta)
	if err != nil {
		return vh.Bad("writing metadata: %v", err)
	}
	if n != int64(meta.Len()) {
		return vh.Bad("writing metadata reports %d bytes, wrote %d", n, meta.Len())
	}
	iso, err := vhd.ParseIso(meta.Bytes())
	if err != nil {
		return vh.Bad("an independent reader says: %v", err)
	}
	// the tree
	want := map[string]vhd.Node{}
	total := int64(0)
	for _, e := range s.Tree {
		want["/"+vhd.Path(e.P, false)] = e.N
		if e.N.K == "file" {
			total += vhd.Sizes[s.Objs[e.N.O-1].Size]
		}
	}
	got := iso.Entries()
	for p, n := range want {
		e, ok := got[p]
		if !ok {
			return vh.Bad("the volume lacks %q", p)
		}
		size := e.Size
		wantSize := size
		target := ""
		switch n.K {
		case "file":
			wantSize = vhd.Sizes[s.Objs[n.O-1].Size]
		case "link":
			target = path.Clean(vhd.Target(n.T))
		}
		if e.Kind != n.K || size != wantSize || e.Target != target {
			return vh.Bad("%q is %+v, burned as %+v", p, e, n)
		}
		if n.K == "dir" {
			subs := 0
			for q, m := range want {
				if m.K == "dir" && q != "/" && path.Dir(q) == p {
					subs++
				}
			}
			if int(e.Nlink) != 2+subs {
				return vh.Bad("directory %q has %d links and %d sub-directories", p, e.Nlink, subs)
			}
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			return vh.Bad("the volume has %q, never burned", p)
		}
	}
	// again, and by a second volume
	for round := 0; round < 2; round++ {
		w := v
		if round == 1 {
			if w, err = makeVolume(c, &s); err != nil {
				return err
			}
		}
		var again bytes.Buffer
		if _, err := w.WriteMetadataTo(&again); err != nil {
			return vh.Bad("writing metadata again: %v", err)
		}
		if again.Len() != meta.Len() || !bytes.Equal(iso.BlankDates(again.Bytes()), iso.BlankDates(meta.Bytes())) {
			return vh.Bad("the same input gives different metadata (round %d)", round)
		}
	}
	// the whole image
	if total <= 8<<20 {
		var full bytes.Buffer
		n, err := v.WriteTo(&full)
		if err != nil {
			return vh.Bad("writing the image: %v", err)
		}
		if n != int64(full.Len()) || n%2048 != 0 {
			return vh.Bad("writing the image reports %d bytes, wrote %d", n, full.Len())
		}
		b := full.Bytes()
		if !bytes.HasPrefix(b, meta.Bytes()) {
			return vh.Bad("the image does not begin with the metadata")
		}
		iso.Full = full.Len() / 2048
		used := make([]bool, len(b)/2048)
		for p, n := range want {
			if n.K != "file" {
				continue
			}
			e := got[p]
			sec := int((e.Size + 2047) / 2048)
			if e.Start < iso.Meta || (e.Start+sec)*2048 > len(b) {
				return vh.Bad("%q at %d lies outside the image", p, e.Start)
			}
			for i := 0; i < sec; i++ {
				used[e.Start+i] = true
			}
			at := e.Start * 2048
			if !bytes.Equal(b[at:at+int(e.Size)], vh.Pattern(n.O, 0, e.Size)) {
				return vh.Bad("%q at %d does not hold the object's bytes", p, e.Start)
			}
			for _, x := range b[at+int(e.Size) : (e.Start+sec)*2048] {
				if x != 0 {
					return vh.Bad("%q is not padded with zeros", p)
				}
			}
		}
		for i := iso.Meta; i < len(used); i++ {
			if !used[i] && bytes.Count(b[i*2048:(i+1)*2048], []byte{0}) != 2048 {
				return vh.Bad("sector %d is not described and not zero", i)
			}
		}
	}
	c.Obs = iso
	return nil
}

// toobig adds files whose sizes do not fit the volume.
func toobig(c *vh.Case) error {
	var s struct {
		Files []struct {
			Name string `json:"name"`
			TiB  int64  `json:"tib"` // 1/16 of a tebibyte
		} `json:"files"`
		Fits bool `json:"fits"`
	}
	c.Decode(&s)
	vh.UseSim()
	v := iso9660.NewPosixPortableVolume()
	refused := false
	for i, f := range s.Files {
		obj, err := storage.Open(vh.SimURL(i, f.TiB<<36, f.Name))
		vh.Must(err)
		if v.AddFile("/"+f.Name, obj) != nil {
			refused = true
		}
	}
	var meta bytes.Buffer
	if !refused {
		_, err := v.WriteMetadataTo(&meta)
		refused = err != nil
	}
	if refused != !s.Fits {
		return vh.Bad("files of sizes %v (1/16 TiB): refused=%v, they fit=%v", s.Files, refused, s.Fits)
	}
	if !refused {
		iso, err := vhd.ParseIso(meta.Bytes())
		if err != nil {
			return vh.Bad("an independent reader says: %v", err)
		}
		got := iso.Entries()
		prevEnd := int64(iso.Meta)
		for _, f := range s.Files {
			e := got["/"+f.Name]
			if e.Size != f.TiB<<36 || int64(e.Start) != prevEnd {
				return vh.Bad("file %q is %+v, expected at %d", f.Name, e, prevEnd)
			}
			prevEnd += (f.TiB << 36) / 2048
		}
		if int64(iso.Space) != prevEnd {
			return vh.Bad("volume size %d, files end at %d", iso.Space, prevEnd)
		}
	}
	return nil
}
