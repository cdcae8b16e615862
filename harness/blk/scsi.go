package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type scsiOp struct {
	E  string `json:"e"`
	D  int    `json:"d"`
	B  int64  `json:"b"`
	Op struct {
		Form string `json:"form"`
		Lba  int64  `json:"lba"`
		Len  int64  `json:"len"`
		Far  string `json:"far"`
	} `json:"op"`
	Want string `json:"want"`
}

type scsiCase struct {
	Sizes   []int64  `json:"sizes"`
	Ev      []scsiOp `json:"ev"`
	Bsize   int64    `json:"bsize"`
	Workers int      `json:"workers"`
	Style   int      `json:"style"` // of the source at its end
	Burst   int      `json:"burst"`
	Seed    int64    `json:"seed"`
	Bad     string   `json:"bad"` // how the source fails
}

// disc is a large object without memory.
type disc struct {
	id    int
	size  int64
	bsize int64
	style int
	how   string
	mu    sync.Mutex
	bad   map[int64]bool
	pos   int64
}

func (d *disc) Close() error { return nil }
func (d *disc) Size() int64  { return d.size }
func (d *disc) Read(p []byte) (int, error) {
	n, err := d.ReadAt(p, d.pos)
	d.pos += int64(n)
	return n, err
}
func (d *disc) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += d.pos
	case io.SeekEnd:
		off += d.size
	}
	d.pos = off
	return off, nil
}
func (d *disc) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, vh.ErrInjected
	}
	if off >= d.size {
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > d.size-off {
		n = d.size - off
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for b := off / d.bsize; b*d.bsize < off+n; b++ {
		if d.bad[b] {
			m := b*d.bsize - off
			if m < 0 {
				m = 0
			}
			vh.FillPattern(p[:m], d.id, off)
			if d.how == "eof" {
				return int(m), io.ErrUnexpectedEOF
			}
			if d.how == "end" {
				return int(m), io.EOF
			}
			return int(m), vh.ErrInjected
		}
	}
	vh.FillPattern(p[:n], d.id, off)
	if n < int64(len(p)) || d.style == 1 && off+n == d.size {
		return int(n), io.EOF
	}
	return int(n), nil
}

func cdbOf(op scsiOp, bsize int64) []byte {
	o := op.Op
	lba := uint64(o.Lba)
	if o.Far == "wrap" {
		lba += uint64(1<<63) / uint64(bsize) * 2
	}
	n := uint64(o.Len)
	if o.Len == -1 {
		n = (1 << 32) / uint64(bsize)
	}
	b := make([]byte, 16)
	be := binary.BigEndian
	six := func(c byte) {
		b[0] = c
		b[1], b[2], b[3] = byte(lba>>16)&0x1f, byte(lba>>8), byte(lba)
		b[4] = byte(n)
	}
	ten := func(c byte) {
		b[0] = c
		be.PutUint32(b[2:], uint32(lba))
		be.PutUint16(b[7:], uint16(n))
	}
	twelve := func(c byte) {
		b[0] = c
		be.PutUint32(b[2:], uint32(lba))
		be.PutUint32(b[6:], uint32(n))
	}
	sixteen := func(c byte) {
		b[0] = c
		be.PutUint64(b[2:], lba)
		be.PutUint32(b[10:], uint32(n))
	}
	switch o.Form {
	case "read6":
		six(0x08)
	case "read10":
		ten(0x28)
	case "read12":
		twelve(0xa8)
	case "read16":
		sixteen(0x88)
	case "write6":
		six(0x0a)
	case "write10":
		ten(0x2a)
	case "write12":
		twelve(0xaa)
	case "write16":
		sixteen(0x8a)
	case "inquiry":
		b[0], b[4] = 0x12, byte(n)
	case "vpd0":
		b[0], b[1], b[4] = 0x12, 1, byte(n)
	case "vpd83":
		b[0], b[1], b[2], b[4] = 0x12, 1, 0x83, byte(n)
	case "vpdb0":
		b[0], b[1], b[2], b[4] = 0x12, 1, 0xb0, byte(n)
	case "vpdother":
		b[0], b[1], b[2], b[4] = 0x12, 1, 0xc5, byte(n)
	case "capacity":
		b[0], b[1] = 0x9e, 0x10
		be.PutUint32(b[10:], uint32(n))
	case "ready":
	case "modesense6":
		b[0], b[2], b[4] = 0x1a, 0x3f, byte(n)
	case "modesense10":
		b[0], b[2] = 0x5a, 0x3f
		be.PutUint16(b[7:], uint16(n))
	case "modeselect6":
		b[0], b[1], b[4] = 0x15, 0x10, byte(n)
	case "modeselect10":
		b[0], b[1] = 0x55, 0x10
		be.PutUint16(b[7:], uint16(n))
	case "unknown":
		b[0] = []byte{0x03, 0x25, 0x42, 0x93, 0x35, 0xc1, 0x7f, 0x65, 0xff}[int(n)%9]
	default:
		vh.Harness("form %q", o.Form)
	}
	return b
}

var scsiOnce sync.Once

func scsiDriver(c *vh.Case) error {
	var s scsiCase
	c.Decode(&s)
	rnd := rand.New(rand.NewSource(s.Seed))
	scsiOnce.Do(func() {
		// loading kernel modules is not part of this
		dir, err := filepath.Abs("bin")
		vh.Must(err)
		vh.Must(os.MkdirAll(dir, 0755))
		vh.Must(ioutil.WriteFile(filepath.Join(dir, "modprobe"), []byte("#!/bin/sh\nexit 0\n"), 0755))
		vh.Must(os.Setenv("PATH", dir+":"+os.Getenv("PATH")))
		vh.Must(ioutil.WriteFile("proc_modules", []byte("nothing 16384 0 - Live 0x0\n"), 0644))
		if os.Getenv("DEVFS") == "" || os.Getenv("SYSFS") == "" {
			vh.Harness("no scratch for devices")
		}
		links := filepath.Join(os.Getenv("SYSFS"), "dev", "block")
		vh.Must(os.MkdirAll(links, 0755))
		vh.Must(os.Symlink("../../devices/vdx", filepath.Join(links, "0:0")))
	})
	mgr, err := blockdev.NewTCMUBlockDeviceManager(blockdev.TCMUConfig{
		Workers: s.Workers, WorkerBufferSize: 4096, DeviceNamespace: fmt.Sprintf("ns%d", c.Index), BlockXferMin: 3, BlockXferMax: 70000, BlockXferOpt: 900,
	})
	vh.Must(err)
	type device struct {
		d   *disc
		h   *tcmu.SCSIHandler
		dev *tcmu.Device
		in  chan *tcmu.SCSICmd
		out chan tcmu.SCSIResponse
	}
	var devs []*device
	for i, n := range s.Sizes {
		x := &device{d: &disc{id: i + 1, size: n * s.Bsize, bsize: s.Bsize, style: s.Style, how: s.Bad, bad: map[int64]bool{}}}
		tcmu.VerifOpen = func(devPath string, h *tcmu.SCSIHandler) (*tcmu.Device, error) {
			x.h = h
			x.dev = tcmu.VerifDevice(devPath, h)
			vh.Must(os.MkdirAll(devPath, 0755))
			vh.Must(ioutil.WriteFile(filepath.Join(devPath, h.VolumeName), nil, 0644))
			return x.dev, nil
		}
		id := uuid.New()
		bd, err := mgr.Open(x.d, id, s.Bsize)
		if err != nil {
			return vh.Bad("opening the device: %v", err)
		}
		if want := filepath.Join(os.Getenv("DEVFS"), "vdx"); bd.DevicePath() != want {
			return vh.Bad("device path %q instead of %q", bd.DevicePath(), want)
		}
		if x.h.VolumeName != id.String() || x.h.DataSizes.VolumeSize != x.d.size || x.h.DataSizes.BlockSize != s.Bsize {
			return vh.Bad("device made with %+v", x.h)
		}
		x.in, x.out = make(chan *tcmu.SCSICmd, 64), make(chan tcmu.SCSIResponse, 64)
		vh.Must(x.h.DevReady(x.in, x.out))
		devs = append(devs, x)
	}
	type asked struct {
		op   scsiOp
		i    int
		data []byte
		vecs [][]byte
	}
	pending := make([]map[uint16]*asked, len(devs))
	for i := range pending {
		pending[i] = map[uint16]*asked{}
	}
	check := func(x *device, a *asked, rsp tcmu.SCSIResponse) error {
		_, status, sense := rsp.VerifFields()
		where := fmt.Sprintf("command %d (%s, block %d%s, length %d, of %d blocks of %d)", a.i, a.op.Op.Form, a.op.Op.Lba, map[string]string{"wrap": "+wrap"}[a.op.Op.Far], a.op.Op.Len, x.d.size/s.Bsize, s.Bsize)
		if status == 0 {
			if a.op.Want == "error" {
				return vh.Bad("%s succeeds", where)
			}
		} else {
			if a.op.Want != "error" && a.op.Want != "either" {
				return vh.Bad("%s fails: status %d, sense %x", where, status, sense)
			}
			if status != 2 || len(sense) < 14 || sense[0]&0x7f != 0x70 || sense[2]&0xf == 0 {
				return vh.Bad("%s: status %d, sense %x", where, status, sense)
			}
			return nil
		}
		var got []byte
		for _, v := range a.vecs {
			got = append(got, v...)
		}
		var want []byte
		be := binary.BigEndian
		switch a.op.Op.Form {
		case "read6", "read10", "read12", "read16":
			if a.op.Op.Len <= 0 {
				return nil
			}
			want = vh.Pattern(x.d.id, a.op.Op.Lba*s.Bsize, a.op.Op.Len*s.Bsize)
		case "capacity":
			want = make([]byte, 32)
			be.PutUint64(want, uint64(x.d.size/s.Bsize-1))
			be.PutUint32(want[8:], uint32(s.Bsize))
		case "vpdb0":
			want = make([]byte, 16)
			want[1], want[3] = 0xb0, 12
			be.PutUint16(want[6:], 3)
			be.PutUint32(want[8:], 70000)
			be.PutUint32(want[12:], 900)
		case "inquiry":
			if len(got) > 4 && (got[0] != 0 || got[4] < 31) {
				return vh.Bad("%s: %x", where, got)
			}
			return nil
		default:
			return nil
		}
		if len(want) > len(got) {
			want = want[:len(got)]
		}
		if !bytes.Equal(got[:len(want)], want) {
			return vh.Bad("%s: wrong data", where)
		}
		return nil
	}
	collect := func() error {
		for i, x := range devs {
			for len(pending[i]) > 0 {
				select {
				case rsp := <-x.out:
					id, _, _ := rsp.VerifFields()
					a := pending[i][id]
					if a == nil {
						return vh.Bad("response to unknown command %d", id)
					}
					delete(pending[i], id)
					if err := check(x, a, rsp); err != nil {
						return err
					}
				case <-time.After(15 * time.Second):
					return vh.Bad("no response")
				}
			}
		}
		return nil
	}
	flying := 0
	for i, op := range s.Ev {
		x := devs[op.D-1]
		if op.E != "cmd" || flying >= s.Burst {
			if err := collect(); err != nil {
				return err
			}
			flying = 0
		}
		switch op.E {
		case "fail":
			x.d.mu.Lock()
			x.d.bad[op.B] = true
			x.d.mu.Unlock()
			continue
		case "recover":
			x.d.mu.Lock()
			x.d.bad = map[int64]bool{}
			x.d.mu.Unlock()
			continue
		}
		a := &asked{op: op, i: i}
		n := op.Op.Len
		switch op.Op.Form {
		case "read6", "read10", "read12", "read16", "write6", "write10", "write12", "write16":
			n *= s.Bsize
			if n < 0 || n > 8<<20 {
				n = 1 << 16 // nobody should get that far
			}
		}
		a.data = bytes.Repeat([]byte{0xEE}, int(n))
		for rest := a.data; len(rest) > 0; {
			k := len(rest)
			if rnd.Intn(2) == 0 && k > 1 {
				k = 1 + rnd.Intn(k)
			}
			a.vecs = append(a.vecs, rest[:k:k])
			rest = rest[k:]
		}
		id := uint16(i + 1)
		pending[op.D-1][id] = a
		x.in <- tcmu.VerifCmd(id, cdbOf(op, s.Bsize), a.vecs, x.dev)
		flying++
	}
	if err := collect(); err != nil {
		return err
	}
	for _, x := range devs {
		close(x.in)
		select {
		case _, ok := <-x.out:
			if ok {
				return vh.Bad("another response")
			}
		case <-time.After(15 * time.Second):
			return vh.Bad("output does not end")
		}
	}
	if err := mgr.Close(); err != nil {
		return vh.Bad("closing: %v", err)
	}
	return nil
}
