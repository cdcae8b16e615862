package zzvhlib

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
)

// Reader is what the read contract is about.
type Reader interface {
	io.Reader
	io.ReaderAt
	io.Seeker
	Size() int64
}

// ReadResp is the specified response to a read, in cells.
type ReadResp struct {
	Bytes [][2]int `json:"bytes"`
	Fail  bool     `json:"fail"`
	Good  int      `json:"good"`
	EOF   bool     `json:"eof"`
	Short bool     `json:"short"`
}

// ReadOp is one operation of an ObjRead history.
type ReadOp struct {
	Op     string   `json:"op"`
	Off    int64    `json:"off"`
	Len    int      `json:"len"`
	R      ReadResp `json:"r"`
	Whence int      `json:"whence"`
	Delta  int64    `json:"delta"`
	To     int64    `json:"to"`
}

// ReadCase is one ObjRead behaviour.
type ReadCase struct {
	Cfg struct {
		Kind  string   `json:"kind"`
		Parts []int    `json:"parts"`
		Bad   [][2]int `json:"bad"`
		Lo    int      `json:"lo"`
		N     int      `json:"n"`
	} `json:"cfg"`
	Size int64    `json:"size"`
	Ops  []ReadOp `json:"ops"`
	Unit int      `json:"unit"`
	Sub  string   `json:"sub"`
}

// CellBytes expands one cell to unit bytes.
func CellBytes(part, cell, unit int) []byte {
	return Pattern(part, int64(cell)*int64(unit), int64(unit))
}

// PartBytes is the whole content of a part.
func PartBytes(part, size, unit int) []byte {
	return Pattern(part, 0, int64(size)*int64(unit))
}

// ErrInjected is the failure of a bad cell.
var ErrInjected = errors.New("injected source failure")

// RunReads replays the operations on r. zero: content is all zero bytes.
func RunReads(r Reader, c *ReadCase, zero bool, isInjected func(error) bool) error {
	u := c.Unit
	if u == 0 {
		u = 1
	}
	u64 := int64(u)
	if got := r.Size(); got != c.Size*u64 {
		return Bad("Size() = %d, content has %d bytes", got, c.Size*u64)
	}
	for i, op := range c.Ops {
		switch op.Op {
		case "readat", "read":
			buf := make([]byte, op.Len*u)
			guard := byte(0xA5)
			for j := range buf {
				buf[j] = guard
			}
			var n int
			var err error
			if op.Op == "readat" {
				n, err = r.ReadAt(buf, op.Off*u64)
			} else {
				// io.Reader may return less; the contract over a whole read is that of ReadFull
				for n < len(buf) && err == nil {
					var m int
					m, err = r.Read(buf[n:])
					n += m
					if m == 0 && err == nil {
						break
					}
				}
			}
			var want []byte
			for _, cell := range op.R.Bytes {
				if zero {
					want = append(want, make([]byte, u)...)
				} else {
					want = append(want, CellBytes(cell[0], cell[1], u)...)
				}
			}
			where := fmt.Sprintf("op %d %s(off=%d, len=%d) of %d-byte object", i, op.Op, op.Off*u64, len(buf), c.Size*u64)
			if n < 0 || n > len(buf) {
				return Bad("%s: n=%d", where, n)
			}
			if n > len(want) {
				return Bad("%s: returned %d bytes, only %d exist there", where, n, len(want))
			}
			if !bytes.Equal(buf[:n], want[:n]) {
				return Bad("%s: wrong bytes %x, want %x", where, head(buf[:n]), head(want[:n]))
			}
			if op.R.Fail {
				if err == nil || err == io.EOF {
					return Bad("%s: part failed but err=%v (n=%d)", where, err, n)
				}
				if isInjected != nil && !isInjected(err) {
					return Bad("%s: part failed, reported error is a different one: %v", where, err)
				}
				if n > op.R.Good*u+(u-1) {
					return Bad("%s: n=%d counts bytes that were not read (good=%d)", where, n, op.R.Good*u)
				}
				if op.Op == "read" {
					if _, err := r.Seek(op.Off*u64, io.SeekStart); err != nil {
						return Bad("%s: seek back: %v", where, err)
					}
				}
				continue
			}
			if n != len(want) {
				return Bad("%s: returned %d bytes err=%v, want %d", where, n, err, len(want))
			}
			switch {
			case op.R.EOF:
				if err != io.EOF {
					return Bad("%s: at or past the end, err=%v, want EOF", where, err)
				}
			case op.R.Short:
				if err != nil && err != io.EOF {
					return Bad("%s: err=%v", where, err)
				}
			default:
				if err != nil {
					return Bad("%s: err=%v", where, err)
				}
			}
		case "seek":
			got, err := r.Seek(op.Delta*u64, op.Whence)
			if err != nil || got != op.To*u64 {
				return Bad("op %d seek(%d, %d) = %d, %v; want %d", i, op.Delta*u64, op.Whence, got, err, op.To*u64)
			}
		case "wildseek":
			got, err := r.Seek(op.Delta*u64, op.Whence)
			if err == nil && got < 0 {
				return Bad("op %d seek(%d, %d) = %d", i, op.Delta*u64, op.Whence, got)
			}
			if err == nil {
				// reading where the seek claims to be must agree with the content: outside there is nothing
				b := make([]byte, 1)
				if got >= c.Size*u64 {
					n, e := r.Read(b)
					if n != 0 || e != io.EOF {
						return Bad("op %d: read at %d past the end = %d, %v", i, got, n, e)
					}
				}
			}
			if got, err := r.Seek(op.To*u64, io.SeekStart); err != nil || got != op.To*u64 {
				return Bad("op %d seek back to %d = %d, %v", i, op.To*u64, got, err)
			}
		default:
			Harness("unknown op %q", op.Op)
		}
	}
	return nil
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// FakeObject is a part whose reads can be made to fail.
type FakeObject struct {
	ID, Cells, Unit int
	Bad             map[int]bool
	EagerEOF        bool // report EOF together with the last bytes
	Closed          int
	Reads           int
	pos             int64
}

func (o *FakeObject) Size() int64 { return int64(o.Cells) * int64(o.Unit) }
func (o *FakeObject) Close() error {
	o.Closed++
	return nil
}
func (o *FakeObject) URL() string { return fmt.Sprintf("fake:%d", o.ID) }
func (o *FakeObject) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	return n, err
}
func (o *FakeObject) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += o.pos
	case 2:
		off += o.Size()
	}
	o.pos = off
	return off, nil
}
func (o *FakeObject) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	size := o.Size()
	if off >= size {
		return 0, io.EOF
	}
	n := int64(len(p))
	var err error
	if off+n > size {
		n = size - off
		err = io.EOF
	} else if off+n == size && o.EagerEOF {
		err = io.EOF
	}
	for i := int64(0); i < n; i++ {
		if o.Bad[int((off+i)/int64(o.Unit))] {
			return int(i), ErrInjected
		}
		p[i] = PatternByte(o.ID, off+i)
	}
	return int(n), err
}

// JSON renders v for messages.
func JSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
