package zzvhdisc

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"path"
	"strings"
)

// An independent reader of ISO 9660 / Rock Ridge volumes: it shares no code
// with the repository and describes what it finds as Layout.tla wants it.

type CE struct {
	LBA int `json:"lba"`
	Off int `json:"off"`
	Len int `json:"len"`
}

type IsoRec struct {
	Off   int    `json:"off"`
	Len   int    `json:"len"`
	ID    string `json:"id"`
	Start int    `json:"start"`
	Sec   int    `json:"sec"`
	Rem   int    `json:"rem"`
	Dir   bool   `json:"dir"`
	More  bool   `json:"more"`
	Ok    bool   `json:"ok"`
	Kind  string `json:"kind"`
	CE    []CE   `json:"ce"`

	name   string
	date   string
	size   int64
	target string
	mode   uint32
	nlink  uint32
	ino    uint32
}

type IsoDir struct {
	Start  int      `json:"start"`
	Sec    int      `json:"sec"`
	Parent int      `json:"parent"`
	ID     string   `json:"id"`
	Recs   []IsoRec `json:"recs"`

	path string
}

type IsoPath struct {
	ID     string `json:"id"`
	Loc    int    `json:"loc"`
	Parent int    `json:"parent"`
}

type IsoExt struct {
	Start int `json:"start"`
	Sec   int `json:"sec"`
	Rem   int `json:"rem"`
}

type IsoPvd struct {
	Ok     bool   `json:"ok"`
	Block  int    `json:"block"`
	Space  int    `json:"space"`
	PtSize int    `json:"ptsize"`
	L      int    `json:"l"`
	M      int    `json:"m"`
	Root   IsoExt `json:"root"`
}

// Iso is the description of a volume.
type Iso struct {
	Pvd       IsoPvd    `json:"pvd"`
	Term      bool      `json:"term"`
	TableSize bool      `json:"tablesize"`
	LT        []IsoPath `json:"l"`
	MT        []IsoPath `json:"m"`
	Dirs      []*IsoDir `json:"dirs"`
	Meta      int       `json:"meta"`
	MetaRem   int       `json:"metarem"`
	Space     int       `json:"space"`
	Full      int       `json:"full"`
	Dirty     int       `json:"dirty"`
	NZ        []int     `json:"nz"`
}

// Entry is one path of the volume as the independent reader sees it.
type Entry struct {
	Kind   string
	Size   int64
	Start  int
	Target string
	Mode   uint32
	Nlink  uint32
}

type isoReader struct {
	img  []byte
	used []bool // bytes that belong to a structure
	out  *Iso
	err  error
}

func (r *isoReader) fail(f string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}

func (r *isoReader) at(off, n int) []byte {
	if off < 0 || n < 0 || off+n > len(r.img) {
		r.fail("structure at byte %d of length %d lies outside the metadata of %d bytes", off, n, len(r.img))
		return make([]byte, n)
	}
	for i := off; i < off+n; i++ {
		r.used[i] = true
	}
	return r.img[off : off+n]
}

func both32(b []byte) (uint32, bool) {
	l, m := binary.LittleEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	return l, l == m
}

func both16(b []byte) (uint16, bool) {
	l, m := binary.LittleEndian.Uint16(b), binary.BigEndian.Uint16(b[2:])
	return l, l == m
}

func split(n int64) (int, int) { return int((n + 2047) / 2048), int(n % 2048) }

// ParseIso reads the metadata of a volume.
func ParseIso(img []byte) (*Iso, error) {
	r := &isoReader{img: img, used: make([]bool, len(img)), out: &Iso{Full: -1, NZ: []int{}}}
	o := r.out
	o.Meta, o.MetaRem = split(int64(len(img)))
	d := r.at(16*2048, 2048)
	if r.err != nil {
		return nil, r.err
	}
	ok := d[0] == 1 && string(d[1:6]) == "CD001" && d[6] == 1 && d[881] == 1
	space, ok1 := both32(d[80:])
	set, ok2 := both16(d[120:])
	seq, ok3 := both16(d[124:])
	block, ok4 := both16(d[128:])
	pt, ok5 := both32(d[132:])
	o.Pvd = IsoPvd{Ok: ok && ok1 && ok2 && ok3 && ok4 && ok5 && set == 1 && seq == 1, Block: int(block), Space: int(space), PtSize: int(pt),
		L: int(binary.LittleEndian.Uint32(d[140:])), M: int(binary.BigEndian.Uint32(d[148:]))}
	o.Space = int(space)
	if binary.LittleEndian.Uint32(d[144:]) != 0 || binary.BigEndian.Uint32(d[152:]) != 0 {
		r.fail("optional path tables named")
	}
	root := r.record(d[156:190], 0)
	if d[156] != 34 || root.ID != "00" || !root.Dir || !root.Ok {
		r.fail("bad root record in the descriptor: %+v", root)
	}
	o.Pvd.Root = IsoExt{root.Start, root.Sec, root.Rem}
	t := r.at(17*2048, 2048)
	o.Term = t[0] == 255 && string(t[1:6]) == "CD001" && t[6] == 1
	for _, b := range t[7:] {
		if b != 0 {
			o.Term = false
		}
	}
	var s1, s2 bool
	o.LT, s1 = r.table(o.Pvd.L, int(pt), binary.LittleEndian)
	o.MT, s2 = r.table(o.Pvd.M, int(pt), binary.BigEndian)
	o.TableSize = s1 && s2
	r.dir(root.Start, root.Sec, 1, "00", "/")
	for i := 0; i < len(o.Dirs) && r.err == nil; i++ {
		r.readDir(i)
	}
	if r.err == nil && (len(o.Dirs[0].Recs) == 0 || o.Dirs[0].Recs[0].date != root.date) {
		r.fail("the root record in the descriptor has another time than the root directory")
	}
	if r.err != nil {
		return nil, r.err
	}
	for i, b := range img {
		if b == 0 {
			continue
		}
		if n := i / 2048; len(o.NZ) == 0 || o.NZ[len(o.NZ)-1] != n {
			o.NZ = append(o.NZ, n)
		}
		if !r.used[i] {
			o.Dirty++
		}
	}
	return o, r.err
}

func (r *isoReader) table(lba, size int, bo binary.ByteOrder) (l []IsoPath, ok bool) {
	b := r.at(lba*2048, size)
	for len(b) > 0 && r.err == nil {
		if len(b) < 8 {
			return l, false
		}
		n := int(b[0])
		full := 8 + n + n%2
		if n == 0 || full > len(b) {
			return l, false
		}
		if b[1] != 0 || (n%2 == 1 && b[8+n] != 0) {
			r.fail("path table record %d: extended attributes %d", len(l), b[1])
		}
		l = append(l, IsoPath{hex.EncodeToString(b[8 : 8+n]), int(bo.Uint32(b[2:])), int(bo.Uint16(b[6:]))})
		b = b[full:]
	}
	return l, true
}

func (r *isoReader) dir(start, sec, parent int, id, p string) {
	for _, d := range r.out.Dirs {
		if d.Start == start {
			r.fail("directory %q and %q share the extent %d", clip(d.path), clip(p), start)
			return
		}
	}
	r.out.Dirs = append(r.out.Dirs, &IsoDir{Start: start, Sec: sec, Parent: parent, ID: id, path: p})
}

// record decodes the fixed part of a directory record.
func (r *isoReader) record(b []byte, off int) IsoRec {
	start, ok1 := both32(b[2:])
	size, ok2 := both32(b[10:])
	vol, ok3 := both16(b[28:])
	n := int(b[32])
	if 33+n > len(b) {
		r.fail("record at %d: identifier of %d bytes does not fit %d", off, n, len(b))
		return IsoRec{}
	}
	rec := IsoRec{Off: off, Len: int(b[0]), ID: hex.EncodeToString(b[33 : 33+n]), Start: int(start), size: int64(size), CE: []CE{}}
	rec.Sec, rec.Rem = split(int64(size))
	rec.Dir = b[25]&2 != 0
	rec.More = b[25]&0x80 != 0
	date := b[18:25]
	rec.date = string(date)
	okDate := date[1] >= 1 && date[1] <= 12 && date[2] >= 1 && date[2] <= 31 && date[3] < 24 && date[4] < 60 && date[5] < 60
	rec.Ok = ok1 && ok2 && ok3 && vol <= 1 && b[1] == 0 && n > 0 && b[25]&^0x82 == 0 && b[26] == 0 && b[27] == 0 && okDate
	return rec
}

func (r *isoReader) readDir(k int) {
	d := r.out.Dirs[k]
	size := d.Sec * 2048
	if d.Start*2048+size > len(r.img) {
		r.fail("directory %q lies outside the metadata", clip(d.path))
		return
	}
	b := r.img[d.Start*2048 : d.Start*2048+size]
	for off := 0; off < size && r.err == nil; {
		n := int(b[off])
		if n == 0 {
			off = (off/2048 + 1) * 2048
			continue
		}
		if n < 34 || off%2048+n > 2048 {
			r.fail("directory %q: record of length %d at %d", clip(d.path), n, off)
			return
		}
		raw := r.at(d.Start*2048+off, n)
		rec := r.record(raw, off)
		if r.err != nil {
			return
		}
		idLen := int(raw[32])
		su := 33 + idLen
		if su%2 == 1 {
			su++
		}
		r.systemUse(d, &rec, raw[su:])
		rec.Kind = "file"
		if rec.Dir {
			rec.Kind = "dir"
		} else if rec.mode&0170000 == 0120000 {
			rec.Kind = "link"
		}
		if (rec.mode&0170000 == 0040000) != rec.Dir {
			r.fail("directory %q: record %q has flags %v but mode %o", clip(d.path), clip(rec.name), rec.Dir, rec.mode)
		}
		d.Recs = append(d.Recs, rec)
		if rec.Dir && len(d.Recs) > 2 {
			r.dir(rec.Start, rec.Sec, k+1, rec.ID, path.Join(d.path, rec.name))
		}
		off += n
	}
}

func (r *isoReader) systemUse(d *IsoDir, rec *IsoRec, area []byte) {
	var name, target strings.Builder
	hasName, hasMode, slMore, nmMore := false, false, false, false
	compMore := false
	first := true
	for hops := 0; area != nil; hops++ {
		if hops > 1000 {
			r.fail("directory %q: endless continuation", clip(d.path))
			return
		}
		var next []byte
		for len(area) >= 4 {
			n := int(area[2])
			if n < 4 || n > len(area) || area[3] != 1 {
				r.fail("directory %q: system use entry % x of %d bytes", clip(d.path), area[:4], len(area))
				return
			}
			e := area[:n]
			switch string(e[:2]) {
			case "CE":
				lba, ok1 := both32(e[4:])
				off, ok2 := both32(e[12:])
				l, ok3 := both32(e[20:])
				if !ok1 || !ok2 || !ok3 || n != 28 || next != nil {
					r.fail("directory %q: bad CE", clip(d.path))
					return
				}
				rec.CE = append(rec.CE, CE{int(lba), int(off), int(l)})
				next = r.at(int(lba)*2048+int(off), int(l))
			case "NM":
				if hasName && !nmMore {
					r.fail("directory %q: second name", clip(d.path))
				}
				hasName = true
				switch {
				case e[4]&2 != 0:
					name.WriteString(".")
				case e[4]&4 != 0:
					name.WriteString("..")
				default:
					name.Write(e[5:])
				}
				nmMore = e[4]&1 != 0
			case "PX":
				hasMode = true
				var ok [5]bool
				rec.mode, ok[0] = both32(e[4:])
				rec.nlink, ok[1] = both32(e[12:])
				_, ok[2] = both32(e[20:])
				_, ok[3] = both32(e[28:])
				ok[4] = true
				if n >= 44 {
					rec.ino, ok[4] = both32(e[36:])
				}
				for _, x := range ok {
					if !x {
						r.fail("directory %q: PX byte orders differ", clip(d.path))
					}
				}
			case "SL":
				if !first && !slMore {
					r.fail("directory %q: second link", clip(d.path))
				}
				c := e[5:]
				for len(c) > 0 {
					if len(c) < 2 || 2+int(c[1]) > len(c) {
						r.fail("directory %q: bad link component", clip(d.path))
						return
					}
					if !first && !compMore && target.String() != "/" {
						target.WriteString("/")
					}
					first = false
					switch {
					case c[0]&2 != 0:
						target.WriteString(".")
					case c[0]&4 != 0:
						target.WriteString("..")
					case c[0]&8 != 0:
						target.WriteString("/")
					default:
						target.Write(c[2 : 2+int(c[1])])
					}
					compMore = c[0]&1 != 0
					c = c[2+int(c[1]):]
				}
				slMore = e[4]&1 != 0
			}
			area = area[n:]
		}
		for _, x := range area {
			if x != 0 {
				r.fail("directory %q: garbage after system use entries", clip(d.path))
			}
		}
		area = next
	}
	if nmMore || slMore || compMore {
		r.fail("directory %q: name or link does not end", clip(d.path))
	}
	if !hasMode {
		r.fail("directory %q: record without POSIX attributes", clip(d.path))
	}
	rec.name = name.String()
	rec.target = target.String()
	switch rec.ID {
	case "00":
		if hasName && rec.name != "." {
			r.fail("self entry named %q", rec.name)
		}
		rec.name = "."
	case "01":
		if hasName && rec.name != ".." {
			r.fail("parent entry named %q", rec.name)
		}
		rec.name = ".."
	default:
		if !hasName {
			r.fail("directory %q: record without name", clip(d.path))
		}
	}
}

// Entries lists the tree the reader found.
func (o *Iso) Entries() map[string]Entry {
	m := map[string]Entry{}
	for i, d := range o.Dirs {
		if i == 0 {
			m["/"] = Entry{Kind: "dir", Start: d.Start, Mode: d.Recs[0].mode, Nlink: d.Recs[0].nlink}
		}
		for j, rec := range d.Recs {
			if j < 2 {
				continue
			}
			p := path.Join(d.path, rec.name)
			if strings.Contains(rec.name, "/") || rec.name == "" {
				p = d.path + " bad name " + rec.name
			}
			e := m[p]
			if e.Kind != "" && j > 2 && d.Recs[j-1].More {
				e.Size += rec.size
			} else if e.Kind != "" {
				e.Kind = "twice"
			} else {
				e = Entry{rec.Kind, rec.size, rec.Start, rec.target, rec.mode, rec.nlink}
			}
			m[p] = e
		}
	}
	return m
}

// Blank clears what depends on the time of burning.
func Blank(img []byte) []byte {
	b := append([]byte(nil), img...)
	clear := func(off, n int) { copy(b[off:off+n], make([]byte, n)) }
	clear(16*2048+813, 68)
	clear(16*2048+174, 7)
	for i := 17 * 2048; i+4 < len(b); i++ {
		if b[i] == 'T' && b[i+1] == 'F' && b[i+3] == 1 {
			n := int(b[i+2])
			if i+n <= len(b) && n >= 5 {
				clear(i+5, n-5)
			}
		}
	}
	return b
}

// BlankDates clears the recording dates of the records of parsed directories.
func (o *Iso) BlankDates(img []byte) []byte {
	b := Blank(img)
	for _, d := range o.Dirs {
		for _, r := range d.Recs {
			off := d.Start*2048 + r.Off + 18
			copy(b[off:off+7], make([]byte, 7))
		}
	}
	return b
}

// Continuations lists where the continuation entries are that are reachable
// from records.
func (o *Iso) Continuations(img []byte) (l []int) {
	for i := 17 * 2048; i+28 <= len(img); i++ {
		if img[i] == 'C' && img[i+1] == 'E' && img[i+2] == 28 && img[i+3] == 1 {
			l = append(l, i)
		}
	}
	return
}

// PointCE makes the continuation entry at byte at refer to byte to.
func PointCE(img []byte, at, to int) {
	put := func(off int, v uint32) {
		binary.LittleEndian.PutUint32(img[at+off:], v)
		binary.BigEndian.PutUint32(img[at+off+4:], v)
	}
	put(4, uint32(to/2048))
	put(12, uint32(to%2048))
	put(20, uint32(at+28-to))
}
