package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	vh.Main(map[string]vh.Driver{"records": recordsDriver})
}

type octets []int

func (o octets) bytes() []byte {
	b := make([]byte, len(o))
	for i, v := range o {
		b[i] = byte(v)
	}
	return b
}

func (o octets) str() string { return string(o.bytes()) }

type word [2]int

func (w word) u() uint32 { return uint32(w[0])<<16 | uint32(w[1]) }

type stamp [7]int

func (s stamp) time() time.Time {
	return time.Date(s[0], time.Month(s[1]), s[2], s[3], s[4], s[5], s[6]*10000000, time.UTC)
}

type entry struct {
	T                          string
	Skip, Ver, Flags           int
	Start, Off, Len            word
	Mode, Nlink, Uid, Gid, Ino word
	Id, Desc, Src, Data        octets
	Cont, Long                 bool
	Times                      [7][]stamp
}

type dirRecord struct {
	Ext, Flags, Unit, Gap, Vol int
	Start, Length              word
	Time                       stamp
	Id                         octets
	Su                         []entry
}

type pvd struct {
	Strs                                             []octets
	Space, Ptsize, Lt, Lt2, Mt, Mt2, Rstart, Rlength word
	Setsize, Seqno                                   int
	Rtime                                            stamp
	Times                                            []stamp
}

type ptRecord struct {
	Id          octets
	Ext, Parent int
	Loc         word
}

type recordCase struct {
	K      string
	V      json.RawMessage
	Fits   bool
	Damage int
	Bytes  octets
	Big    octets
	Want   struct {
		Ok bool
		V  json.RawMessage
	}
}

func unmarshal(raw json.RawMessage, v interface{}) {
	vh.Must(json.Unmarshal(raw, v))
}

// make builds the entry with the exported constructors
func (e entry) make() (susp.SystemUseEntry, error) {
	switch e.T {
	case "SP":
		return susp.NewSharingProtocolEntry(byte(e.Skip)), nil
	case "ST":
		return susp.NewTerminatorEntry(), nil
	case "CE":
		return susp.NewContinuationAreaEntry(e.Start.u(), e.Off.u(), e.Len.u()), nil
	case "ER":
		return susp.NewExtensionsReferenceEntry(byte(e.Ver), e.Id.str(), e.Desc.str(), e.Src.str())
	case "NM":
		return rrip.NewNamePart(e.Data.str(), e.Cont)
	case "PX":
		return &rrip.PosixEntry{Mode: os.FileMode(e.Mode.u()), Nlink: e.Nlink.u(), Uid: e.Uid.u(), Gid: e.Gid.u(), Ino: e.Ino.u()}, nil
	case "SL":
		return rrip.NewSymlinkPart(rrip.SymlinkComponentFlag(e.Flags), e.Data.str(), e.Cont)
	case "TF":
		tf := &rrip.Timestamps{LongForm: e.Long}
		for i, p := range []**time.Time{&tf.Created, &tf.Modified, &tf.Access, &tf.Attributes, &tf.Backup, &tf.Expiration, &tf.Effective} {
			if len(e.Times[i]) == 1 {
				t := e.Times[i][0].time()
				*p = &t
			}
		}
		return tf, nil
	}
	vh.Harness("entry type %q", e.T)
	return nil, nil
}

// describe tells everything an entry says
func describe(e susp.SystemUseEntry) string {
	when := func(t *time.Time) string {
		if t == nil {
			return "-"
		}
		return t.UTC().Format("2006-01-02T15:04:05.000000000")
	}
	switch v := e.(type) {
	case *susp.ContinuationAreaEntry:
		return fmt.Sprintf("CE %d %d %d", v.ContinuationStart(), v.ContinuationOffset(), v.ContinuationLength())
	case *rrip.Name:
		return fmt.Sprintf("NM %q %v", v.Data(), v.Continue())
	case *rrip.PosixEntry:
		return fmt.Sprintf("PX %#x %d %d %d %d", uint32(v.Mode), v.Nlink, v.Uid, v.Gid, v.Ino)
	case *rrip.Symlink:
		c := v.Component()
		return fmt.Sprintf("SL %d %q %v", c.Flags(), c.Data(), v.Continue())
	case *rrip.Timestamps:
		return fmt.Sprintf("TF %v %s %s %s %s %s %s %s", v.LongForm, when(v.Created), when(v.Modified), when(v.Access), when(v.Attributes), when(v.Backup), when(v.Expiration), when(v.Effective))
	}
	// The remaining kinds tell nothing but their bytes
	var b bytes.Buffer
	if _, err := e.WriteTo(&b); err != nil {
		return fmt.Sprintf("%T %v", e, err)
	}
	return fmt.Sprintf("%T %x", e, b.Bytes())
}

func describeAll(es []susp.SystemUseEntry) []string {
	d := []string{}
	for _, e := range es {
		d = append(d, describe(e))
	}
	return d
}

func describeSpec(es []entry) []string {
	d := []string{}
	for _, e := range es {
		if e.T == "NM" { // may have characters that are not accepted
			d = append(d, fmt.Sprintf("NM %q %v", e.Data.str(), e.Cont))
			continue
		}
		s, err := e.make()
		vh.Must(err)
		d = append(d, describe(s))
	}
	return d
}

// deviation is an error of ours, not a refusal
type deviation struct{ error }

// refusal runs an encoder that may refuse with an error or give up
func refusal(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return f()
}

type encoder interface {
	WriteTo(w io.Writer) (int64, error)
}

func encode(e encoder, length int) ([]byte, error) {
	var b bytes.Buffer
	n, err := e.WriteTo(&b)
	if err != nil {
		return nil, err
	}
	if n != int64(b.Len()) {
		return nil, deviation{vh.Bad("%T wrote %d bytes and reports %d", e, b.Len(), n)}
	}
	if length >= 0 && length != b.Len() {
		return nil, deviation{vh.Bad("%T has length %d and wrote %d bytes", e, length, b.Len())}
	}
	return b.Bytes(), nil
}

func encodeEntries(es []susp.SystemUseEntry) ([]byte, error) {
	var out []byte
	for _, e := range es {
		b, err := encode(e, e.Len())
		if err != nil {
			return nil, err
		}
		if int(b[2]) != len(b) {
			return nil, deviation{vh.Bad("%s announces %d bytes and has %d", describe(e), b[2], len(b))}
		}
		out = append(out, b...)
	}
	return out, nil
}

func sameBytes(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			return vh.Bad("%s: byte %d of %d differs: encoded as %x, want %x", what, i, len(want), got, want)
		}
	}
	return vh.Bad("%s: encoded in %d bytes, want %d", what, len(got), len(want))
}

// outcome compares what was decoded with what the specification decodes.  Damaged bytes may be refused.
func (rc *recordCase) outcome(got interface{}, err error, want interface{}) error {
	if err != nil {
		if rc.Damage == 0 {
			return vh.Bad("%s %s does not decode: %v", rc.K, rc.V, err)
		}
		return nil
	}
	if !rc.Want.Ok {
		return nil
	}
	if !reflect.DeepEqual(got, want) {
		return vh.Bad("%s: bytes %x decode to %v, want %v", rc.K, rc.Bytes.bytes(), got, want)
	}
	return nil
}

func recordsDriver(c *vh.Case) error {
	var rc recordCase
	c.Decode(&rc)
	switch rc.K {
	case "entries":
		return rc.entries()
	case "name":
		return rc.name()
	case "link":
		return rc.link()
	case "dir":
		return rc.dir()
	case "pvd":
		return rc.pvd()
	case "table":
		return rc.table()
	}
	vh.Harness("kind %q", rc.K)
	return nil
}

func (rc *recordCase) entries() error {
	var es []entry
	unmarshal(rc.V, &es)
	var made []susp.SystemUseEntry
	var encoded []byte
	err := refusal(func() error {
		for _, e := range es {
			s, err := e.make()
			if err != nil {
				return err
			}
			made = append(made, s)
		}
		var err error
		encoded, err = encodeEntries(made)
		return err
	})
	if !rc.Fits {
		if err == nil {
			return vh.Bad("accepted entries that do not fit: %s", rc.V)
		}
		if d, ok := err.(deviation); ok {
			return d
		}
		return nil
	}
	if err != nil {
		return vh.Bad("%s: %v", rc.V, err)
	}
	if rc.Damage == 0 {
		if err := sameBytes("entries", encoded, rc.Bytes.bytes()); err != nil {
			return err
		}
	}
	got, err := iso9660.DecodeSystemUseEntries(bytes.NewReader(rc.Bytes.bytes()))
	var want []entry
	if rc.Want.Ok {
		unmarshal(rc.Want.V, &want)
	}
	return rc.outcome(describeAll(got), err, rc.ifOk(func() interface{} { return describeSpec(want) }))
}

func (rc *recordCase) ifOk(f func() interface{}) interface{} {
	if rc.Want.Ok {
		return f()
	}
	return nil
}

// spread checks a value that is spread over several entries
func (rc *recordCase) spread(value string, made []susp.SystemUseEntry, decode func([]susp.SystemUseEntry) (string, bool)) error {
	encoded, err := encodeEntries(made)
	if err != nil {
		return err
	}
	back, err := iso9660.DecodeSystemUseEntries(bytes.NewReader(encoded))
	if err != nil {
		return vh.Bad("the entries of %q do not decode: %v", value, err)
	}
	if got, ok := decode(back); !ok || got != value {
		return vh.Bad("%s %q comes back as %q, %v", rc.K, value, got, ok)
	}
	back, err = iso9660.DecodeSystemUseEntries(bytes.NewReader(rc.Bytes.bytes()))
	var got string
	if err == nil {
		var ok bool
		if got, ok = decode(back); !ok {
			err = fmt.Errorf("no %s", rc.K)
		}
	}
	var want octets
	if rc.Want.Ok {
		unmarshal(rc.Want.V, &want)
	}
	return rc.outcome(got, err, want.str())
}

func (rc *recordCase) name() error {
	var v octets
	unmarshal(rc.V, &v)
	made, err := rrip.NewName(v.str())
	if err != nil {
		return vh.Bad("name %q is refused: %v", v.str(), err)
	}
	return rc.spread(v.str(), made, rrip.DecodeName)
}

func (rc *recordCase) link() error {
	var v []octets
	unmarshal(rc.V, &v)
	made, err := rrip.NewSymlink(v[0].str())
	if err != nil {
		return vh.Bad("target %q is refused: %v", v[0].str(), err)
	}
	return rc.spread(v[0].str(), made, rrip.DecodeSymlink)
}

func (d dirRecord) make() (*iso9660.DirectoryRecord, error) {
	rec := &iso9660.DirectoryRecord{
		Identifier:               d.Id.str(),
		Start:                    iso9660.LogicalBlockAddress(d.Start.u()),
		Length:                   d.Length.u(),
		Flags:                    iso9660.FileFlag(d.Flags),
		Recorded:                 d.Time.time(),
		ExtendedAttrRecordLength: byte(d.Ext),
		FileUnitSize:             byte(d.Unit),
		InterleaveGap:            byte(d.Gap),
		VolumeID:                 uint16(d.Vol),
	}
	for _, e := range d.Su {
		s, err := e.make()
		if err != nil {
			return nil, err
		}
		rec.SystemUse = append(rec.SystemUse, s)
	}
	return rec, nil
}

func describeDir(r *iso9660.DirectoryRecord, su []string) string {
	return fmt.Sprintf("%q %d %d %d %s %d %d %d %d %q", r.Identifier, r.Start, r.Length, r.Flags, r.Recorded.UTC().Format(time.RFC3339Nano),
		r.ExtendedAttrRecordLength, r.FileUnitSize, r.InterleaveGap, r.VolumeID, su)
}

func (rc *recordCase) dir() error {
	var d dirRecord
	unmarshal(rc.V, &d)
	var rec *iso9660.DirectoryRecord
	var encoded []byte
	err := refusal(func() (err error) {
		if rec, err = d.make(); err != nil {
			return err
		}
		encoded, err = encode(rec, rec.Len())
		return err
	})
	if !rc.Fits {
		if err == nil {
			return vh.Bad("accepted a directory record that does not fit: %s", rc.V)
		}
		if d, ok := err.(deviation); ok {
			return d
		}
		return nil
	}
	if err != nil {
		return vh.Bad("%s: %v", rc.V, err)
	}
	if rc.Damage == 0 {
		if err := sameBytes("directory record", encoded, rc.Bytes.bytes()); err != nil {
			return err
		}
	}
	b := rc.Bytes.bytes()
	if len(b) == 0 {
		return nil
	}
	var got iso9660.DirectoryRecord
	err = iso9660.DecodeDirectoryRecord(bytes.NewReader(b[1:]), &got)
	return rc.outcome(describeDir(&got, describeAll(got.SystemUse)), err, rc.ifOk(func() interface{} {
		var want dirRecord
		unmarshal(rc.Want.V, &want)
		su := want.Su
		want.Su = nil
		w, err := want.make()
		vh.Must(err)
		return describeDir(w, describeSpec(su))
	}))
}

func (p pvd) make() *iso9660.PrimaryVolumeDescriptor {
	return &iso9660.PrimaryVolumeDescriptor{
		SystemIdentifier:            p.Strs[0].str(),
		VolumeIdentifier:            p.Strs[1].str(),
		VolumeSetIdentifier:         p.Strs[2].str(),
		PublisherIdentifier:         p.Strs[3].str(),
		DataPreparerIdentifier:      p.Strs[4].str(),
		ApplicationIdentifier:       p.Strs[5].str(),
		CopyrightFileIdentifier:     p.Strs[6].str(),
		AbstractFileIdentifier:      p.Strs[7].str(),
		BibliographicFileIdentifier: p.Strs[8].str(),
		VolumeSpaceSize:             p.Space.u(),
		VolumeSetSize:               uint16(p.Setsize),
		VolumeSequenceNumber:        uint16(p.Seqno),
		PathTableSize:               p.Ptsize.u(),
		LTableStart:                 iso9660.LogicalBlockAddress(p.Lt.u()),
		OptionalLTableStart:         iso9660.LogicalBlockAddress(p.Lt2.u()),
		MTableStart:                 iso9660.LogicalBlockAddress(p.Mt.u()),
		OptionalMTableStart:         iso9660.LogicalBlockAddress(p.Mt2.u()),
		RootStart:                   iso9660.LogicalBlockAddress(p.Rstart.u()),
		RootLength:                  p.Rlength.u(),
		RootModified:                p.Rtime.time(),
		Created:                     p.Times[0].time(),
		Modified:                    p.Times[1].time(),
		Effective:                   p.Times[2].time(),
	}
}

func (rc *recordCase) pvd() error {
	var p pvd
	unmarshal(rc.V, &p)
	encoded, err := encode(p.make(), 2048)
	if err != nil {
		return vh.Bad("%s: %v", rc.V, err)
	}
	// The application use and reserved areas are left to the implementation
	used := func(b []byte) []byte {
		if len(b) > 883 {
			return b[:883]
		}
		return b
	}
	if rc.Damage == 0 {
		if err := sameBytes("volume descriptor", used(encoded), used(rc.Bytes.bytes())); err != nil {
			return err
		}
	}
	tail := bytes.Repeat([]byte{7}, 4096)
	src := bytes.NewReader(append(rc.Bytes.bytes(), tail...))
	size := src.Len()
	var got iso9660.PrimaryVolumeDescriptor
	err = iso9660.DecodePrimaryVolumeDescriptor(src, &got)
	if read := size - src.Len(); read > 2048 {
		return vh.Bad("decoding a volume descriptor read %d bytes", read)
	}
	return rc.outcome(fmt.Sprintf("%+v", got), err, rc.ifOk(func() interface{} {
		var want pvd
		unmarshal(rc.Want.V, &want)
		return fmt.Sprintf("%+v", *want.make())
	}))
}

func (rc *recordCase) table() error {
	var rs []ptRecord
	unmarshal(rc.V, &rs)
	var pt iso9660.PathTable
	for _, r := range rs {
		pt.Records = append(pt.Records, iso9660.PathTableRecord{
			Identifier:                    r.Id.str(),
			ExtendedAttributeRecordLength: byte(r.Ext),
			Location:                      iso9660.LogicalBlockAddress(r.Loc.u()),
			ParentIndex:                   uint16(r.Parent),
		})
	}
	for _, o := range []struct {
		order binary.ByteOrder
		want  []byte
	}{{binary.LittleEndian, rc.Bytes.bytes()}, {binary.BigEndian, rc.Big.bytes()}} {
		var b bytes.Buffer
		var n int64
		err := refusal(func() (err error) {
			n, err = iso9660.NewPathTableEncoder(o.order, &b).Encode(&pt)
			return err
		})
		if !rc.Fits {
			if err == nil {
				return vh.Bad("accepted a path table with an identifier that does not fit: %s", rc.V)
			}
			continue
		}
		if err != nil {
			return vh.Bad("%s: %v", rc.V, err)
		}
		if n != int64(b.Len()) || n != iso9660.PathTableEncodedLen(&pt) {
			return vh.Bad("path table of %d bytes: %d reported, %d announced", b.Len(), n, iso9660.PathTableEncodedLen(&pt))
		}
		if err := sameBytes("path table", b.Bytes(), o.want); err != nil {
			return err
		}
	}
	return nil
}
