package main

import (
	"bytes"
	"context"
	"encoding/xml"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	swiftdriver "github.com/NVIDIA/vdisc/pkg/storage/swift"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type listingCase struct {
	Items []string `json:"items"`
	Size  int      `json:"size"`
	Fault struct {
		Item int    `json:"item"`
		Kind string `json:"kind"`
	} `json:"fault"`
	Result string `json:"result"`
	Want   []int  `json:"want"`
	// not from the model
	Names  []string `json:"names"` // in key order
	Dir    string   `json:"dir"`   // the prefix, with its final slash
	URLDir string   `json:"urldir"`
	Scheme string   `json:"scheme"`
	Self   bool     `json:"self"` // an object with the name of the directory
	Null   bool     `json:"null"` // unversioned
	Stamps []string `json:"stamps"`
}

type listEntry struct {
	item               int
	key, version, kind string // kind: Version, DeleteMarker, CommonPrefixes
	latest             bool
	size               int64
	etag, stamp        string
}

func esc(s string) string {
	var b bytes.Buffer
	vh.Must(xml.EscapeText(&b, []byte(s)))
	return b.String()
}

var ambient = map[string]string{"AMBIENT": "ambient-secret", "AMBIENT:AUTH_acc": "ambient-secret"}

func listingDriver(c *vh.Case) error {
	var s listingCase
	c.Decode(&s)
	bucket := fmt.Sprintf("list-%d-%d-x", os.Getpid(), c.Index)
	// the entries of the directory, in order
	var es []listEntry
	if s.Self {
		es = append(es, listEntry{item: -1, key: s.Dir, version: "v", kind: "Version", latest: true, stamp: s.Stamps[0]})
	}
	for i, it := range s.Items {
		key := s.Dir + s.Names[i]
		v := func(n int, latest bool) listEntry {
			e := listEntry{item: i + 1, key: key, version: fmt.Sprintf("v%d-%d/ +x", i, n), kind: "Version", latest: latest, size: int64(i*1000 + n), etag: fmt.Sprintf(`"e%d-%d"`, i, n), stamp: s.Stamps[i%len(s.Stamps)]}
			if s.Null && latest {
				e.version = "null"
			}
			return e
		}
		switch it {
		case "one":
			es = append(es, v(1, true))
		case "old":
			es = append(es, v(2, true), v(1, false))
		case "older":
			es = append(es, v(3, true), v(2, false), v(1, false))
		case "gone":
			d := v(2, true)
			d.kind = "DeleteMarker"
			es = append(es, d, v(1, false))
		case "dir":
			es = append(es, listEntry{item: i + 1, key: key + "/", kind: "CommonPrefixes"})
		}
	}
	defer func() { leaveCloud(bucket) }()
	pages := 0
	served := false
	var bad error
	useCloud(bucket, func(w http.ResponseWriter, r *http.Request) {
		st := sight(r, nil, ambient)
		q := r.URL.Query()
		if _, ok := q["location"]; ok {
			io.WriteString(w, `<LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">eu-central-1</LocationConstraint>`)
			return
		}
		wantBucket, wantRegion := bucket, "eu-central-1"
		if s.Scheme == "swift" {
			wantBucket, wantRegion = "a.swift.example/"+bucket, "swift"
		}
		_, versions := q["versions"]
		if bad == nil && (!st.Signed || st.Bucket != wantBucket || st.Region != wantRegion || st.Key != "" || r.Method != "GET") {
			bad = vh.Bad("listing request: %+v", st)
		}
		if bad == nil && (!versions || q.Get("delimiter") != "/" || q.Get("prefix") != s.Dir) {
			bad = vh.Bad("listing request: %s", r.URL)
		}
		// where to go on
		at := 0
		if km := q.Get("key-marker"); km != "" {
			vm, vok := q["version-id-marker"]
			found := false
			for i, e := range es {
				if e.key < km || e.key == km && !(vok && e.kind != "CommonPrefixes") {
					at = i + 1
					found = found || e.key == km
				} else if e.key == km {
					found = true
					at = i + 1
					if e.version == vm[0] {
						break
					}
				}
			}
			if !found && bad == nil {
				bad = vh.Bad("listing goes on at %q", km)
			}
		}
		pages++
		to := at + s.Size
		if to > len(es) {
			to = len(es)
		}
		more := to < len(es)
		kind := ""
		for i := at; i < to; i++ {
			if es[i].item == s.Fault.Item && (i == 0 || es[i-1].item != es[i].item) {
				kind = s.Fault.Kind
			}
		}
		if kind == "nomarker" && !more {
			kind = ""
		}
		served = served || kind != ""
		var b bytes.Buffer
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
		root := "ListVersionsResult"
		if kind == "root" {
			root = "ListAllMyBucketsResult"
		}
		fmt.Fprintf(&b, `<%s xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>%s</Name><Prefix>%s</Prefix><MaxKeys>%d</MaxKeys><IsTruncated>%v</IsTruncated>`, root, bucket, esc(s.Dir), s.Size, more)
		if more && kind != "nomarker" {
			e := es[to-1]
			fmt.Fprintf(&b, "<NextKeyMarker>%s</NextKeyMarker>", esc(e.key))
			if e.kind != "CommonPrefixes" {
				fmt.Fprintf(&b, "<NextVersionIdMarker>%s</NextVersionIdMarker>", esc(e.version))
			}
		}
		write := func(e listEntry) {
			switch e.kind {
			case "CommonPrefixes":
				fmt.Fprintf(&b, "<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>", esc(e.key))
			case "DeleteMarker":
				fmt.Fprintf(&b, "<DeleteMarker><Key>%s</Key><VersionId>%s</VersionId><IsLatest>%v</IsLatest><LastModified>%s</LastModified></DeleteMarker>", esc(e.key), esc(e.version), e.latest, e.stamp)
			default:
				fmt.Fprintf(&b, "<Version><Key>%s</Key><VersionId>%s</VersionId><IsLatest>%v</IsLatest><LastModified>%s</LastModified><ETag>%s</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass></Version>",
					esc(e.key), esc(e.version), e.latest, e.stamp, esc(e.etag), e.size)
			}
		}
		for _, e := range es[at:to] {
			write(e)
		}
		switch kind {
		case "prefix":
			b.WriteString("<CommonPrefixes><Prefix>strange</Prefix></CommonPrefixes>")
		case "time":
			write(listEntry{key: s.Dir + "zz", version: "x", kind: "Version", latest: true, stamp: "yesterday"})
		case "number":
			fmt.Fprintf(&b, "<Version><Key>%szz</Key><IsLatest>true</IsLatest><LastModified>%s</LastModified><Size>12x</Size></Version>", esc(s.Dir), s.Stamps[0])
		}
		fmt.Fprintf(&b, "</%s>", root)
		switch kind {
		case "denied":
			w.WriteHeader(403)
			io.WriteString(w, "<Error><Code>AccessDenied</Code></Error>")
		case "server":
			w.WriteHeader(500)
		case "missing":
			w.WriteHeader(404)
			io.WriteString(w, "<Error><Code>NoSuchBucket</Code></Error>")
		case "nocontent":
			w.WriteHeader(204)
		case "malformed":
			w.Write(b.Bytes()[:b.Len()-12])
		case "cut":
			w.Header().Set("Content-Length", fmt.Sprint(b.Len()))
			w.Write(b.Bytes()[:b.Len()/2])
			w.(http.Flusher).Flush()
			conn, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				conn.(net.Conn).Close()
			}
		case "empty":
		default:
			w.Write(b.Bytes())
		}
	})
	timeout := 10 * time.Second
	if s.Fault.Kind == "server" {
		timeout = 700 * time.Millisecond
	}
	ctx := s3driver.CtxWithTimeout(swiftdriver.CtxWithTimeout(context.Background(), timeout), timeout)
	u := "s3://" + bucket + s.URLDir
	if s.Scheme == "swift" {
		u = "swift://a.swift.example/acc/" + bucket + s.URLDir
	}
	done := make(chan struct{})
	var fis []os.FileInfo
	var err error
	go func() {
		fis, err = storage.ReaddirContext(ctx, u)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return vh.Bad("listing does not end (%d pages asked for)", pages)
	}
	if bad != nil {
		return bad
	}
	result := s.Result
	if s.Fault.Kind == "nomarker" { // whether the page is the last one depends on what the client asks for
		result = "done"
		if served {
			result = "error"
		}
	}
	switch result {
	case "notfound":
		if !os.IsNotExist(err) {
			return vh.Bad("missing bucket: %d entries, %v", len(fis), err)
		}
		return nil
	case "error":
		if err == nil {
			return vh.Bad("%d entries although the page of entry %d was wrong (%s)", len(fis), s.Fault.Item, s.Fault.Kind)
		}
		if os.IsNotExist(err) && s.Fault.Kind != "missing" {
			return vh.Bad("taken for missing: %v", err)
		}
		return nil
	}
	if err != nil {
		return vh.Bad("listing: %v", err)
	}
	var want, got []string
	for _, i := range s.Want {
		if i < 1 {
			continue
		}
		for _, e := range es {
			if e.item != i || e.kind == "DeleteMarker" || e.kind == "Version" && !e.latest {
				continue
			}
			if e.kind == "CommonPrefixes" {
				want = append(want, fmt.Sprintf("%q dir", s.Names[i-1]))
			} else {
				t, err := time.Parse("2006-01-02T15:04:05.000Z", e.stamp)
				vh.Must(err)
				v := e.version
				if v == "null" {
					v = ""
				}
				want = append(want, fmt.Sprintf("%q file %d %v %s %s", s.Names[i-1], e.size, t.UTC(), e.etag, v))
			}
		}
	}
	for _, fi := range fis {
		if fi.IsDir() {
			got = append(got, fmt.Sprintf("%q dir", fi.Name()))
			continue
		}
		etag, version := "?", "?"
		if x, ok := fi.(interface{ ETag() string }); ok {
			etag = x.ETag()
		}
		if x, ok := fi.(interface{ Version() string }); ok {
			version = x.Version()
		}
		got = append(got, fmt.Sprintf("%q file %d %v %s %s", fi.Name(), fi.Size(), fi.ModTime().UTC(), etag, version))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return vh.Bad("%d pages of %d: listed %v instead of %v", pages, s.Size, got, want)
	}
	return nil
}
