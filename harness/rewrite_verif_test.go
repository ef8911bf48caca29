package rpmutils_test

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// rwCase: one rewrite of a package in a scratch directory
type rwCase struct {
	dir    string
	in     string
	out    string
	data   []byte // the input file's bytes
	area   int    // old lead and signature header
	p      string // where the output goes, symbolic links followed
	before map[string][]byte
	names  map[string]string // other names of the input's file
	kind   string
	ipath  string
	old    []byte // bytes at p, nil if there is nothing
	same   bool   // p is the input's file and has no other name
	err    error
	h      *rpmutils.RpmHeader
	pipe   bool
}

func rwFiles(dir string) map[string][]byte {
	m := map[string][]byte{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			m[p] = b
		}
		return nil
	})
	return m
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func swap(r *R, b []byte) []byte {
	b = append([]byte{}, b...)
	if r.p(0.5) {
		return append(b, 1, 2, 3)
	}
	b[len(b)-1] ^= 1
	return b
}

func runRewrite(r *R) *rwCase {
	c := &rwCase{}
	var err error
	c.dir, err = os.MkdirTemp("", "rw")
	must(err)
	g, s := &hb{}, &hb{}
	g.str(1000, 6, "name")
	payload := r.raw(r.Intn(60))
	g.str(5092, 8, hexs(sum(5, payload)))
	g.u32(5093, 8)
	for i := r.Intn(4); i > 0; i-- {
		g.addTyped(r, int32(1100+r.Intn(40)), []int32{3, 4, 5, 6, 7, 8}[r.Intn(6)])
	}
	// signatures of the sizes that signing yields, so that the areas come out equal, smaller or larger
	var blobs [2][]byte
	for k := range blobs {
		blobs[k] = r.raw(1 + r.Intn(40))
	}
	if r.p(0.7) {
		s.bin(268, r.raw(len(blobs[1])+r.Intn(3)))
		s.u32(1000, uint32(len(payload)))
		s.bin(1002, r.raw(len(blobs[0])+r.Intn(3)))
	}
	if r.p(0.7) {
		s.bin(1008, make([]byte, r.Intn(60)))
	}
	ld := lead(false)
	if r.p(0.4) {
		ld[78+r.Intn(18)] ^= byte(1 + r.Intn(7))
	}
	c.area = 96 + len(s.bytes(true))
	c.data = append(append(append(ld, s.bytes(true)...), g.bytes(false)...), payload...)
	c.in = filepath.Join(c.dir, "in.rpm")
	c.out = filepath.Join(c.dir, "out.rpm")
	must(os.WriteFile(c.in, c.data, 0o644))
	c.ipath = c.in
	kinds := []string{"same", "same", "hardlink", "hardlink2", "symlink", "symlink-hardlink", "new", "other", "swapped", "swappedlink", "pipe", "dangling", "nodir"}
	c.kind = kinds[r.Intn(len(kinds))]
	c.p = c.out
	f, err := os.Open(c.in)
	must(err)
	defer func() { f.Close() }()
	switch c.kind {
	case "same":
		c.out, c.p = c.in, c.in
	case "hardlink":
		must(os.Link(c.in, c.out))
	case "hardlink2":
		must(os.Link(c.in, c.out))
		must(os.Link(c.in, c.out+"x"))
	case "symlink":
		must(os.Symlink(c.in, c.out))
		c.p = c.in
	case "symlink-hardlink":
		must(os.Link(c.in, filepath.Join(c.dir, "x.rpm")))
		must(os.Symlink(filepath.Join(c.dir, "x.rpm"), c.out))
		c.p = filepath.Join(c.dir, "x.rpm")
	case "other":
		must(os.WriteFile(c.out, r.raw(r.Intn(300)), 0o644))
	case "swapped":
		// another file has taken the input's name
		must(os.Rename(c.in, c.in+".old"))
		must(os.WriteFile(c.in, swap(r, c.data), 0o644))
		c.out, c.p = c.in, c.in
		c.ipath = c.in + ".old"
	case "pipe":
		f.Close()
		var w *os.File
		f, w, err = os.Pipe()
		must(err)
		go func() { _, _ = w.Write(c.data); w.Close() }()
		c.pipe = true
		if r.p(0.5) {
			must(os.WriteFile(c.out, r.raw(20), 0o644))
		}
	case "dangling":
		must(os.Symlink(filepath.Join(c.dir, "missing"), c.out))
		c.p = filepath.Join(c.dir, "missing")
	case "nodir":
		c.out = filepath.Join(c.dir, "none", "out.rpm")
		c.p = c.out
	}
	c.before = rwFiles(c.dir)
	if b, ok := c.before[c.p]; ok {
		c.old = b
		i1, _ := f.Stat()
		i2, _ := os.Lstat(c.p)
		n := 0
		for p := range c.before {
			if i3, e := os.Lstat(p); e == nil && os.SameFile(i2, i3) {
				n++
			}
		}
		c.same = os.SameFile(i1, i2) && n == 1
	}
	c.h, c.err = rpmutils.RewriteWithSignatures(f, c.out, blobs[0], blobs[1])
	r.log("kind %s area %d err %v package %x", c.kind, c.area, c.err, c.data)
	return c
}

func rewriteFault(c *rwCase) string {
	after := rwFiles(c.dir)
	for p, b := range c.before {
		if p != c.p && !bytes.Equal(after[p], b) {
			return fmt.Sprintf("%s: the bytes of %s changed", c.kind, filepath.Base(p))
		}
	}
	return ""
}

func TestVerifC14(t *testing.T) {
	search(t, func(r *R) string {
		c := runRewrite(r)
		defer os.RemoveAll(c.dir)
		after := rwFiles(c.dir)
		for p := range after {
			if _, ok := c.before[p]; !ok && p != c.p {
				return "left behind: " + filepath.Base(p)
			}
		}
		got, ok := after[c.p]
		if c.err != nil {
			if ok != (c.old != nil) || !bytes.Equal(got, c.old) {
				return "an error was returned but the output changed"
			}
			return ""
		}
		if !ok {
			return "no output"
		}
		if len(got) < 112 || !bytes.Equal(got[:96], c.data[:96]) {
			return "the lead changed"
		}
		o, good := oread(got)
		if !good {
			return "the output is no package"
		}
		_ = o
		rest := c.data[c.area:]
		if len(got) < 112+len(rest) || !bytes.Equal(got[len(got)-len(rest):], rest) {
			return "what follows the signature header changed"
		}
		n := len(got) - len(rest)
		if _, k, good := oparse(got[96:], true); !good || 96+k != n {
			return "the signature header does not fill its area"
		}
		return ""
	})
}

func TestVerifC15(t *testing.T) {
	search(t, func(r *R) string {
		c := runRewrite(r)
		defer os.RemoveAll(c.dir)
		if m := rewriteFault(c); m != "" {
			return m
		}
		if got, e := os.ReadFile(c.p); e == nil && c.err == nil && !c.same && !bytes.HasSuffix(got, c.data[c.area:]) {
			return "the output does not hold the input's package: another file was modified in place"
		}
		if c.err == nil && c.same {
			got, _ := os.ReadFile(c.p)
			rest := c.data[c.area:]
			if !bytes.HasSuffix(got, rest) {
				return "bytes beyond the signature area changed"
			}
			if _, k, good := oparse(got[96:], true); !good || 96+k+len(rest) != len(got) {
				return "the new signature area does not have the old one's length"
			}
		}
		return ""
	})
}
