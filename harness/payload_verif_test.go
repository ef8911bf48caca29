package rpmutils_test

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"fmt"
	"io"
	"path/filepath"
	"testing"

	kzstd "github.com/klauspost/compress/zstd"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"
)

// the standard library cannot write bzip2: one archive, compressed with another tool
const bz = "425a683931415926535958ad4d6a00004bff804c3008006401fcc0222414003364c010200064248a9ea3269a61a8c467a5181254340d1a00001ea54c6ccad1991700863f808ea7ce95dce24b009ecee43c8c8662dc2f2462664f70112ca83877318d62299cca40087fc023ccd24106011b00860043008e8047e2ee48a70a120b15a9ad40"

func compress(kind string, b []byte) []byte {
	var out bytes.Buffer
	var w io.WriteCloser
	var err error
	switch kind {
	case "gzip":
		w = gzip.NewWriter(&out)
	case "xz":
		w, err = xz.NewWriter(&out)
	case "lzma":
		w, err = lzma.NewWriter(&out)
	case "zstd":
		w, err = kzstd.NewWriter(&out)
	case "bzip2":
		d, _ := hex.DecodeString(bz)
		return d
	default:
		return b
	}
	if err != nil {
		panic(err)
	}
	w.Write(b)
	w.Close()
	return out.Bytes()
}

// entries lists what a reader of the archive sees
func entries(cr *cpio.Reader) string {
	s := ""
	for {
		h, err := cr.Next()
		if err != nil {
			if err != io.EOF {
				s += "error"
			}
			return s
		}
		b, err := io.ReadAll(cr)
		s += fmt.Sprintf("%q %o %q %v\n", h.Filename(), h.Mode(), b, err != nil)
	}
}

func TestVerifC22(t *testing.T) {
	search(t, func(r *R) string {
		if r.p(.05) {
			// no compressor named: only gzip's two bytes mean gzip
			body := []byte{[]byte{0x1f, 0x8b, 0x9f, 0, byte(r.Intn(256))}[r.Intn(5)], []byte{0x1f, 0x8b, 0x9f, 0, byte(r.Intn(256))}[r.Intn(5)], 8, 0, 0, 0, 0, 0, 0, 3}
			gz := body[0] == 0x1f && body[1] == 0x8b
			if gz && r.p(.5) {
				body[2] = 7
			}
			gen := &hb{}
			gen.u32(1096)
			p, err := rpmutils.ReadRpm(newChunks(r, pkg(false, &hb{}, gen, body)))
			if err != nil {
				return ""
			}
			if _, err := p.PayloadReader(); (err == nil) != (!gz || body[2] == 8) {
				return fmt.Sprintf("opening the payload %x without a compressor gives %v", body, err)
			}
			return ""
		}
		var es []*cent
		for i := r.Intn(4); i > 0; i-- {
			e := newc(r.fname(), 0100644, r.content())
			es = append(es, e)
		}
		plain := archive(es)
		kinds := []string{"gzip", "xz", "lzma", "zstd", "uncompressed", "bzip2"}
		kind := kinds[r.Intn(len(kinds)-1)]
		if r.p(.1) {
			kind = "bzip2"
			e := newc("./f", 0100644, bytes.Repeat([]byte("hello bzip2\n"), 40))
			e.f[fNlink] = 1
			plain = archive([]*cent{e})
		}
		body := compress(kind, plain)
		gen := &hb{}
		want := true
		if r.p(.5) {
			f := "cpio"
			if r.p(.3) {
				f = []string{"drpm", "", "cpi", "cpioo", "CPIO", r.word()}[r.Intn(6)]
			}
			gen.str(1124, 6, f)
			want = f == "cpio"
		}
		tagged := r.p(.7) || kind != "gzip" && kind != "uncompressed"
		if tagged {
			n := kind
			if r.p(.15) {
				n = []string{"", "gz", "none", "Gzip", "zstd ", "pigz", "lzip", r.word()}[r.Intn(8)]
				if n != kind {
					known := false
					for _, k := range kinds {
						known = known || n == k
					}
					if known {
						return ""
					}
					want = false
				}
			}
			gen.str(1125, []int32{6, 8, 9}[r.Intn(3)], n)
		} else if len(body) < 2 {
			want = false
		}
		gen.u32(1096)
		b := pkg(false, &hb{}, gen, body)
		r.log("payload %s, tags %v", kind, gen.idx)
		r.log("package: %s", hexs(b))
		open := func() (*chunks, *rpmutils.Rpm) {
			c := newChunks(r, b)
			p, err := rpmutils.ReadRpm(c)
			if err != nil {
				return c, nil
			}
			return c, p
		}
		c, p := open()
		if p == nil {
			return ""
		}
		if p, err := p.PayloadReader(); (err == nil) != want {
			return fmt.Sprintf("opening the payload gives %v", err)
		} else if err == nil {
			w := entries(cpio.NewReader(bytes.NewReader(plain)))
			g := entries(p)
			if w != g {
				return fmt.Sprintf("the payload reads as\n%s\nit holds\n%s", g, w)
			}
		}
		if c.closed {
			return "the caller's stream was closed"
		}
		c, p = open()
		if p, err := p.PayloadReaderExtended(); (err == nil) != want {
			return fmt.Sprintf("opening the payload with the file list gives %v", err)
		} else if err == nil {
			for {
				if _, err := p.Next(); err != nil {
					break
				}
			}
		}
		if c.closed {
			return "the caller's stream was closed by reading the files"
		}
		d, done := scratch()
		defer done()
		c, p = open()
		err := p.ExpandPayload(filepath.Join(d, "a"))
		err2 := cpio.Extract(bytes.NewReader(plain), filepath.Join(d, "b"))
		if c.closed {
			return "the caller's stream was closed by extraction"
		}
		if !want {
			if err == nil {
				return "an unknown payload was extracted"
			}
			return ""
		}
		if (err == nil) != (err2 == nil) {
			return fmt.Sprintf("extraction gives %v, the plain archive gives %v", err, err2)
		}
		if a, b := snapshot(filepath.Join(d, "a"), ""), snapshot(filepath.Join(d, "b"), ""); err == nil && len(a) != len(b) {
			return fmt.Sprintf("extraction gives\n%s\nthe archive holds\n%s", a, b)
		}
		return ""
	})
}
