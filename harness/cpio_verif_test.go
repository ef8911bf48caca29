package rpmutils_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// ---- writing and independently reading archives -------------------------------------------

type cent struct {
	f        [13]uint32 // ino mode uid gid nlink mtime filesize devmajor devminor rdevmajor rdevminor namesize check
	name     string
	content  []byte
	stripped bool
	index    uint32
}

const fIno, fMode, fNlink, fSize, fNs = 0, 1, 4, 6, 11

func (e *cent) put(b []byte, hexf string) []byte {
	if e.stripped {
		b = append(b, "07070X"...)
		b = append(b, fmt.Sprintf(hexf, e.index)...)
	} else {
		b = append(b, "070701"...)
		for _, v := range e.f {
			b = append(b, fmt.Sprintf(hexf, v)...)
		}
		b = append(append(b, e.name...), 0)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
	}
	b = append(b, e.content...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

func newc(name string, mode uint32, content []byte) *cent {
	e := &cent{name: name, content: content}
	e.f[fMode], e.f[fNlink], e.f[fSize], e.f[fNs] = mode, 1, uint32(len(content)), uint32(len(name)+1)
	return e
}

func archive(es []*cent) []byte {
	var b []byte
	for _, e := range es {
		b = e.put(b, "%08x")
	}
	return newc("TRAILER!!!", 0, nil).put(b, "%08x")
}

type oent2 struct {
	f        [13]int
	name     string
	stripped bool
	index    int
	start    int // content position
	size     int64
	cut      bool // the padding after the name does not fit in the archive
}

// cparse reads an archive: the entries before the trailer, and whether there is a trailer
func cparse(b []byte, sizes []int64) (es []oent2, trailer bool) {
	q := int64(0)
	hx := func(p int64) (int, bool) {
		n := 0
		for _, c := range b[p : p+8] {
			k := strings.IndexByte("0123456789abcdef", c|0x20)
			if k < 0 || c < '0' {
				return 0, false
			}
			n = n*16 + k
		}
		return n, true
	}
	L := int64(len(b))
	for {
		if q > L-6 || q < 0 {
			return es, false
		}
		m := string(b[q : q+6])
		e := oent2{}
		if m == "07070X" {
			if q+14 > L {
				return es, false
			}
			var ok bool
			if e.index, ok = hx(q + 6); !ok || e.index >= len(sizes) {
				return es, false
			}
			e.stripped, e.start, e.size = true, int(q+14), sizes[e.index]
			if e.size < 0 || e.size > math.MaxInt64-q-17 {
				return es, false
			}
		} else if m == "070701" {
			if q+110 > L {
				return es, false
			}
			for i := range e.f {
				var ok bool
				if e.f[i], ok = hx(q + 6 + 8*int64(i)); !ok {
					return es, false
				}
			}
			ns := int64(e.f[fNs])
			if ns < 1 || q+110+ns > L {
				return es, false
			}
			e.name = string(b[q+110 : q+110+ns-1])
			e.start, e.size = int((q+110+ns+3)/4*4), int64(e.f[fSize])
			e.cut = int64(e.start) > L
			if e.name == "TRAILER!!!" {
				return es, !e.cut
			}
		} else {
			return es, false
		}
		es = append(es, e)
		q = int64(e.start) + e.size
		if q < 0 || q > math.MaxInt64-3 {
			return es, false
		}
		q = (q + 3) / 4 * 4
	}
}

// endsInTrailer tells whether the archive stops inside the padding of the trailer
func endsInTrailer(b []byte) bool {
	if len(b) > 16 {
		b = b[len(b)-16:]
	}
	return bytes.Contains(b, []byte("TRAILER!!!"))
}

func (r *R) mode() uint32 {
	k := []uint32{0100000, 0040000, 0120000, 0010000, 0060000, 0020000, 0140000, 0100000, 0100000}[r.Intn(9)]
	if r.p(.03) {
		k = uint32(r.Intn(0x10000))
	}
	return k | uint32(r.Intn(010000))
}

func (r *R) content() []byte {
	n := r.Intn(12)
	if r.p(.1) {
		n = r.Intn(3000)
	}
	return r.raw(n)
}

func (r *R) fname() string {
	if r.p(.9) {
		s := "abcde"[:1+r.Intn(5)]
		if r.p(.3) {
			s = "./" + s
		}
		return s
	}
	return r.word()
}

// genArchive makes an archive that is mostly well formed, and a size list
func genArchive(r *R) ([]byte, []int64) {
	var sizes []int64
	abbr := r.p(.5)
	if abbr || r.p(.2) {
		sizes = make([]int64, r.Intn(5))
		for i := range sizes {
			sizes[i] = int64(r.Intn(9))
			if r.p(.05) {
				sizes[i] = r.num()
			}
		}
	}
	var b []byte
	for n := r.Intn(6); n > 0; n-- {
		hf := "%08x"
		if r.p(.2) {
			hf = "%08X"
		}
		if abbr && r.p(.6) {
			e := &cent{stripped: true, index: uint32(r.Intn(len(sizes) + 1))}
			if r.p(.85) && len(sizes) > 0 {
				e.index = uint32(r.Intn(len(sizes)))
			}
			if int(e.index) < len(sizes) && sizes[e.index] > 0 && sizes[e.index] < 4000 {
				e.content = r.raw(int(sizes[e.index]))
			}
			b = e.put(b, hf)
			continue
		}
		e := newc(r.fname(), r.mode(), r.content())
		for i := range e.f {
			if i != fSize && i != fNs && i != fMode && r.p(.5) {
				e.f[i] = uint32(r.num())
			}
		}
		if r.p(.03) {
			e.f[fSize] = uint32(r.num())
		}
		if r.p(.03) {
			e.f[fNs] = uint32(r.Intn(40))
		}
		b = e.put(b, hf)
	}
	if r.p(.85) {
		b = newc("TRAILER!!!", 0, nil).put(b, "%08x")
		if r.p(.3) {
			b = append(b, make([]byte, r.Intn(600))...)
		}
	}
	if r.p(.2) && len(b) > 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	if r.p(.15) && len(b) > 0 {
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := r.Intn(len(b))
			b[p] = "0123456789abcdefABCDEFX+-_g\x00"[r.Intn(28)]
			if r.p(.3) {
				b[p] = byte(r.Intn(256))
			}
		}
	}
	// no huge names
	for i := 0; i+110 < len(b); i++ {
		if string(b[i:i+6]) == "070701" && string(b[i+94:i+98]) != "0000" && r.p(.97) {
			copy(b[i+94:], "0000")
		}
	}
	return b, sizes
}

func sameHeader(h *cpio.Cpio_newc_header, e *oent2) string {
	if h.IsStripped() != e.stripped {
		return "wrong kind of entry"
	}
	if h.Filesize64() != e.size {
		return fmt.Sprintf("Filesize64 %d, expected %d", h.Filesize64(), e.size)
	}
	if e.stripped {
		if h.Index() != e.index {
			return fmt.Sprintf("index %d, expected %d", h.Index(), e.index)
		}
		return ""
	}
	got := []int{h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), h.Devmajor(), h.Devminor(), h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check()}
	for i := range got {
		if got[i] != e.f[i] {
			return fmt.Sprintf("field %d is %#x, the archive stores %#x", i, got[i], e.f[i])
		}
	}
	if h.Filename() != e.name {
		return fmt.Sprintf("name %q, the archive stores %q", h.Filename(), e.name)
	}
	if h.Magic() != "070701" {
		return "magic " + h.Magic()
	}
	return ""
}

func TestVerifC16(t *testing.T) {
	search(t, func(r *R) string {
		b, sizes := genArchive(r)
		r.log("archive: %s", hexs(b))
		r.log("archive: %q", b)
		r.log("sizes: %v", sizes)
		es, trailer := cparse(b, sizes)
		c := newChunks(r, b)
		var cr *cpio.Reader
		if sizes == nil && r.p(.5) {
			cr = cpio.NewReader(c)
		} else {
			cr = cpio.NewReaderWithSizes(c, sizes)
		}
		for i := range es {
			h, err := cr.Next()
			if err != nil {
				if es[i].cut || i > 0 && es[i-1].cut {
					return ""
				}
				return fmt.Sprintf("entry %d: %v", i, err)
			}
			if m := sameHeader(h, &es[i]); m != "" {
				return fmt.Sprintf("entry %d: %s", i, m)
			}
			// read some of the content
			var got []byte
			want := int(r.Int63n(es[i].size%5000 + 1))
			if r.p(.3) {
				want = math.MaxInt32
			}
			var rerr error
			for len(got) < want && rerr == nil && len(got) < 1<<20 {
				p := make([]byte, 1+r.Intn(20))
				if r.p(.2) {
					p = make([]byte, 4096)
				}
				var n int
				n, rerr = cr.Read(p)
				got = append(got, p[:n]...)
			}
			st := es[i].start
			if st > len(b) {
				st = len(b)
			}
			all := b[st:]
			if int64(len(all)) > es[i].size {
				all = all[:es[i].size]
			}
			if !bytes.HasPrefix(all, got) {
				return fmt.Sprintf("entry %d: read %x, its content is %x", i, got, all)
			}
			if rerr == io.EOF && int64(len(got)) != es[i].size {
				return fmt.Sprintf("entry %d: end of file after %d of %d bytes", i, len(got), es[i].size)
			}
		}
		_, err := cr.Next()
		if trailer && err != io.EOF {
			return fmt.Sprintf("expected end of archive after %d entries, got %v", len(es), err)
		}
		if !trailer && (err == nil || err == io.EOF && !endsInTrailer(b)) {
			return fmt.Sprintf("the archive does not go on after %d entries and has no trailer, but Next returns %v", len(es), err)
		}
		return ""
	})
}

func TestVerifC18(t *testing.T) {
	search(t, func(r *R) string {
		b, sizes := genArchive(r)
		r.log("archive: %s", hexs(b))
		r.log("archive: %q", b)
		r.log("sizes: %v", sizes)
		es, _ := cparse(b, sizes)
		c := newChunks(r, b)
		cr := cpio.NewReaderWithSizes(c, sizes)
		if r.p(.1) {
			if n, err := cr.Read(make([]byte, 1)); n != 0 || err == nil {
				return fmt.Sprintf("reading before the first entry gives %d bytes, %v", n, err)
			}
		}
		for i := range es {
			if _, err := cr.Next(); err != nil {
				break
			}
			r.log("entry %d", i)
			st := es[i].start
			if st > len(b) {
				st = len(b)
			}
			all := b[st:]
			if int64(len(all)) > es[i].size {
				all = all[:es[i].size]
			}
			pos := 0
			steps := r.Intn(30)
			idle := 0
			for s := 0; s < steps; s++ {
				p := make([]byte, r.Intn(20))
				if r.p(.3) {
					p = make([]byte, r.Intn(5000))
				}
				n, err := cr.Read(p)
				if n < 0 || n > len(p) || pos+n > len(all) || !bytes.Equal(p[:n], all[pos:pos+n]) {
					return fmt.Sprintf("entry %d at %d: read %d bytes %x, the content goes on %x", i, pos, n, p[:n], all[pos:])
				}
				pos += n
				if (err == io.EOF) && int64(pos) != es[i].size {
					return fmt.Sprintf("entry %d: end of file after %d of %d bytes", i, pos, es[i].size)
				}
				if int64(pos) == es[i].size && n == 0 && err != io.EOF {
					return fmt.Sprintf("entry %d: no end of file after all %d bytes but %v", i, pos, err)
				}
				if err == nil && n == 0 && len(p) > 0 {
					if idle++; idle > 3 {
						return fmt.Sprintf("entry %d: neither data nor error at %d of %d bytes", i, pos, es[i].size)
					}
				}
				if err != nil && err != io.EOF && pos < len(all) {
					return fmt.Sprintf("entry %d: %v at %d, the archive holds %d more bytes", i, err, pos, len(all)-pos)
				}
			}
		}
		// the current entry is over once Next has gone past it
		for k := 0; k < 3; k++ {
			if _, err := cr.Next(); err != nil {
				if len(es) == 0 {
					break
				}
				last := es[len(es)-1]
				p := make([]byte, 50)
				n, err := cr.Read(p)
				st := last.start
				if st > len(b) {
					st = len(b)
				}
				all := b[st:]
				if int64(len(all)) > last.size {
					all = all[:last.size]
				}
				if n > len(all) || !bytes.HasSuffix(all, p[:n]) && !bytes.Contains(all, p[:n]) {
					return fmt.Sprintf("reading the last entry after the end gives %x, %v", p[:n], err)
				}
			}
		}
		return ""
	})
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "x")
	if err != nil {
		panic(err)
	}
	d, _ = filepath.EvalSymlinks(d)
	return d, func() {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				os.Chmod(p, 0o700)
			}
			return nil
		})
		os.RemoveAll(d)
	}
}

// filePkg makes a package whose file list and payload belong together
func filePkg(r *R) ([]byte, *hb, []byte) {
	n := r.Intn(5)
	var names []string
	gen := &hb{}
	var sz, mode []uint64
	var dev, ino []uint32
	var links []string
	var es []*cent
	abbr := r.p(.4)
	for i := 0; i < n; i++ {
		nm := "/" + r.fname()
		if r.p(.5) {
			nm = fmt.Sprintf("/f%d", i)
		}
		if r.p(.1) {
			nm = r.word()
		}
		names = append(names, nm)
		m := r.mode()
		if r.p(.6) {
			m = 0100644
		}
		mode = append(mode, uint64(m))
		d, k := uint32(r.Intn(2)), uint32(r.Intn(3))
		if r.p(.3) {
			k = uint32(r.num())
		}
		dev, ino = append(dev, d), append(ino, k)
		c := r.content()
		l := ""
		if m&0170000 == 0120000 {
			l = r.word()
			c = []byte(l)
		}
		links = append(links, l)
		sz = append(sz, uint64(len(c)))
		if r.p(.03) {
			sz[i] = uint64(r.num())
		}
		en := nm
		if r.p(.5) {
			en = "." + nm
		}
		e := newc(en, m, c)
		e.f[fIno] = k
		if r.p(.05) {
			e.name = r.fname()
			e.f[fNs] = uint32(len(e.name) + 1)
		}
		if r.p(.1) {
			e.content = nil
			e.f[fSize] = 0
		}
		if abbr && r.p(.8) {
			e = &cent{stripped: true, index: uint32(i), content: c}
			if r.p(.05) {
				e.index = uint32(r.Intn(7))
			}
			if r.p(.2) {
				e.content = nil
			}
		}
		es = append(es, e)
	}
	var ns []string
	ns = append(ns, names...)
	same := func(s string) []string {
		v := make([]string, n)
		for i := range v {
			v[i] = s
		}
		return v
	}
	if n > 0 {
		gen.str(1027, 8, ns...)
		if r.p(.5) {
			gen.u64(5008, sz...)
		} else {
			v := make([]uint32, n)
			for i := range v {
				v[i] = uint32(sz[i])
			}
			gen.u32(1028, v...)
		}
		v := make([]uint16, n)
		for i := range v {
			v[i] = uint16(mode[i])
		}
		gen.u16(1030, v...)
		gen.str(1039, 8, same("root")...)
		gen.str(1040, 8, same("root")...)
		gen.str(1035, 8, same("")...)
		gen.str(1036, 8, links...)
		gen.u32(1037, make([]uint32, n)...)
		gen.u32(1034, make([]uint32, n)...)
		if r.p(.8) {
			gen.u32(1095, dev...)
		}
		gen.u32(1096, ino...)
	}
	if r.p(.3) {
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	b := archive(es)
	if r.p(.1) {
		b = b[:r.Intn(len(b))]
	}
	if r.p(.1) && len(b) > 0 {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	if r.p(.5) {
		gen.str(1125, 6, "uncompressed")
	}
	return pkg(false, &hb{}, gen, b), gen, b
}

func TestVerifC17(t *testing.T) {
	search(t, func(r *R) string {
		b, sizes := genArchive(r)
		what := r.Intn(4)
		r.log("mode %d sizes: %v", what, sizes)
		r.log("archive: %s", hexs(b))
		r.log("archive: %q", b)
		c := newChunks(r, b)
		switch what {
		case 0, 1:
			cr := cpio.NewReaderWithSizes(c, sizes)
			for i := 0; i < 50; i++ {
				if r.p(.2) {
					cr.Read(make([]byte, r.Intn(100)))
				}
				h, err := cr.Next()
				if err != nil {
					if r.p(.5) {
						break
					}
					continue
				}
				if h.IsStripped() && (h.Index() < 0 || h.Index() >= len(sizes) || sizes[h.Index()] < 0) {
					return fmt.Sprintf("an entry with index %d was accepted, size list %v", h.Index(), sizes)
				}
				if h.Filesize64() < 0 {
					return fmt.Sprintf("an entry of size %d was accepted", h.Filesize64())
				}
				for k := r.Intn(4); k > 0; k-- {
					cr.Read(make([]byte, r.Intn(3000)))
				}
			}
		case 2:
			// link targets of hundreds of megabytes only cost time
			for i := 0; i+110 < len(b); i++ {
				if string(b[i:i+6]) == "070701" {
					copy(b[i+54:], "000")
				}
			}
			d, done := scratch()
			defer done()
			dest := filepath.Join(d, "a/b/c/d/e/f/g/h")
			if err := os.MkdirAll(dest, 0o755); err != nil {
				panic(err)
			}
			cpio.Extract(c, dest)
		case 3:
			p, _, pay := filePkg(r)
			r.log("package: %s", hexs(p))
			r.log("payload: %q", pay)
			rp, err := rpmutils.ReadRpm(newChunks(r, p))
			if err != nil {
				return ""
			}
			pr, err := rp.PayloadReaderExtended()
			if err != nil {
				return ""
			}
			for i := 0; i < 20; i++ {
				if r.p(.2) {
					pr.IsLink()
					pr.Read(make([]byte, 10))
				}
				f, err := pr.Next()
				if err == nil && f == nil {
					return "Next returns neither a file nor an error"
				}
				pr.IsLink()
				for k := r.Intn(4); k > 0; k-- {
					pr.Read(make([]byte, r.Intn(3000)))
				}
				if err != nil && r.p(.5) {
					break
				}
			}
		}
		return ""
	})
}

// ---- extraction -------------------------------------------------------------------------

// snapshot describes everything below d except what is below skip
func snapshot(d, skip string) string {
	var sb strings.Builder
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if p == skip {
			return filepath.SkipDir
		}
		if fi == nil {
			fmt.Fprintf(&sb, "%s ?\n", p)
			return nil
		}
		fmt.Fprintf(&sb, "%s %v nlink=%d", p, fi.Mode(), func() uint64 {
			if fi.IsDir() {
				return 0
			}
			return uint64(fi.Sys().(*syscall.Stat_t).Nlink)
		}())
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			fmt.Fprintf(&sb, " %q", b)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			fmt.Fprintf(&sb, " -> %q", l)
		}
		sb.WriteByte('\n')
		return nil
	})
	return sb.String()
}

func TestVerifC19(t *testing.T) {
	search(t, func(r *R) string {
		d, done := scratch()
		defer done()
		base := filepath.Join(d, "1/2/3/4/5")
		dest := filepath.Join(base, "dest")
		for _, p := range []string{"out", "dest", "destx", "out/sub"} {
			if p == "dest" && r.p(.3) {
				continue
			}
			if err := os.MkdirAll(filepath.Join(base, p), 0o755); err != nil {
				panic(err)
			}
		}
		for _, p := range []string{"out/secret", "out/sub/y", "destx/secret", "x", "secret", "passwd"} {
			os.WriteFile(filepath.Join(base, p), []byte("secret"), 0o644)
		}
		arg := dest
		if r.p(.15) {
			os.MkdirAll(dest, 0o755)
			arg = filepath.Join(base, "viadest")
			os.Symlink("dest", arg)
		}
		names := []string{"a", "b", "a/b", "a/b/c", "a/x", "b/y", "secret", "a/secret", "b/secret", "a/sub/y", "../x", "../../4/5/x", "./a", "/a", "a/../../secret", "..", ".", "../destx/secret",
			filepath.Join(base, "out/secret"), filepath.Join(base, "out/new"), "a/new", "b/new", "../out/new", "a//b", "..a", "a/../b", ".././out/secret", "..//out/secret", "/../out/secret", "a/..", "b/../../out/secret"}
		tgts := []string{"../out", "../../out", "../out/secret", filepath.Join(base, "out"), filepath.Join(base, "out/secret"), "..", ".", "a", "b", "../destx", "../passwd", "../out/new", "b/..", "a/../../out"}
		var es []*cent
		for n := 1 + r.Intn(6); n > 0; n-- {
			nm := names[r.Intn(len(names))]
			if r.p(.1) {
				if w := r.word(); strings.Count(w, "..") < 3 && !strings.HasPrefix(w, "/") {
					nm = w
				}
			}
			var e *cent
			switch r.Intn(7) {
			case 0:
				e = newc(nm, 0040755, nil)
			case 1, 2:
				e = newc(nm, 0120777, []byte(tgts[r.Intn(len(tgts))]))
			case 3:
				e = newc(nm, 0100644, []byte("evil"))
				e.f[fNlink], e.f[fIno] = 2, uint32(r.Intn(2))
			case 4:
				e = newc(nm, 0100644, nil)
				e.f[fNlink], e.f[fIno] = 2, uint32(r.Intn(2))
			case 5:
				e = newc(nm, 0010644, nil)
			default:
				e = newc(nm, 0100644, []byte("evil"))
			}
			es = append(es, e)
		}
		for _, e := range es {
			r.log("entry %q mode %#o nlink %d ino %d %q", e.name, e.f[fMode], e.f[fNlink], e.f[fIno], e.content)
		}
		before := snapshot(d, dest)
		err := cpio.Extract(newChunks(r, archive(es)), arg)
		after := snapshot(d, dest)
		if before != after {
			return fmt.Sprintf("extraction to %s (%v) changed files outside it\nbefore:\n%safter:\n%s", arg, err, before, after)
		}
		return ""
	})
}

func TestVerifC20(t *testing.T) {
	search(t, func(r *R) string {
		d, done := scratch()
		defer done()
		base := filepath.Join(d, "1/2/3")
		dest := filepath.Join(base, "dest")
		if err := os.MkdirAll(base, 0o755); err != nil {
			panic(err)
		}
		if r.p(.5) {
			os.MkdirAll(filepath.Join(dest, "d0"), 0o755)
			for _, p := range []string{"f0", "f1", "h0", "d0/f0", "l0"} {
				if r.p(.4) {
					os.WriteFile(filepath.Join(dest, p), []byte("old content, longer than the new one"), 0o644)
				}
			}
		}
		var es []*cent
		groups := map[uint32][]string{}
		gdata := map[uint32][]byte{}
		used := map[string]bool{}
		bad := false
		prefix := []string{"", "./", "/", "../", "d0/", "d0/../", "new/sub/", "TRAILER!!!", "new/TRAILER!!!", "TRAILER!!!/"}
		inos := []uint32{0, 1, 2, 0x100, 0x101, 0x10000, 0x10001, 1 << 30, 1<<31 - 1, 1<<31 + 1}
		r.Shuffle(len(inos), func(i, j int) { inos[i], inos[j] = inos[j], inos[i] })
		if r.p(.5) {
			// numbers that agree in their low bits
			k := uint32(r.Intn(3))
			inos[0], inos[1], inos[2] = k, k+0x100, k+0x10000
		}
		for n := 1 + r.Intn(7); n > 0; n-- {
			pre := prefix[r.Intn(len(prefix))]
			mk := func(k string) (string, bool) {
				nm := pre + k + strconv.Itoa(r.Intn(3))
				if strings.HasSuffix(pre, "!") && r.p(.5) {
					nm = "new/TRAILER!!!"
				}
				c := path.Clean("/" + nm)
				if used[c] {
					return "", false
				}
				used[c] = true
				return nm, true
			}
			switch r.Intn(9) {
			case 0:
				if nm, ok := mk("d"); ok {
					es = append(es, newc(nm, 0040755, nil))
				}
			case 1:
				if nm, ok := mk("l"); ok {
					es = append(es, newc(nm, 0120777, []byte([]string{r.word() + "x", "./" + r.word() + "x", "a//b", "../" + r.word() + "x/", "/x/../y", " x "}[r.Intn(6)])))
				}
			case 2:
				if nm, ok := mk("p"); ok {
					es = append(es, newc(nm, 0010644, nil))
				}
			case 3:
				if nm, ok := mk("c"); ok {
					es = append(es, newc(nm, 0020644|uint32(r.Intn(2))<<14, nil))
				}
			case 4, 5:
				ino := inos[r.Intn(3)]
				if gdata[ino] != nil {
					continue
				}
				k := 1 + r.Intn(3)
				for j := 0; j <= k; j++ {
					if nm, ok := mk("h"); ok {
						e := newc(nm, 0100644, nil)
						e.f[fIno], e.f[fNlink] = ino, 2+uint32(r.Intn(3))
						if j == k && len(groups[ino]) > 0 && r.p(.8) {
							e.content = append(r.content(), 'x')
							e.f[fSize] = uint32(len(e.content))
							gdata[ino] = e.content
						}
						groups[ino] = append(groups[ino], nm)
						es = append(es, e)
					}
				}
				if gdata[ino] == nil {
					gdata[ino] = []byte{}
				}
			default:
				if nm, ok := mk("f"); ok {
					es = append(es, newc(nm, 0100644, r.content()))
				}
			}
		}
		if r.p(.3) {
			// groups may be spread over the archive
			at := map[uint32][]int{}
			for i, e := range es {
				if e.f[fNlink] > 1 {
					at[e.f[fIno]] = append(at[e.f[fIno]], i)
				}
			}
			perm := r.Perm(len(es))
			ns := make([]*cent, len(es))
			for i, j := range perm {
				ns[j] = es[i]
			}
			// keep the order within a group
			seen := map[uint32]int{}
			for j, e := range ns {
				if e.f[fNlink] > 1 {
					ns[j] = es[at[e.f[fIno]][seen[e.f[fIno]]]]
					seen[e.f[fIno]]++
				}
			}
			es = ns
		}
		a := archive(es)
		if r.p(.05) && len(es) > 0 {
			es[r.Intn(len(es))].f[fMode] = []uint32{0140644, 0, 0030000, 0170000}[r.Intn(4)]
			a, bad = archive(es), true
		} else if r.p(.05) && len(a) > 130 {
			a, bad = a[:r.Intn(len(a)-124)], true
		}
		for _, e := range es {
			r.log("entry %q mode %#o nlink %d ino %d %q", e.name, e.f[fMode], e.f[fNlink], e.f[fIno], e.content)
		}
		err := cpio.Extract(newChunks(r, a), dest)
		if bad {
			if err == nil {
				return "a defective archive was extracted without error"
			}
			return ""
		}
		if err != nil {
			// a name may be in the way of another one
			if errors.Is(err, os.ErrExist) || errors.Is(err, syscall.ENOTDIR) || errors.Is(err, syscall.EISDIR) || errors.Is(err, syscall.EINVAL) || errors.Is(err, syscall.ENAMETOOLONG) || errors.Is(err, os.ErrNotExist) {
				return ""
			}
			return fmt.Sprintf("extraction failed: %v", err)
		}
		at := func(nm string) string { return filepath.Join(dest, path.Clean("/"+nm)) }
		for _, e := range es {
			fi, err := os.Lstat(at(e.name))
			kind := e.f[fMode] &^ 07777
			if kind == 0020000 || kind == 0060000 {
				if err == nil {
					return fmt.Sprintf("%s: device nodes are to be skipped", e.name)
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("%s: %v", e.name, err)
			}
			switch kind {
			case 0040000:
				if !fi.IsDir() {
					return e.name + " is not a directory"
				}
			case 0010000:
				if fi.Mode()&os.ModeNamedPipe == 0 {
					return e.name + " is not a fifo"
				}
			case 0120000:
				if l, err := os.Readlink(at(e.name)); err != nil || l != string(e.content) {
					return fmt.Sprintf("%s points to %q (%v), the entry stores %q", e.name, l, err, e.content)
				}
			default:
				if !fi.Mode().IsRegular() {
					return e.name + " is not a regular file"
				}
				want := e.content
				if e.f[fNlink] > 1 {
					want = gdata[e.f[fIno]]
				}
				if b, err := os.ReadFile(at(e.name)); err != nil || !bytes.Equal(b, want) {
					return fmt.Sprintf("%s holds %q (%v), expected %q", e.name, b, err, want)
				}
			}
		}
		for _, g := range groups {
			sort.Strings(g)
			for _, n := range g[1:] {
				x, e1 := os.Lstat(at(g[0]))
				y, e2 := os.Lstat(at(n))
				if e1 != nil || e2 != nil || !os.SameFile(x, y) {
					return fmt.Sprintf("%s and %s are not the same file", g[0], n)
				}
			}
		}
		return ""
	})
}

func TestVerifC21(t *testing.T) {
	search(t, func(r *R) string {
		b, _, pay := filePkg(r)
		r.log("package: %s", hexs(b))
		r.log("payload: %q", pay)
		o, ok := oread(b)
		if !ok {
			return ""
		}
		rp, err := rpmutils.ReadRpm(newChunks(r, b))
		if err != nil {
			return ""
		}
		pr, err := rp.PayloadReaderExtended()
		if err != nil {
			return ""
		}
		files, err := rp.Header.GetFiles()
		if err != nil {
			return ""
		}
		_ = o
		isReg := func(i int) bool { return files[i].Mode()&0170000 == 0100000 }
		link := make([]bool, len(files))
		sizes := make([]int64, len(files))
		byName := map[string]bool{}
		for i, f := range files {
			byName[f.Name()] = true
			if isReg(i) {
				sizes[i] = f.Size()
				for j := i + 1; j < len(files); j++ {
					if isReg(j) && files[j].Device() == f.Device() && files[j].Inode() == f.Inode() && (f.Device() != 0 || f.Inode() != 0) {
						link[i], sizes[i] = true, 0
					}
				}
			} else if f.Mode()&0170000 == 0120000 {
				sizes[i] = int64(len(f.Linkname()))
			}
		}
		es, trailer := cparse(pay, sizes)
		for i, e := range es {
			name := strings.TrimPrefix(e.name, ".")
			if !strings.HasPrefix(e.name, "./") {
				name = e.name
			}
			bad := !e.stripped && !byName[name]
			f, err := pr.Next()
			if bad {
				if err == nil || err == io.EOF {
					return fmt.Sprintf("entry %d %q matches no listed file but Next returns %v", i, e.name, err)
				}
				return ""
			}
			if err != nil {
				if e.cut || i > 0 && es[i-1].cut {
					return ""
				}
				return fmt.Sprintf("entry %d: %v", i, err)
			}
			k := -1
			for j := range files {
				if e.stripped && j == e.index || !e.stripped && files[j].Name() == name && eqv(files[j], f) {
					k = j
				}
			}
			if k < 0 || !eqv(files[k], f) {
				return fmt.Sprintf("entry %d %q index %d: got %+v", i, e.name, e.index, f)
			}
			dup := 0
			for j := range files {
				if eqv(files[j], f) {
					dup++
				}
			}
			if dup == 1 && pr.IsLink() != link[k] {
				return fmt.Sprintf("entry %d (%s): IsLink %v, expected %v", i, f.Name(), pr.IsLink(), link[k])
			}
			st := e.start
			if st > len(pay) {
				st = len(pay)
			}
			all := pay[st:]
			if int64(len(all)) > e.size {
				all = all[:e.size]
			}
			if r.p(.7) {
				got := make([]byte, 0)
				var rerr error
				for rerr == nil && len(got) < 1<<16 {
					p := make([]byte, 1+r.Intn(100))
					var n int
					n, rerr = pr.Read(p)
					got = append(got, p[:n]...)
				}
				if !bytes.Equal(got, all) {
					return fmt.Sprintf("entry %d (%s): content %x, expected %x", i, f.Name(), got, all)
				}
			}
		}
		if _, err := pr.Next(); trailer != (err == io.EOF) && (trailer || !endsInTrailer(pay)) {
			return fmt.Sprintf("after %d entries: Next returns %v, trailer %v", len(es), err, trailer)
		}
		return ""
	})
}
