// Replay harness: searches for a concrete input on which the real code breaks a
// property whose proof obligation failed.  Oracles here are written from the
// property text and the RPM format, independently of the code under test.
package rpmutils_test

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type R struct {
	*rand.Rand
	ints []int64
	strs []string
	note []string
}

var dictInts []int64
var dictStrs []string

func init() {
	if f := os.Getenv("VERIF_DICT"); f != "" {
		b, _ := os.ReadFile(f)
		var d struct {
			Ints []int64
			Strs []string
		}
		if json.Unmarshal(b, &d) == nil {
			dictInts, dictStrs = d.Ints, d.Strs
		}
	}
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// search runs f on successive pseudo-random inputs until it reports a failure
func search(t *testing.T, f func(r *R) string) {
	secs := envInt("VERIF_SECS", 2)
	seed := envInt("VERIF_SEED", 1)
	shard := envInt("VERIF_SHARD", 0)
	only := envInt("VERIF_ITER", -1)
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var cur, beat int64
	progress, _ := os.OpenFile(os.Getenv("VERIF_PROGRESS"), os.O_CREATE|os.O_WRONLY, 0o644)
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if b := atomic.LoadInt64(&beat); b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > 20*time.Second {
				fmt.Printf("FAILING-INPUT iter=%d the call does not return\n", atomic.LoadInt64(&cur))
				os.Exit(3)
			}
		}
	}()
	n := 0
	for i := 0; time.Now().Before(end) || only >= 0; i++ {
		if only >= 0 {
			i = only
		}
		atomic.StoreInt64(&cur, int64(i))
		atomic.AddInt64(&beat, 1)
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		r := &R{Rand: rand.New(rand.NewSource(int64(seed)*1000003 + int64(shard)*7919 + int64(i)*101)), ints: dictInts, strs: dictStrs}
		msg := protect(r, f)
		n++
		if msg != "" {
			fmt.Printf("FAILING-INPUT iter=%d shard=%d %s\n", i, shard, strings.ReplaceAll(msg, "\n", "\n    "))
			for _, x := range r.note {
				if len(x) > 6000 {
					x = x[:6000] + "..."
				}
				fmt.Printf("    %s\n", x)
			}
			t.FailNow()
		}
		if only >= 0 {
			break
		}
	}
	fmt.Printf("SEARCHED %d\n", n)
}

func protect(r *R, f func(r *R) string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if ownFault(st) {
				fmt.Printf("HARNESS-BUG %v\n%s\n", e, st)
				return
			}
			if len(st) > 2500 {
				st = st[:2500]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	return f(r)
}

// ownFault tells whether a panic started in the harness rather than in the code it calls
func ownFault(st string) bool {
	if k := strings.Index(st, "\npanic("); k >= 0 {
		st = st[k+1:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/src/") {
			return strings.Contains(l, "/zz_")
		}
	}
	return false
}

func (r *R) log(f string, a ...interface{}) { r.note = append(r.note, fmt.Sprintf(f, a...)) }

func (r *R) p(x float64) bool { return r.Float64() < x }

// num yields an interesting integer
func (r *R) num() int64 {
	switch r.Intn(9) {
	case 0, 1:
		if len(r.ints) > 0 {
			return r.ints[r.Intn(len(r.ints))] + int64(r.Intn(3)-1)
		}
	case 2:
		return int64(r.Intn(4))
	case 3:
		return int64(1)<<uint(r.Intn(63)) + int64(r.Intn(3)-1)
	case 4:
		return -(int64(1)<<uint(r.Intn(63)) + int64(r.Intn(3)-1))
	case 5:
		return r.Int63()
	case 6:
		return int64(r.Uint32())
	}
	return int64(r.Intn(40))
}

func (r *R) small() int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		if len(r.ints) > 0 {
			v := r.ints[r.Intn(len(r.ints))] + int64(r.Intn(3)-1)
			if v >= 0 && v < 70000 {
				return int(v)
			}
		}
		return 1
	case 2:
		return r.Intn(300)
	}
	return 1 + r.Intn(6)
}

const alnum = "abcxyzABZ0123456789"

// word yields a string without NUL
func (r *R) word() string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		if len(r.strs) > 0 {
			return strings.ReplaceAll(r.strs[r.Intn(len(r.strs))], "\x00", "")
		}
	case 2:
		b := make([]byte, r.Intn(8))
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		return string(b)
	}
	b := make([]byte, 1+r.Intn(6))
	for i := range b {
		b[i] = alnum[r.Intn(len(alnum))]
	}
	return string(b)
}

func (r *R) raw(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// ---- RPM headers -------------------------------------------------------------------------

type ient struct{ tag, typ, off, cnt int32 }
type hb struct {
	idx  []ient
	data []byte
}

func (h *hb) align(n int) {
	for len(h.data)%n != 0 {
		h.data = append(h.data, 0)
	}
}
func (h *hb) add(tag, typ, cnt int32, b []byte) {
	switch typ {
	case 3:
		h.align(2)
	case 4:
		h.align(4)
	case 5:
		h.align(8)
	}
	h.idx = append(h.idx, ient{tag, typ, int32(len(h.data)), cnt})
	h.data = append(h.data, b...)
}
func (h *hb) str(tag, typ int32, ss ...string) {
	var b []byte
	for _, s := range ss {
		b = append(append(b, s...), 0)
	}
	h.add(tag, typ, int32(len(ss)), b)
}
func (h *hb) u32(tag int32, vs ...uint32) {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	h.add(tag, 4, int32(len(vs)), b)
}
func (h *hb) u16(tag int32, vs ...uint16) {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint16(b, v)
	}
	h.add(tag, 3, int32(len(vs)), b)
}
func (h *hb) u64(tag int32, vs ...uint64) {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint64(b, v)
	}
	h.add(tag, 5, int32(len(vs)), b)
}
func (h *hb) bin(tag int32, b []byte) { h.add(tag, 7, int32(len(b)), b) }

func (h *hb) bytes(pad bool) []byte {
	var b []byte
	b = binary.BigEndian.AppendUint32(b, 0x8eade801)
	b = binary.BigEndian.AppendUint32(b, 0)
	b = binary.BigEndian.AppendUint32(b, uint32(len(h.idx)))
	b = binary.BigEndian.AppendUint32(b, uint32(len(h.data)))
	for _, e := range h.idx {
		for _, v := range []int32{e.tag, e.typ, e.off, e.cnt} {
			b = binary.BigEndian.AppendUint32(b, uint32(v))
		}
	}
	b = append(b, h.data...)
	if pad {
		for len(b)%8 != 0 {
			b = append(b, 0)
		}
	}
	return b
}

func lead(source bool) []byte {
	b := make([]byte, 96)
	copy(b, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0})
	if source {
		b[7] = 1
	}
	copy(b[10:], "name-1-1")
	b[78] = 0
	b[79] = 5
	return b
}

func pkg(source bool, sig, gen *hb, payload []byte) []byte {
	b := append(lead(source), sig.bytes(true)...)
	b = append(b, gen.bytes(false)...)
	return append(b, payload...)
}

// addRandom appends a well-formed entry of a random type
func (h *hb) addRandom(r *R, tag int32) { h.addTyped(r, tag, []int32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}[r.Intn(10)]) }

func (h *hb) addTyped(r *R, tag, typ int32) {
	n := r.small()
	if n > 400 {
		n = 400
	}
	if r.p(.4) {
		n = 1
	}
	val := func() uint64 { return uint64(r.num()) }
	switch typ {
	case 0:
		h.add(tag, 0, int32(n), nil)
	case 1, 2, 7:
		h.add(tag, typ, int32(n), r.raw(n))
	case 3:
		v := make([]uint16, n)
		for i := range v {
			v[i] = uint16(val())
		}
		h.u16(tag, v...)
	case 4:
		v := make([]uint32, n)
		for i := range v {
			v[i] = uint32(val())
		}
		h.u32(tag, v...)
	case 5:
		v := make([]uint64, n)
		for i := range v {
			v[i] = val()
		}
		h.u64(tag, v...)
	default:
		if typ == 6 && r.p(.8) {
			n = 1
		}
		v := make([]string, n)
		for i := range v {
			v[i] = r.word()
		}
		h.str(tag, typ, v...)
	}
}

// independent reading of a header area
type oent struct {
	typ, cnt int32
	data     []byte
}

// oparse returns the entries, the number of bytes used, and whether the area is well formed
func oparse(b []byte, pad bool) (map[int]oent, int, bool) {
	if len(b) < 16 || binary.BigEndian.Uint32(b) != 0x8eade801 {
		return nil, 0, false
	}
	ne, sz := int(binary.BigEndian.Uint32(b[8:])), int(binary.BigEndian.Uint32(b[12:]))
	if pad {
		sz = (sz + 7) / 8 * 8
	}
	if ne > 1<<20 || sz > 1<<28 || 16+16*ne+sz > len(b) {
		return nil, 0, false
	}
	data := b[16+16*ne : 16+16*ne+sz]
	out := map[int]oent{}
	for i := 0; i < ne; i++ {
		x := b[16+16*i:]
		g := func(k int) int32 { return int32(binary.BigEndian.Uint32(x[4*k:])) }
		tag, typ, off, cnt := g(0), g(1), g(2), g(3)
		if off < 0 || cnt < 0 || int(off) > len(data) {
			return nil, 0, false
		}
		end := int(off)
		width := map[int32]int{0: 0, 1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1}
		if w, ok := width[typ]; ok {
			end += w * int(cnt)
			if end > len(data) {
				return nil, 0, false
			}
		} else {
			for k := 0; k < int(cnt); k++ {
				z := bytes.IndexByte(data[end:], 0)
				if z < 0 {
					return nil, 0, false
				}
				end += z + 1
			}
		}
		out[int(tag)] = oent{typ, cnt, data[off:end]}
	}
	return out, 16 + 16*ne + sz, true
}

type opkg struct {
	source   bool
	sig, gen map[int]oent
	sigLen   int // signature header
	genLen   int
	total    int
}

func oread(b []byte) (*opkg, bool) {
	if len(b) < 96 || binary.BigEndian.Uint32(b) != 0xedabeedb {
		return nil, false
	}
	o := &opkg{source: b[6] == 0 && b[7] == 1}
	var ok bool
	if o.sig, o.sigLen, ok = oparse(b[96:], true); !ok {
		return nil, false
	}
	if o.gen, o.genLen, ok = oparse(b[96+o.sigLen:], false); !ok {
		return nil, false
	}
	o.total = 96 + o.sigLen + o.genLen
	return o, true
}

func (o *opkg) area(tag int) (map[int]oent, int) {
	if tag > 16384 {
		return o.sig, tag - 16384
	}
	if tag < 1000 {
		return o.sig, tag
	}
	return o.gen, tag
}

func (e oent) ints() ([]uint64, bool) {
	w := map[int32]int{1: 1, 2: 1, 3: 2, 4: 4, 5: 8}[e.typ]
	if w == 0 {
		return nil, false
	}
	v := []uint64{}
	for i := 0; i+w <= len(e.data); i += w {
		var x uint64
		for _, b := range e.data[i : i+w] {
			x = x<<8 | uint64(b)
		}
		v = append(v, x)
	}
	return v, true
}

func (e oent) strs() ([]string, bool) {
	if e.typ != 6 && e.typ != 8 && e.typ != 9 {
		return nil, false
	}
	v := []string{}
	d := e.data
	for i := 0; i < int(e.cnt); i++ {
		z := bytes.IndexByte(d, 0)
		v = append(v, string(d[:z]))
		d = d[z+1:]
	}
	return v, true
}

// chunks is a reader that returns its data in pieces
type chunks struct {
	r   *R
	b   []byte
	pos int
	err error // returned at the end instead of EOF
	// mode 0: everything at once, 1: random pieces, 2: one byte, 3: random pieces and data together with EOF
	mode   int
	closed bool
}

func newChunks(r *R, b []byte) *chunks { return &chunks{r: r, b: b, mode: r.Intn(4)} }
func (c *chunks) Close() error         { c.closed = true; return nil }
func (c *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	e := c.err
	if e == nil {
		e = io.EOF
	}
	if c.pos >= len(c.b) {
		return 0, e
	}
	n := len(c.b) - c.pos
	if n > len(p) {
		n = len(p)
	}
	switch c.mode {
	case 1, 3:
		if k := c.r.Intn(40); k == 0 {
			n = 1
		} else if n > 1 {
			n = 1 + c.r.Intn(n)
		}
	case 2:
		n = 1
	}
	copy(p, c.b[c.pos:c.pos+n])
	c.pos += n
	if c.mode == 3 && c.pos >= len(c.b) {
		return n, e
	}
	return n, nil
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }
