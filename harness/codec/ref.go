package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
)

// An independent encoder of the wire format.

type wr struct{ b []byte }

func (w *wr) u8(v uint8) *wr   { w.b = append(w.b, v); return w }
func (w *wr) u16(v uint16) *wr { w.b = binary.LittleEndian.AppendUint16(w.b, v); return w }
func (w *wr) be16(v uint16) *wr {
	w.b = append(w.b, byte(v>>8), byte(v))
	return w
}
func (w *wr) u32(v uint32) *wr   { w.b = binary.LittleEndian.AppendUint32(w.b, v); return w }
func (w *wr) u64(v uint64) *wr   { w.b = binary.LittleEndian.AppendUint64(w.b, v); return w }
func (w *wr) raw(b []byte) *wr   { w.b = append(w.b, b...); return w }
func (w *wr) bytes(b []byte) *wr { return w.cs(uint64(len(b))).raw(b) }
func (w *wr) boolean(v bool) *wr {
	if v {
		return w.u8(1)
	}
	return w.u8(0)
}

// cs is a compact size integer.
func (w *wr) cs(v uint64) *wr {
	switch {
	case v < 0xfd:
		return w.u8(uint8(v))
	case v <= 0xffff:
		return w.u8(0xfd).u16(uint16(v))
	case v <= 0xffffffff:
		return w.u8(0xfe).u32(uint32(v))
	}
	return w.u8(0xff).u64(v)
}

func envelope(magic [4]byte, cmd string, payload []byte) []byte {
	w := &wr{}
	w.raw(magic[:])
	c := make([]byte, 12)
	copy(c, cmd)
	w.raw(c).u32(uint32(len(payload)))
	h := sha256.Sum256(payload)
	h = sha256.Sum256(h[:])
	return w.raw(h[:4]).raw(payload).b
}

func pattern(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+13) ^ salt
	}
	return b
}

func hash32(salt byte) (h [32]byte) { copy(h[:], pattern(32, salt)); return }

// scanner of the wire format of transactions, headers and blocks: what does
// the longest length or count field ask for, in bytes?
type scan struct {
	b   []byte
	off int
	max uint64
}

type scanEnd struct{}

func (s *scan) take(n uint64) []byte {
	if n > s.max {
		s.max = n
	}
	if n == 0 {
		return nil
	}
	if s.off >= len(s.b) || n > 1<<26 {
		panic(scanEnd{})
	}
	// like the code's buffer, a short read yields zeros
	o := make([]byte, n)
	s.off += copy(o, s.b[s.off:])
	return o
}
func (s *scan) fixed(n int) []byte {
	if s.off+n > len(s.b) {
		panic(scanEnd{})
	}
	o := s.b[s.off : s.off+n]
	s.off += n
	return o
}
func (s *scan) u8() uint8   { return s.fixed(1)[0] }
func (s *scan) u32() uint32 { return binary.LittleEndian.Uint32(s.fixed(4)) }
func (s *scan) cs() uint64 {
	switch b := s.u8(); b {
	case 0xfd:
		return uint64(binary.LittleEndian.Uint16(s.fixed(2)))
	case 0xfe:
		return uint64(s.u32())
	case 0xff:
		return binary.LittleEndian.Uint64(s.fixed(8))
	default:
		return uint64(b)
	}
}
func (s *scan) vslice() []byte { return s.take(s.cs()) }
func (s *scan) vector() {
	n := s.cs()
	for i := uint64(0); i < n; i++ {
		s.vslice()
	}
}
func (s *scan) value() {
	switch v := s.u8(); v {
	case 0:
	case 1:
		s.take(8)
	case 8, 9:
		s.take(32)
	default:
		panic(scanEnd{})
	}
}
func (s *scan) tx() {
	s.u32()
	flag := s.u8()
	nin := s.cs()
	var in, out int
	for i := uint64(0); i < nin; i++ {
		s.take(32)
		ix := s.u32()
		s.vslice()
		s.u32()
		if ix != 0xffffffff && ix&(1<<31) != 0 {
			s.take(32)
			s.take(32)
			s.value()
			s.value()
		}
		in++
	}
	nout := s.cs()
	for i := uint64(0); i < nout; i++ {
		switch s.u8() {
		case 1, 10, 11:
			s.take(32)
		default:
			panic(scanEnd{})
		}
		s.value()
		if v := s.u8(); v >= 1 && v <= 3 {
			s.take(32)
		}
		s.vslice()
		out++
	}
	s.u32()
	if flag == 1 {
		for i := 0; i < in; i++ {
			s.vslice()
			s.vslice()
			s.vector()
			s.vector()
		}
		for i := 0; i < out; i++ {
			s.vslice()
			s.vslice()
		}
	}
}
func (s *scan) reserve() { // a list whose capacity is reserved up front
	n := s.cs()
	m := n
	if m < 1<<50 {
		m *= 24
	}
	if m > s.max {
		s.max = m
	}
	for i := uint64(0); i < n; i++ {
		s.vslice()
	}
}
func (s *scan) params() {
	switch s.u8() {
	case 0:
	case 1:
		s.vslice()
		s.u32()
		s.take(32)
	case 2:
		s.vslice()
		s.u32()
		s.vslice()
		s.vslice()
		s.reserve()
	default:
		panic(scanEnd{})
	}
}
func (s *scan) header() {
	v := s.u32()
	s.take(32)
	s.take(32)
	s.u32()
	s.u32()
	if v&(1<<31) != 0 {
		s.params()
		s.params()
		s.reserve()
		return
	}
	s.vslice()
	s.vslice()
}

// asksFor returns how many bytes the greediest length of the payload asks for.
func asksFor(cmd string, b []byte) (max uint64) {
	s := &scan{b: b}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(scanEnd); !ok {
				panic(fmt.Sprint("scan: ", r))
			}
		}
		max = s.max
	}()
	switch cmd {
	case "tx":
		s.tx()
	case "block":
		s.header()
		n := s.cs()
		for i := uint64(0); i < n; i++ {
			s.tx()
		}
	case "headers":
		n := s.cs()
		for i := uint64(0); i < n; i++ {
			s.header()
			s.cs()
		}
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
