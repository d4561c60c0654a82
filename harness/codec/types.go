package main

import (
	"crypto/sha256"
	"encoding/binary"
	"math/rand"
	"reflect"
	"unsafe"
)

// V is a transaction or symbol that is a plain value.
type V [4]uint64

func (a V) XOR(b V) V {
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}

func (a V) bytes() []byte {
	b := make([]byte, 32)
	for i, x := range a {
		binary.LittleEndian.PutUint64(b[8*i:], x)
	}
	return b
}

func (a V) sum() []byte {
	h := sha256.Sum256(a.bytes())
	return h[:16]
}

// P is a transaction or symbol that is a reference; XOR modifies its receiver.
type P = *PD

type PD [4]uint64

func (a *PD) XOR(b *PD) *PD {
	if a == nil {
		a = &PD{}
	}
	if b == nil {
		return a
	}
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}

// VT and PT are the flavours with the hash an LT code wants.
type VT struct{ V }

func (a VT) XOR(b VT) VT  { return VT{a.V.XOR(b.V)} }
func (a VT) Hash() []byte { return a.V.sum() }

func (a *PD) Hash() []byte { return V(*a).sum() }

// VS and PS are the flavours with the hash riblt wants.
type VS struct{ V }

func (a VS) XOR(b VS) VS  { return VS{a.V.XOR(b.V)} }
func (a VS) Hash() uint64 { return binary.LittleEndian.Uint64(a.V.sum()) }

type PSD struct{ V }
type PS = *PSD

func (a *PSD) XOR(b *PSD) *PSD {
	if a == nil {
		a = &PSD{}
	}
	if b == nil {
		return a
	}
	a.V = a.V.XOR(b.V)
	return a
}

func (a *PSD) Hash() uint64 { return binary.LittleEndian.Uint64(a.V.sum()) }

func splitmix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

func contentV(n int64) V {
	x := splitmix(uint64(n))
	return V{splitmix(x), splitmix(x + 1), splitmix(x + 2), uint64(n)}
}

// fields locates a codeword's member list and payload by their types.
func fields[C any, T any](c *C) (members *[]uint32, symbol *T) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		p := unsafe.Pointer(v.Field(i).UnsafeAddr())
		if v.Type().Field(i).Type == reflect.TypeOf([]uint32(nil)) && members == nil {
			members = (*[]uint32)(p)
		} else if v.Type().Field(i).Type == reflect.TypeOf((*T)(nil)).Elem() && symbol == nil {
			symbol = (*T)(p)
		}
	}
	return
}

type rep struct {
	content string
	expired bool
	obj     func() string // content as seen through the reported object
}

type dist struct{ next uint64 }

func (d *dist) Uint64() uint64 { return d.next }

type encI interface {
	Add(tx any) bool
	Produce(deg int) any
	Reset(ws int)
}

type stubI interface {
	Decoded() bool
	Free()
}

type decI interface {
	AddCw(cw any) (stubI, []rep)
	AddTx(tx any) []rep
	Has(tx any) (has bool, known bool)
}

type system struct {
	name    string
	newEnc  func(seed int64, salt [16]byte, ws int) encI
	newDec  func(salt [16]byte, mem int) decI
	newTx   func(n int64) any
	content func(tx any) string
	members func(cw any) []uint32
	symbol  func(cw any) string
	clone   func(cw any) any
	flip    func(cw any, r *rand.Rand) any
	xor     func(a, b string) string
	zero    string
	hash    func(n int64) []byte // what the codec hashes with its salt
}

func xorStr(a, b string) string {
	o := []byte(a)
	for i := range o {
		o[i] ^= b[i]
	}
	return string(o)
}

// flipMembers damages a member list.
func flipMembers(m []uint32, r *rand.Rand) {
	if len(m) == 0 {
		return
	}
	i := r.Intn(len(m))
	if r.Intn(4) == 0 {
		m[i] = m[r.Intn(len(m))]
	} else {
		m[i] ^= 1 << r.Intn(32)
	}
}
