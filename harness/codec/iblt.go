package main

import (
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/iblt"
)

type ibEnc[T iblt.TransactionData[T]] struct {
	e *iblt.Encoder[T]
	d *dist
}

func (e *ibEnc[T]) Add(tx any) bool { return e.e.AddTransaction(tx.(iblt.Transaction[T])) }
func (e *ibEnc[T]) Produce(deg int) any {
	e.d.next = uint64(deg)
	return e.e.ProduceCodeword()
}
func (e *ibEnc[T]) Reset(ws int) {
	e.d = &dist{1}
	e.e.Reset(e.d, ws)
}

type ibDec[T iblt.TransactionData[T]] struct {
	d   *iblt.Decoder[T]
	raw func(T) string
}

type ibStub[T iblt.TransactionData[T]] struct{ *iblt.PendingCodeword[T] }

func (ibStub[T]) Free() {}

func (d *ibDec[T]) reps(txs []iblt.Transaction[T]) []rep {
	var out []rep
	for i := range txs {
		tx := txs[i]
		out = append(out, rep{content: d.raw(tx.Data()), obj: func() string { return d.raw(tx.Data()) }})
	}
	return out
}

func (d *ibDec[T]) AddCw(cw any) (stubI, []rep) {
	s, txs := d.d.AddCodeword(cw.(iblt.Codeword[T]))
	return ibStub[T]{s}, d.reps(txs)
}

func (d *ibDec[T]) AddTx(tx any) []rep { return d.reps(d.d.AddTransaction(tx.(iblt.Transaction[T]))) }

func (d *ibDec[T]) Has(tx any) (bool, bool) {
	if h, ok := any(d.d).(interface {
		HasDecoded(iblt.Transaction[T]) bool
	}); ok {
		return h.HasDecoded(tx.(iblt.Transaction[T])), true
	}
	return false, false
}

func ibSystem[T iblt.TransactionData[T]](name string, mk func(V) T, raw func(T) string) *system {
	clone := func(cw any) any {
		c := cw.(iblt.Codeword[T])
		m, s := fields[iblt.Codeword[T], T](&c)
		*m = append([]uint32(nil), *m...)
		var z T
		*s = z.XOR(*s)
		return c
	}
	return &system{
		name: name,
		newEnc: func(seed int64, salt [16]byte, ws int) encI {
			d := &dist{1}
			return &ibEnc[T]{iblt.NewEncoder[T](rand.New(rand.NewSource(seed)), salt, d, ws), d}
		},
		newDec:  func(salt [16]byte, mem int) decI { return &ibDec[T]{iblt.NewDecoder[T](salt, mem), raw} },
		newTx:   func(n int64) any { return iblt.NewTransaction[T](mk(contentV(n))) },
		content: func(tx any) string { return raw(tx.(iblt.Transaction[T]).Data()) },
		members: func(cw any) []uint32 {
			c := cw.(iblt.Codeword[T])
			m, _ := fields[iblt.Codeword[T], T](&c)
			return *m
		},
		symbol: func(cw any) string {
			c := cw.(iblt.Codeword[T])
			_, s := fields[iblt.Codeword[T], T](&c)
			return raw(*s)
		},
		clone: clone,
		flip: func(cw any, r *rand.Rand) any {
			c := clone(cw).(iblt.Codeword[T])
			m, s := fields[iblt.Codeword[T], T](&c)
			if r.Intn(2) == 0 {
				flipMembers(*m, r)
			} else {
				var v V
				v[r.Intn(4)] = 1 << r.Intn(64)
				*s = (*s).XOR(mk(v))
			}
			return c
		},
		xor:  xorStr,
		zero: string(make([]byte, 32)),
		hash: func(n int64) []byte { return contentV(n).sum() },
	}
}

func ibSystems() []*system {
	return []*system{
		ibSystem[VT]("iblt-value", func(v V) VT { return VT{v} }, func(t VT) string { return string(t.V.bytes()) }),
		ibSystem[P]("iblt-pointer", func(v V) P { d := PD(v); return &d }, func(t P) string {
			if t == nil {
				return string(make([]byte, 32))
			}
			return string(V(*t).bytes())
		}),
	}
}
