package main

import (
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/lt"
)

type ltEnc[T lt.TransactionData[T]] struct {
	e *lt.Encoder[T]
	d *dist
}

func (e *ltEnc[T]) Add(tx any) bool { return e.e.AddTransaction(tx.(lt.Transaction[T])) }
func (e *ltEnc[T]) Produce(deg int) any {
	e.d.next = uint64(deg)
	return e.e.ProduceCodeword()
}
func (e *ltEnc[T]) Reset(ws int) {
	e.d = &dist{1}
	e.e.Reset(e.d, ws)
}

type ltDec[T lt.TransactionData[T]] struct {
	d   *lt.Decoder[T]
	raw func(T) string
}

type ltStub[T lt.TransactionData[T]] struct{ *lt.PendingCodeword[T] }

func (ltStub[T]) Free() {}

func (d *ltDec[T]) reps(txs []lt.Transaction[T]) []rep {
	var out []rep
	for i := range txs {
		tx := txs[i]
		out = append(out, rep{content: d.raw(tx.Data()), obj: func() string { return d.raw(tx.Data()) }})
	}
	return out
}

func (d *ltDec[T]) AddCw(cw any) (stubI, []rep) {
	s, txs := d.d.AddCodeword(cw.(lt.Codeword[T]))
	return ltStub[T]{s}, d.reps(txs)
}

func (d *ltDec[T]) AddTx(tx any) []rep { return d.reps(d.d.AddTransaction(tx.(lt.Transaction[T]))) }

func (d *ltDec[T]) Has(tx any) (bool, bool) {
	if h, ok := any(d.d).(interface {
		HasDecoded(lt.Transaction[T]) bool
	}); ok {
		return h.HasDecoded(tx.(lt.Transaction[T])), true
	}
	return false, false
}

func ltSystem[T lt.TransactionData[T]](name string, mk func(V) T, raw func(T) string) *system {
	clone := func(cw any) any {
		c := cw.(lt.Codeword[T])
		m, s := fields[lt.Codeword[T], T](&c)
		*m = append([]uint32(nil), *m...)
		var z T
		*s = z.XOR(*s)
		return c
	}
	return &system{
		name: name,
		newEnc: func(seed int64, salt [16]byte, ws int) encI {
			d := &dist{1}
			return &ltEnc[T]{lt.NewEncoder[T](rand.New(rand.NewSource(seed)), salt, d, ws), d}
		},
		newDec:  func(salt [16]byte, mem int) decI { return &ltDec[T]{lt.NewDecoder[T](salt, mem), raw} },
		newTx:   func(n int64) any { return lt.NewTransaction[T](mk(contentV(n))) },
		content: func(tx any) string { return raw(tx.(lt.Transaction[T]).Data()) },
		members: func(cw any) []uint32 {
			c := cw.(lt.Codeword[T])
			m, _ := fields[lt.Codeword[T], T](&c)
			return *m
		},
		symbol: func(cw any) string {
			c := cw.(lt.Codeword[T])
			_, s := fields[lt.Codeword[T], T](&c)
			return raw(*s)
		},
		clone: clone,
		flip: func(cw any, r *rand.Rand) any {
			c := clone(cw).(lt.Codeword[T])
			m, s := fields[lt.Codeword[T], T](&c)
			if r.Intn(2) == 0 {
				flipMembers(*m, r)
			} else {
				var v V
				v[r.Intn(4)] = 1 << r.Intn(64)
				*s = (*s).XOR(mk(v))
			}
			return c
		},
		xor:  xorStr,
		zero: string(make([]byte, 32)),
		hash: func(n int64) []byte { return contentV(n).sum() },
	}
}

func ltSystems() []*system {
	return []*system{
		ltSystem[VT]("lt-value", func(v V) VT { return VT{v} }, func(t VT) string { return string(t.V.bytes()) }),
		ltSystem[P]("lt-pointer", func(v V) P { d := PD(v); return &d }, func(t P) string {
			if t == nil {
				return string(make([]byte, 32))
			}
			return string(V(*t).bytes())
		}),
	}
}
