package main

import (
	"encoding/binary"
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"golang.org/x/crypto/blake2b"
)

type ldpcEnc struct {
	e *ldpc.Encoder
	d *dist
}

func (e *ldpcEnc) Add(tx any) bool { return e.e.AddTransaction(tx.(*ldpc.Transaction)) }
func (e *ldpcEnc) Produce(deg int) any {
	e.d.next = uint64(deg)
	return e.e.ProduceCodeword()
}
func (e *ldpcEnc) Reset(ws int) {
	e.d = &dist{1}
	e.e.Reset(e.d, ws)
}

type ldpcDec struct{ d *ldpc.Decoder }

func (d *ldpcDec) reps(txs []ldpc.DecodedTransaction) []rep {
	var out []rep
	for i := range txs {
		tx := txs[i].Transaction
		out = append(out, rep{content: string(tx.Serialized()), expired: txs[i].Expired, obj: func() string { return string(tx.Serialized()) }})
	}
	return out
}

func (d *ldpcDec) AddCw(cw any) (stubI, []rep) {
	s, txs := d.d.AddCodeword(cw.(*ldpc.Codeword))
	return s, d.reps(txs)
}

func (d *ldpcDec) AddTx(tx any) []rep      { return d.reps(d.d.AddTransaction(tx.(*ldpc.Transaction))) }
func (d *ldpcDec) Has(tx any) (bool, bool) { return false, false }

func ldpcData(n int64) []byte {
	b := make([]byte, ldpc.TxSize)
	x := splitmix(uint64(n))
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], splitmix(x+uint64(i)))
	}
	binary.LittleEndian.PutUint64(b, uint64(n))
	return b
}

func ldpcSystem() *system {
	clone := func(cw any) any {
		c := *cw.(*ldpc.Codeword)
		c.Members = append([]uint32(nil), c.Members...)
		return &c
	}
	return &system{
		name: "ldpc",
		newEnc: func(seed int64, salt [16]byte, ws int) encI {
			d := &dist{1}
			return &ldpcEnc{ldpc.NewEncoder(salt, d, ws), d}
		},
		newDec: func(salt [16]byte, mem int) decI { return &ldpcDec{ldpc.NewDecoder(salt, mem)} },
		newTx: func(n int64) any {
			t := &ldpc.Transaction{}
			if err := t.UnmarshalBinary(ldpcData(n)); err != nil {
				panic(err)
			}
			return t
		},
		content: func(tx any) string { return string(tx.(*ldpc.Transaction).Serialized()) },
		members: func(cw any) []uint32 { return cw.(*ldpc.Codeword).Members },
		symbol:  func(cw any) string { return string(cw.(*ldpc.Codeword).Symbol[:]) },
		clone:   clone,
		flip: func(cw any, r *rand.Rand) any {
			c := clone(cw).(*ldpc.Codeword)
			if r.Intn(2) == 0 {
				flipMembers(c.Members, r)
			} else {
				c.Symbol[r.Intn(ldpc.TxSize)] ^= 1 << r.Intn(8)
			}
			return c
		},
		xor:  xorStr,
		zero: string(make([]byte, ldpc.TxSize)),
		hash: func(n int64) []byte { h := blake2b.Sum512(ldpcData(n)); return h[:] },
	}
}
