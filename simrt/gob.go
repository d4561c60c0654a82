package simrt

import (
	"encoding/gob"
	"io"
	"reflect"
)

// GobEncoder replaces gob.Encoder. The real encoder is used inside; its
// internal lock is mirrored by a simulated lock so that a task blocked in a
// write does not stop the simulator.
type GobEncoder struct {
	mu Mutex
	w  io.Writer
	e  *gob.Encoder
}

// NewGobEncoder replaces gob.NewEncoder.
func NewGobEncoder(w io.Writer) *GobEncoder { return &GobEncoder{w: w, e: gob.NewEncoder(w)} }

// Writer is the destination given at creation.
func (g *GobEncoder) Writer() io.Writer { return g.w }

// Encode mirrors gob.Encoder.Encode.
func (g *GobEncoder) Encode(v any) error {
	g.mu.Lock()
	defer g.mu.Unlock()
	c := HookEnter("gob.Encode", g, v)
	S.touch(v, false, "gob.Encode")
	err := g.e.Encode(v)
	c.Exit(&err)
	return err
}

// EncodeValue mirrors gob.Encoder.EncodeValue.
func (g *GobEncoder) EncodeValue(v reflect.Value) error { return g.Encode(v.Interface()) }

// GobDecoder replaces gob.Decoder.
type GobDecoder struct {
	mu Mutex
	r  io.Reader
	d  *gob.Decoder
}

// NewGobDecoder replaces gob.NewDecoder.
func NewGobDecoder(r io.Reader) *GobDecoder { return &GobDecoder{r: r, d: gob.NewDecoder(r)} }

// Reader is the source given at creation.
func (g *GobDecoder) Reader() io.Reader { return g.r }

// Decode mirrors gob.Decoder.Decode.
func (g *GobDecoder) Decode(v any) error {
	g.mu.Lock()
	defer g.mu.Unlock()
	c := HookEnter("gob.Decode", g, v)
	err := g.d.Decode(v)
	if err == nil {
		S.touch(v, true, "gob.Decode")
	}
	c.Exit(&err)
	return err
}
