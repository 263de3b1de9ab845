//go:build go1.23

package cg

import (
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"testing"

	"github.com/nanobus/iota/go/internal/zzverif/cg/reg"
	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/msgpack"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){"P42": p42, "P43": p43})
}

// generated judges that the generator wrote compilable code for every model.
func generated(r *vlib.R) []*model {
	ms, err := load()
	if err != nil {
		r.T.Fatal(err)
	}
	var fails map[string]string
	if b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_WORK"), "gen", "fails.json")); err == nil {
		_ = json.Unmarshal(b, &fails)
	}
	var ok []*model
	r.Cases("compile", len(ms), func(c *vlib.C) {
		m := ms[c.Idx]
		c.Count("models", 1)
		if m.Failed != "" {
			c.Failf("generator", "model %s: %.1500s", m.Name, m.Failed)
		} else if f, bad := fails[m.Name]; bad {
			c.Failf("does-not-compile", "the code generated for model %s does not compile: %.1500s", m.Name, f)
		}
	})
	for _, m := range ms {
		if m.Failed == "" && fails[m.Name] == "" {
			ok = append(ok, m)
		}
	}
	return ok
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// p42: the generated codecs write what they are given and read what was written.
func p42(r *vlib.R) {
	ms := generated(r)
	if len(ms) == 0 {
		return
	}
	var with []*model
	for _, m := range ms {
		if len(m.Types) > 0 {
			with = append(with, m)
		}
	}
	ms = with
	r.Cases("codec", r.N(16000, 200000), func(c *vlib.C) {
		m := ms[c.Rng.Intn(len(ms))]
		t := m.Types[c.Rng.Intn(len(m.Types))]
		mk := reg.Types[m.Name][t.Name]
		if mk == nil {
			c.Failf("missing", "no %s of model %s", t.Name, m.Name)
			return
		}
		codec(c, m, t, mk)
	})
}

func deref(x msgpack.Codec) reflect.Value { return reflect.ValueOf(x).Elem() }

func codec(c *vlib.C, m *model, t *typ, mk func() msgpack.Codec) {
	d := &drawer{m: m, rng: c.Rng, budget: 400}
	x := mk()
	v, want := d.object(t, deref(x).Type(), 4)
	deref(x).Set(v)
	what := func() string { return m.Name + " " + t.String() }

	// the writer
	var b []byte
	var err error
	c.Guard("panic", func() { b, err = msgpack.ToBytes(x) })
	if c.Failed() {
		return
	}
	c.Nontrivial("%s %s %x", m.Name, t.Name, b)
	if err != nil {
		c.Failf("encode", "%s: %v not written: %v", what(), short(want), err)
		return
	}
	got, rest, perr := refs.Parse(b, 1000)
	if perr != nil || len(rest) != 0 {
		c.Failf("encoding", "%s: %v written as %x: %v, %d bytes left", what(), short(want), cut(b), perr, len(rest))
		return
	}
	if err := m.agreeTop(t, want, got); err != nil {
		c.Failf("encoding", "%s: written as %x: %v", what(), cut(b), err)
		return
	}
	c.Count("written_"+t.Kind, 1)
	c.Count("fields", len(want.A)/2)

	// the reader, of what was written and of what others may write
	read := func(class string, data []byte, want refs.V) bool {
		y := mk()
		whole := append(append([]byte{}, data...), 0x2a)
		dec := msgpack.NewDecoder(whole)
		var err error
		c.Guard("panic", func() { err = y.Decode(&dec) })
		if c.Failed() {
			return false
		}
		if err != nil {
			c.Failf(class, "%s: %x (%v) not read: %v", what(), cut(data), short(want), err)
			return false
		}
		if err := m.agreeTop(t, want, m.viewObject(t, deref(y))); err != nil {
			c.Failf(class, "%s: %x read: %v", what(), cut(data), err)
			return false
		}
		if n, err := dec.ReadInt8(); err != nil || n != 42 {
			c.Failf(class, "%s: %x: the reader did not stop at the end (%v, %v)", what(), cut(data), n, err)
			return false
		}
		return true
	}
	if !read("round-trip", b, want) {
		return
	}
	c.Count("read_back", 1)
	foreign := want
	if want.K == refs.KMap {
		foreign = shuffled(d, t, want)
	}
	if !read("foreign", foreign.Append(nil, c.Rng), want) {
		return
	}
	c.Count("foreign", 1)
	if t.Kind != "union" && len(t.Fields) > 0 {
		// absent fields stay what they are
		part := refs.V{K: refs.KMap}
		expect := m.viewObject(t, deref(mk()))
		for i, f := range t.Fields {
			if c.Rng.Intn(2) == 0 {
				w, _ := find(want, refs.Str(f.Name))
				part.A = append(part.A, refs.Str(f.Name), w)
				expect.A[2*i+1] = w
			}
		}
		part = shuffled(d, t, part)
		if !read("absent", part.Append(nil, c.Rng), expect) {
			return
		}
		c.Count("absent", 1)
		// a field of another type is refused
		n := c.Rng.Intn(len(t.Fields))
		bad := refs.V{K: refs.KMap, A: append([]refs.V{}, want.A...)}
		bad.A[2*n+1] = d.wrong(t.Fields[n].Type)
		refuse(c, "mistyped", what, mk, bad.Bytes())
	}
	// nothing less than the whole is accepted
	for i := 0; i < 4; i++ {
		n := c.Rng.Intn(len(b))
		if i == 0 {
			n = len(b) - 1
		}
		refuse(c, "cut", what, mk, b[:n])
	}
	// nil
	if c.Rng.Intn(8) == 0 {
		nilPtr := reflect.Zero(reflect.TypeOf(x)).Interface().(msgpack.Codec)
		c.Guard("panic", func() { b2, err := msgpack.ToBytes(nilPtr); checkNil(c, what(), b2, err) })
	}
	// damaged and lying bytes
	for i := 0; i < 3; i++ {
		h := append([]byte{}, b...)
		switch c.Rng.Intn(4) {
		case 0:
			for k := 1 + c.Rng.Intn(3); k > 0; k-- {
				h[c.Rng.Intn(len(h))] = byte(c.Rng.Intn(256))
			}
		case 1:
			at := c.Rng.Intn(len(h) + 1)
			h = append(append(append([]byte{}, h[:at]...), []byte{[]byte{0xdd, 0xdf, 0xc6, 0xdb}[c.Rng.Intn(4)], 0x7f, 0xff, 0xff, byte(c.Rng.Intn(256))}...), h[at:]...)
		case 2:
			h = make([]byte, c.Rng.Intn(40))
			c.Rng.Read(h)
		case 3:
			h = liar(d, t)
		}
		y := mk()
		dec := msgpack.NewDecoder(h)
		limit := uint64(4<<20 + 20000*len(h))
		var a uint64
		c.Guard("panic", func() { a = allocated(func() { _ = y.Decode(&dec) }) })
		if a > limit {
			c.Failf("allocation", "%s: reading %x allocated %d bytes", what(), cut(h), a)
		}
		c.Count("hostile", 1)
	}
	c.Sample("%s: %x", what(), cut(b))
}

// liar announces more items than there are in a list or map of the type.
func liar(d *drawer, t *typ) []byte {
	for _, i := range d.rng.Perm(len(t.Fields)) {
		f := t.Fields[i]
		k := f.Type
		for k.K == "opt" || k.K == "alias" {
			k = k.T
		}
		if k.K == "list" || k.K == "map" {
			b := refs.Str(f.Name).Append([]byte{0x81}, nil)
			if k.K == "list" {
				b = append(b, 0xdd)
			} else {
				b = append(b, 0xdf)
			}
			return append(b, byte(d.rng.Intn(256)), 0xff, 0xff, 0xff)
		}
	}
	return []byte{0xdf, 0xff, 0xff, 0xff, 0xff, 0xa1, 'x', 1}
}

func checkNil(c *vlib.C, what string, b []byte, err error) {
	if err != nil || len(b) != 1 || b[0] != 0xc0 {
		c.Failf("nil", "%s: a nil pointer written as %x (%v), want nil", what, b, err)
	}
	c.Count("nils", 1)
}

func refuse(c *vlib.C, class string, what func() string, mk func() msgpack.Codec, b []byte) {
	y := mk()
	dec := msgpack.NewDecoder(b)
	var err error
	c.Guard("panic", func() { err = y.Decode(&dec) })
	if err == nil && !c.Failed() {
		c.Failf(class, "%s: %x accepted", what(), cut(b))
	}
	c.Count("refused_"+class, 1)
}

// shuffled puts the fields into any order, with unknown ones among them.
func shuffled(d *drawer, t *typ, v refs.V) refs.V {
	type kv struct{ k, v refs.V }
	var l []kv
	for i := 0; i < len(v.A); i += 2 {
		l = append(l, kv{v.A[i], v.A[i+1]})
	}
	known := map[string]bool{}
	for _, f := range t.Fields {
		known[f.Name] = true
	}
	for n := d.rng.Intn(3); n > 0; n-- {
		name := []string{"unknown", "", "Id", "other_field", "zz"}[d.rng.Intn(5)]
		if len(t.Fields) > 0 && d.rng.Intn(2) == 0 {
			f := t.Fields[d.rng.Intn(len(t.Fields))].Name
			name = []string{f + "x", f[1:], "_" + f}[d.rng.Intn(3)]
		}
		if !known[name] {
			known[name] = true
			l = append(l, kv{refs.Str(name), refs.Gen(d.rng, 3, false, true)})
		}
	}
	d.rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	w := refs.V{K: refs.KMap}
	for _, e := range l {
		w.A = append(w.A, e.k, e.v)
	}
	return w
}

func cut(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

func (m *model) agreeTop(t *typ, want, got refs.V) error { return m.agreeObject(t, want, got) }
