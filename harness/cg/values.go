//go:build go1.23

package cg

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/types/uuid"
)

// T describes a type of a model.
type T struct {
	K  string `json:"k"` // prim enum alias type union opt list map stream void
	N  string `json:"n"`
	T  *T     `json:"t"`
	KT *T     `json:"kt"`
}

func (t *T) String() string {
	switch t.K {
	case "opt":
		return t.T.String() + "?"
	case "list":
		return "[" + t.T.String() + "]"
	case "map":
		return "{" + t.KT.String() + ":" + t.T.String() + "}"
	case "stream":
		return "stream " + t.T.String()
	case "alias":
		return t.N + "=" + t.T.String()
	case "void":
		return "void"
	}
	return t.N
}

type field struct {
	Name string `json:"name"`
	Go   string `json:"go"`
	Type *T     `json:"type"`
}

type typ struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Fields []field `json:"fields"`
}

func (t *typ) String() string {
	s := t.Kind + " " + t.Name + " {"
	for _, f := range t.Fields {
		s += " " + f.Name + ": " + f.Type.String()
	}
	return s + " }"
}

type oper struct {
	Iface  string `json:"iface"`
	Op     string `json:"op"`
	Kind   string `json:"kind"`
	Unary  bool   `json:"unary"`
	Params []*T   `json:"params"`
	Input  *T     `json:"input"`
	Ret    *T     `json:"ret"`
}

func (o *oper) String() string {
	s := o.Iface + "." + o.Op + "("
	if o.Unary {
		s = o.Iface + "." + o.Op + "["
	}
	for _, p := range o.Params {
		s += p.String() + ", "
	}
	if o.Input != nil {
		s += "stream " + o.Input.String()
	}
	return s + "): " + o.Kind + " " + o.Ret.String()
}

type model struct {
	Name   string           `json:"name"`
	NS     string           `json:"ns"`
	Types  []*typ           `json:"types"`
	Ops    []*oper          `json:"ops"`
	Enums  map[string][]int `json:"enums"`
	Failed string           `json:"failed"`
	byName map[string]*typ
}

func load() ([]*model, error) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_WORK"), "gen", "models.json"))
	if err != nil {
		return nil, err
	}
	var ms []*model
	if err := json.Unmarshal(b, &ms); err != nil {
		return nil, err
	}
	for _, m := range ms {
		m.byName = map[string]*typ{}
		for _, t := range m.Types {
			m.byName[t.Name] = t
		}
	}
	return ms, nil
}

var uuidType = reflect.TypeOf(uuid.UUID{})

// drawer draws values of the types of a model: the Go value and what it must
// look like in MessagePack.
type drawer struct {
	m      *model
	rng    *rand.Rand
	plain  bool // instants only which have a textual form
	budget int
}

func (d *drawer) str() string {
	b := make([]byte, refs.Len(d.rng, 300))
	for i := range b {
		b[i] = byte(' ' + d.rng.Intn(95))
	}
	if d.rng.Intn(4) == 0 {
		return string(b) + "é世\x00"
	}
	return string(b)
}

func bits(n string) (int, bool) {
	switch n {
	case "i8", "u8":
		return 8, n[0] == 'i'
	case "i16", "u16":
		return 16, n[0] == 'i'
	case "i32", "u32":
		return 32, n[0] == 'i'
	}
	return 64, n[0] == 'i'
}

func (d *drawer) prim(n string, rt reflect.Type) (reflect.Value, refs.V) {
	v := reflect.New(rt).Elem()
	switch n {
	case "ID", "string":
		s := d.str()
		v.SetString(s)
		return v, refs.Str(s)
	case "bool":
		b := d.rng.Intn(2) == 0
		v.SetBool(b)
		return v, refs.V{K: refs.KBool, B: b}
	case "datetime":
		t := refs.Instant(d.rng)
		for d.plain && (t.Year() < 1 || t.Year() > 9998) {
			t = refs.Instant(d.rng)
		}
		if d.plain {
			t = t.UTC()
		}
		v.Set(reflect.ValueOf(t))
		return v, refs.Time(t)
	case "f32":
		f := float32(refs.Float(d.rng))
		v.SetFloat(float64(f))
		return v, refs.V{K: refs.KF32, F: float64(f)}
	case "f64":
		f := refs.Float(d.rng)
		v.SetFloat(f)
		return v, refs.V{K: refs.KF64, F: f}
	case "bytes":
		b := make([]byte, refs.Len(d.rng, 300))
		d.rng.Read(b)
		v.SetBytes(b)
		return v, refs.V{K: refs.KBin, S: b}
	}
	w, signed := bits(n)
	if signed {
		i := refs.Int64(d.rng) << (64 - w) >> (64 - w)
		v.SetInt(i)
		return v, refs.Int(i)
	}
	u := refs.Uint64(d.rng) << (64 - w) >> (64 - w)
	v.SetUint(u)
	return v, refs.Uint(u)
}

var nilV = refs.V{K: refs.KNil}

func (d *drawer) value(t *T, rt reflect.Type, depth int) (reflect.Value, refs.V) {
	d.budget--
	switch t.K {
	case "prim":
		return d.prim(t.N, rt)
	case "alias":
		if rt == uuidType {
			var u uuid.UUID
			d.rng.Read(u[:])
			return reflect.ValueOf(u), refs.Str(u.String())
		}
		return d.value(t.T, rt, depth)
	case "enum":
		v := reflect.New(rt).Elem()
		l := d.m.Enums[t.N]
		i := int64(l[d.rng.Intn(len(l))])
		v.SetInt(i)
		return v, refs.Int(i)
	case "opt":
		if depth <= 0 || d.budget < 0 || d.rng.Intn(5) < 2 {
			return reflect.Zero(rt), nilV
		}
		if rt.Kind() != reflect.Pointer {
			return d.value(t.T, rt, depth)
		}
		v, w := d.value(t.T, rt.Elem(), depth-1)
		p := reflect.New(rt.Elem())
		p.Elem().Set(v)
		return p, w
	case "list", "map":
		n := 0
		if depth > 0 && d.budget > 0 {
			n = d.rng.Intn(5)
			if d.rng.Intn(20) == 0 {
				n = 14 + d.rng.Intn(6)
			}
		}
		if t.K == "list" {
			s := reflect.MakeSlice(rt, 0, n)
			w := refs.V{K: refs.KArr}
			for i := 0; i < n; i++ {
				a, b := d.value(t.T, rt.Elem(), depth-1)
				s = reflect.Append(s, a)
				w.A = append(w.A, b)
			}
			return s, w
		}
		mv := reflect.MakeMap(rt)
		w := refs.V{K: refs.KMap}
		for i := 0; i < n; i++ {
			k, kw := d.value(t.KT, rt.Key(), 0)
			if mv.MapIndex(k).IsValid() {
				continue
			}
			a, b := d.value(t.T, rt.Elem(), depth-1)
			mv.SetMapIndex(k, a)
			w.A = append(w.A, kw, b)
		}
		return mv, w
	case "type", "union":
		return d.object(d.m.byName[t.N], rt, depth)
	}
	panic("type " + t.K)
}

func (d *drawer) object(t *typ, rt reflect.Type, depth int) (reflect.Value, refs.V) {
	v := reflect.New(rt).Elem()
	w := refs.V{K: refs.KMap}
	if t.Kind == "union" {
		// one member is set, or none
		n := d.rng.Intn(len(t.Fields))
		f := t.Fields[n]
		fv := v.FieldByName(f.Go)
		if depth < -2 || d.rng.Intn(8) == 0 {
			return v, nilV
		}
		a, b := d.value(f.Type, fv.Type().Elem(), depth-1)
		if b.K == refs.KNil {
			// a union without a member
			return v, nilV
		}
		p := reflect.New(fv.Type().Elem())
		p.Elem().Set(a)
		fv.Set(p)
		w.A = append(w.A, refs.Str(f.Name), b)
		return v, w
	}
	for _, f := range t.Fields {
		fv := v.FieldByName(f.Go)
		a, b := d.value(f.Type, fv.Type(), depth-1)
		fv.Set(a)
		w.A = append(w.A, refs.Str(f.Name), b)
	}
	return v, w
}

// view is what a Go value of a model's type means, in terms of MessagePack.
func (m *model) view(t *T, v reflect.Value) refs.V {
	switch t.K {
	case "prim":
		switch t.N {
		case "ID", "string":
			return refs.Str(v.String())
		case "bool":
			return refs.V{K: refs.KBool, B: v.Bool()}
		case "datetime":
			return refs.Time(v.Interface().(time.Time))
		case "f32":
			return refs.V{K: refs.KF32, F: v.Float()}
		case "f64":
			return refs.V{K: refs.KF64, F: v.Float()}
		case "bytes":
			return refs.V{K: refs.KBin, S: v.Bytes()}
		}
		if _, signed := bits(t.N); signed {
			return refs.Int(v.Int())
		}
		return refs.Uint(v.Uint())
	case "alias":
		if v.Type() == uuidType {
			return refs.Str(v.Interface().(uuid.UUID).String())
		}
		return m.view(t.T, v)
	case "enum":
		return refs.Int(v.Int())
	case "opt":
		if v.IsZero() {
			return nilV
		}
		if v.Kind() == reflect.Pointer {
			v = v.Elem()
		}
		return m.view(t.T, v)
	case "list":
		w := refs.V{K: refs.KArr}
		for i := 0; i < v.Len(); i++ {
			w.A = append(w.A, m.view(t.T, v.Index(i)))
		}
		return w
	case "map":
		w := refs.V{K: refs.KMap}
		for _, k := range v.MapKeys() {
			w.A = append(w.A, m.view(t.KT, k), m.view(t.T, v.MapIndex(k)))
		}
		return w
	}
	return m.viewObject(m.byName[t.N], v)
}

func (m *model) viewObject(t *typ, v reflect.Value) refs.V {
	w := refs.V{K: refs.KMap}
	for _, f := range t.Fields {
		fv := v.FieldByName(f.Go)
		if t.Kind == "union" {
			if !fv.IsNil() {
				w.A = append(w.A, refs.Str(f.Name), m.view(f.Type, fv.Elem()))
			}
			continue
		}
		w.A = append(w.A, refs.Str(f.Name), m.view(f.Type, fv))
	}
	if t.Kind == "union" && len(w.A) == 0 {
		return nilV
	}
	return w
}

func empty(v refs.V) bool {
	return v.K == refs.KNil || (v.K == refs.KArr || v.K == refs.KMap || v.K == refs.KBin) && len(v.A) == 0 && len(v.S) == 0
}

// agree compares what was expected of a type with what was seen: an absent
// list, map or byte array is as good as an empty one.
func (m *model) agree(t *T, want, got refs.V) error {
	for t.K == "opt" || t.K == "alias" {
		if t.K == "opt" && (want.K == refs.KNil || got.K == refs.KNil) && !container(t.T) {
			break
		}
		t = t.T
	}
	switch {
	case container(t) && empty(want) && empty(got):
		return nil
	case want.K == refs.KNil || got.K == refs.KNil || !container(t) && t.K != "type" && t.K != "union":
		if !want.Equal(got) {
			return fmt.Errorf("%v instead of %v (%v)", short(got), short(want), t)
		}
		return nil
	case want.K != got.K || len(want.A) != len(got.A) || t.K == "prim":
		if !want.Equal(got) {
			return fmt.Errorf("%v instead of %v (%v)", short(got), short(want), t)
		}
		return nil
	}
	switch t.K {
	case "list":
		for i := range want.A {
			if err := m.agree(t.T, want.A[i], got.A[i]); err != nil {
				return fmt.Errorf("item %d: %w", i, err)
			}
		}
	case "map":
		for i := 0; i < len(want.A); i += 2 {
			g, ok := find(got, want.A[i])
			if !ok {
				return fmt.Errorf("no entry %v", short(want.A[i]))
			}
			if err := m.agree(t.T, want.A[i+1], g); err != nil {
				return fmt.Errorf("entry %v: %w", short(want.A[i]), err)
			}
		}
	default:
		return m.agreeObject(m.byName[t.N], want, got)
	}
	return nil
}

func (m *model) agreeObject(t *typ, want, got refs.V) error {
	if want.K != got.K || len(want.A) != len(got.A) {
		return fmt.Errorf("%v instead of %v (%s)", short(got), short(want), t.Name)
	}
	for _, f := range t.Fields {
		w, ok := find(want, refs.Str(f.Name))
		if !ok {
			continue
		}
		g, ok := find(got, refs.Str(f.Name))
		if !ok {
			return fmt.Errorf("no field %q", f.Name)
		}
		if err := m.agree(f.Type, w, g); err != nil {
			return fmt.Errorf("field %q: %w", f.Name, err)
		}
	}
	return nil
}

func find(v, key refs.V) (refs.V, bool) {
	for i := 0; i+1 < len(v.A); i += 2 {
		if v.A[i].Equal(key) {
			return v.A[i+1], true
		}
	}
	return refs.V{}, false
}

func container(t *T) bool {
	for t.K == "alias" || t.K == "opt" {
		t = t.T
	}
	return t.K == "list" || t.K == "map" || t.K == "prim" && t.N == "bytes"
}

func short(v refs.V) string {
	s := v.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// wrong is a value which the type refuses.
func (d *drawer) wrong(t *T) refs.V {
	for t.K == "opt" || t.K == "alias" {
		t = t.T
	}
	str := refs.Str("wrong")
	arr := refs.V{K: refs.KArr, A: []refs.V{refs.Int(1)}}
	mp := refs.V{K: refs.KMap, A: []refs.V{refs.Int(1), refs.Int(2)}}
	switch t.K {
	case "list":
		return []refs.V{str, mp, refs.Int(7)}[d.rng.Intn(3)]
	case "map":
		return []refs.V{str, arr, refs.Int(7)}[d.rng.Intn(3)]
	case "enum":
		if d.rng.Intn(2) == 0 {
			// out of range
			i := int64(d.rng.Intn(3))<<32 + int64(d.m.Enums[t.N][0]) + 1<<32
			return []refs.V{refs.Int(i), refs.Int(-i), refs.Int(1 << 31), refs.Int(-1<<31 - 1)}[d.rng.Intn(4)]
		}
	case "type", "union":
		return []refs.V{str, arr, {K: refs.KBool, B: true}}[d.rng.Intn(3)]
	case "prim":
		if t.N == "string" || t.N == "ID" || t.N == "bytes" {
			// arrays pass for strings and bytes
			return []refs.V{refs.Int(-3), {K: refs.KBool}, mp}[d.rng.Intn(3)]
		}
		if n, signed := bits(t.N); n < 64 && (t.N[0] == 'i' || t.N[0] == 'u') && d.rng.Intn(2) == 0 {
			// out of range
			if signed {
				return refs.Int(int64(1) << (n - 1 + d.rng.Intn(64-n)))
			}
			return refs.Uint(uint64(1) << (n + d.rng.Intn(64-n)))
		}
	}
	return []refs.V{arr, mp}[d.rng.Intn(2)]
}

var _ = sort.Strings
