//go:build go1.23

// Package mesh monitors meshes of real wasm modules on the real runtime.
package mesh

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){
		"P32": func(r *vlib.R) {
			r.Bubble("links", r.N(700, 9000), links)
			r.Bubble("reload", r.N(160, 2500), reload)
			r.Bubble("drain", r.N(200, 3000), drain)
		},
	})
}

const (
	kRR = 1 + iota
	kFNF
	kRS
	kRC
)

var kinds = []string{"", "request-response", "fire-and-forget", "request-stream", "request-channel"}

var guestCode = sync.OnceValue(func() []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_WORK"), "mesh.wasm"))
	if err != nil {
		panic(err)
	}
	return b
})

type key struct {
	ns, op string
	kind   int
}

// version is a module as it was loaded once.
type version struct {
	tag      string
	exports  map[key]uint32
	imports  map[key]uint32
	order    []key // table order, exports and imports mixed
	dirs     []int
	file     string
	replaced bool // by a later version of the same file
	gone     bool // and closed by now
	logged   int  // fire and forget requests it has got
}

func (v *version) String() string {
	s := v.tag + " of " + v.file
	for i, k := range v.order {
		s += fmt.Sprintf(" [%s %s:%s/%d", []string{"?", "exports", "imports"}[v.dirs[i]], k.ns, k.op, k.kind)
		if v.dirs[i] == 1 {
			s += fmt.Sprintf(" as %d]", v.exports[k])
		} else {
			s += fmt.Sprintf(" as %d]", v.imports[k])
		}
	}
	return s
}

// table is the list of operations in the binary format.
func (v *version) table() []byte {
	b := append([]byte("\x00wrs"), 0, 1)
	b = binary.BigEndian.AppendUint32(b, uint32(len(v.order)))
	for i, k := range v.order {
		id := v.exports[k]
		if v.dirs[i] == 2 {
			id = v.imports[k]
		}
		b = append(b, byte(k.kind), byte(v.dirs[i]))
		b = binary.BigEndian.AppendUint32(b, id)
		for _, s := range []string{k.ns, k.op, ""} {
			b = binary.BigEndian.AppendUint16(b, uint16(len(s)))
			b = append(b, s...)
		}
	}
	return b
}

// code is the guest with this version's configuration.
func (v *version) code() []byte {
	b := bytes.Clone(guestCode())
	at := bytes.Index(b, []byte("VERIFCONFIG@@")) + 16
	t := v.table()
	if len(t) > 8000 {
		panic("table too large")
	}
	binary.BigEndian.PutUint32(b[at:], uint32(len(t)))
	copy(b[at+4:], v.tag)
	copy(b[at+12:], t)
	return b
}

// world is a mesh and what is known about it.
type world struct {
	c    *vlib.C
	rng  *rand.Rand
	m    *mesh.Mesh
	dir  string
	cur  map[string]*version
	all  []*version
	by   map[key]*version
	n    int
	hist []string
	bg   sync.WaitGroup
}

func newWorld(c *vlib.C) *world {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "mesh-")
	if err != nil {
		panic(err)
	}
	return &world{c: c, rng: c.Rng, m: mesh.New(), dir: dir, cur: map[string]*version{}, by: map[key]*version{}}
}

func (w *world) done() {
	w.m.Close()
	time.Sleep(time.Minute)
	vlib.Settle()
	os.RemoveAll(w.dir)
}

func (w *world) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *world) failf(class, f string, a ...any) {
	h := w.hist
	if len(h) > 40 {
		h = h[len(h)-40:]
	}
	w.c.Failf(class, "%s\nhistory:\n%s", fmt.Sprintf(f, a...), strings.Join(h, "\n"))
}

var names = []string{"x", "xy", "y"}
var spaces = []string{"a", "a.x"}

func (w *world) key() key {
	return key{spaces[w.rng.Intn(len(spaces))], names[w.rng.Intn(len(names))], 1 + w.rng.Intn(4)}
}

// version makes up a module.
func (w *world) version(file string) *version {
	w.n++
	v := &version{tag: fmt.Sprintf("v%07d", w.n), file: file, exports: map[key]uint32{}, imports: map[key]uint32{}}
	add := func(m map[key]uint32, dir int) {
		for i, n := 0, w.rng.Intn(9); i < n; i++ {
			k := w.key()
			if _, ok := m[k]; ok {
				continue
			}
			// IDs of a kind and direction are unique.
			for {
				id := uint32(w.rng.Intn(12))
				if w.rng.Intn(20) == 0 {
					id = w.rng.Uint32()
				}
				free := true
				for o, x := range m {
					free = free && (o.kind != k.kind || x != id)
				}
				if free {
					m[k] = id
					break
				}
			}
			v.order = append(v.order, k)
			v.dirs = append(v.dirs, dir)
		}
	}
	add(v.exports, 1)
	add(v.imports, 2)
	w.rng.Shuffle(len(v.order), func(i, j int) {
		v.order[i], v.order[j] = v.order[j], v.order[i]
		v.dirs[i], v.dirs[j] = v.dirs[j], v.dirs[i]
	})
	return v
}

func (w *world) path(file string) string { return filepath.Join(w.dir, file) }

// load loads v and updates the expectations.
func (w *world) load(v *version) bool {
	if err := os.WriteFile(w.path(v.file), v.code(), 0o600); err != nil {
		panic(err)
	}
	w.note("load %s", v)
	inst, err := w.m.LoadModule(context.Background(), w.path(v.file))
	if err != nil || inst == nil {
		w.failf("load", "loading a valid module: %v", err)
		return false
	}
	w.loaded(v)
	w.c.Count("loads", 1)
	return true
}

func (w *world) loaded(v *version) {
	if old := w.cur[v.file]; old != nil {
		old.replaced = true
		w.c.Count("reloads", 1)
	}
	w.cur[v.file] = v
	w.all = append(w.all, v)
	for k := range v.exports {
		w.by[k] = v
	}
}

// wait lets time pass.
func (w *world) wait(d time.Duration) {
	time.Sleep(d)
	vlib.Settle()
	if d > 20*time.Second {
		for _, v := range w.all {
			v.gone = v.gone || v.replaced
		}
	}
}

// call is a request and the path it takes.
type call struct {
	key  key
	data []byte
	md   []byte
	path string

	// What is to come of it.
	fails   bool
	text    string // what the error contains
	at      *version
	index   uint32
	hops    int
	unclear bool // served by a version which might be gone
	items   int
	rest    []byte
	note    []byte // of a fire and forget request

	mu     sync.Mutex
	got    [][]byte
	errs   []string
	finals []rx.SignalType
	order  string
	in     int
}

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

// call makes up a request and works out what becomes of it. Chains go through
// the imports of the modules.
func (w *world) call() *call {
	rng := w.rng
	c := &call{key: w.key()}
	if rng.Intn(3) != 0 && len(w.all) > 0 {
		// A key that exists, most of the time.
		v := w.all[rng.Intn(len(w.all))]
		for k := range v.exports {
			c.key = k
			break
		}
	}
	// Map iteration is random, but the case must only depend on its seed.
	c.key = w.pick(c.key)
	switch rng.Intn(4) {
	case 0:
	case 1:
		c.md = make([]byte, rng.Intn(8))
	case 2:
		c.md = make([]byte, 8)
	default:
		c.md = make([]byte, 8+rng.Intn(40))
	}
	rng.Read(c.md)
	c.path = fmt.Sprintf("%v", c.key)
	w.follow(c, c.key, 0)
	return c
}

// pick replaces a randomly found key by one that depends on the seed only.
func (w *world) pick(k key) key {
	var exported []key
	for _, v := range w.all {
		for i, k := range v.order {
			if v.dirs[i] == 1 {
				exported = append(exported, k)
			}
		}
	}
	if len(exported) == 0 || w.rng.Intn(6) == 0 {
		return w.key()
	}
	return exported[w.rng.Intn(len(exported))]
}

func (w *world) follow(c *call, k key, depth int) {
	v := w.by[k]
	rng := w.rng
	if v == nil {
		c.fails = true
		c.data = append(c.data, 'R', 3)
		if depth > 0 {
			c.text = "not_found"
		} else {
			c.text = k.op
		}
		return
	}
	c.at, c.index, c.hops = v, v.exports[k], depth
	c.path += " -> " + v.tag
	if v.replaced {
		if v.gone {
			c.fails, c.text = true, ""
			c.data = append(c.data, 'R', 3)
			return
		}
		c.unclear = true
	}
	if depth < 5 && rng.Intn(3) != 0 {
		var same []key
		for i, o := range v.order {
			if v.dirs[i] == 2 && o.kind == k.kind {
				same = append(same, o)
			}
		}
		if len(same) == 0 && rng.Intn(4) == 0 {
			// It was never imported.
			c.data = append(c.data, 'C', byte(k.kind), 0, 0, 2, byte(rng.Intn(50)), 'R', 2)
			c.fails, c.text = true, "not_found"
			c.path += " -> (none)"
			return
		}
		if len(same) > 0 {
			o := same[rng.Intn(len(same))]
			c.data = append(c.data, 'C', byte(o.kind))
			c.data = binary.BigEndian.AppendUint32(c.data, v.imports[o])
			c.path += fmt.Sprintf(" -> %v", o)
			w.follow(c, o, depth+1)
			return
		}
	}
	if rng.Intn(6) == 0 && k.kind != kFNF {
		c.fails, c.text = true, fmt.Sprintf("deliberate %d", rng.Int31())
		c.data = append(append(c.data, 'E'), c.text...)
		return
	}
	c.data = append(c.data, 'R')
	switch k.kind {
	case kRR:
		c.rest = make([]byte, rng.Intn(100))
		rng.Read(c.rest)
		c.data = append(c.data, c.rest...)
	case kFNF:
		c.note = make([]byte, 8)
		rng.Read(c.note)
		c.data = append(c.data, c.note...)
	case kRS:
		c.items = rng.Intn(20)
		c.data = append(c.data, byte(c.items))
	case kRC:
		c.items = rng.Intn(12)
	}
}

func input(n int, d func(i int) []byte) flux.Flux[payload.Payload] {
	i := 0
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(k int) {
				for ; k > 0 && i < n; k-- {
					i++
					sink.Next(payload.New(d(i - 1)))
				}
				if i == n {
					i++
					sink.Complete()
				}
			},
		})
	})
}

func (c *call) next(p payload.Payload) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, bytes.Clone(p.Data()))
	c.order += "N"
}

func (c *call) failed(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.errs = append(c.errs, err.Error())
	c.order += "E"
}

func (c *call) completed() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.order += "C"
}

func (c *call) final(s rx.SignalType) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.finals = append(c.finals, s)
	c.order += "F"
}

// issue makes the request.
func (w *world) issue(c *call) {
	before := bytes.Clone(c.md)
	p := payload.New(c.data, c.md)
	if c.md == nil {
		p = payload.New(c.data)
	}
	ctx := context.Background()
	switch c.key.kind {
	case kRR:
		m := w.m.RequestResponse(ctx, c.key.ns, c.key.op, p)
		if m == nil {
			w.failf("nil", "%s returned nil for %s", kinds[c.key.kind], c.path)
			return
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: func(p payload.Payload) { c.next(p); c.completed() }, OnError: c.failed, Finally: c.final})
	case kFNF:
		w.m.FireAndForget(ctx, c.key.ns, c.key.op, p)
	default:
		var f flux.Flux[payload.Payload]
		if c.key.kind == kRS {
			f = w.m.RequestStream(ctx, c.key.ns, c.key.op, p)
		} else {
			f = w.m.RequestChannel(ctx, c.key.ns, c.key.op, p, input(c.items, func(i int) []byte { return []byte{byte(i), 77} }))
		}
		if f == nil {
			w.failf("nil", "%s returned nil for %s", kinds[c.key.kind], c.path)
			return
		}
		f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: c.next, OnComplete: c.completed, OnError: c.failed, Finally: c.final})
	}
	if !bytes.Equal(before, c.md) {
		w.failf("metadata", "the caller's metadata %x has become %x", before, c.md)
	}
}

// head is what the guest's replies start with.
func (c *call) head() []byte {
	b := append([]byte(c.at.tag), byte(c.key.kind+3))
	return binary.BigEndian.AppendUint32(b, c.index)
}

// check judges what came of a call.
func (w *world) check(c *call) {
	c.mu.Lock()
	defer c.mu.Unlock()
	what := fmt.Sprintf("%s %s (request %x)", kinds[c.key.kind], c.path, c.data)
	w.c.Count("calls", 1)
	w.c.Count("calls_"+kinds[c.key.kind], 1)
	if c.hops > 0 {
		w.c.Count("chained_calls", 1)
	}
	if c.key.kind == kFNF {
		if c.order != "" {
			w.failf("fnf", "%s: got %q", what, c.order)
		}
		return
	}
	if len(c.finals) != 1 || !strings.HasSuffix(c.order, "F") {
		w.failf("terminal", "%s ended %d times (%q)", what, len(c.finals), c.order)
		return
	}
	if c.unclear {
		return
	}
	if c.fails {
		if c.order != "EF" || !strings.Contains(c.errs[0], c.text) {
			w.failf("error", "%s: got %q %q, want an error with %q", what, c.order, c.errs, c.text)
		}
		w.c.Count("errors", 1)
		return
	}
	if c.finals[0] != rx.SignalComplete {
		w.failf("terminal", "%s: got %q %q", what, c.order, c.errs)
		return
	}
	h := c.head()
	switch c.key.kind {
	case kRR:
		if len(c.got) != 1 {
			w.failf("response", "%s: %d responses", what, len(c.got))
			return
		}
		g := c.got[0]
		if len(g) < 15 || !bytes.Equal(g[:13], h) {
			w.failf("response", "%s: answered by %x, want %x", what, g[:min(13, len(g))], h)
			return
		}
		n := int(binary.BigEndian.Uint16(g[13:]))
		md := g[15:]
		if n > len(md) {
			w.failf("response", "%s: cut response %x", what, g)
			return
		}
		if rest := md[n:]; !bytes.Equal(rest, c.rest) {
			w.failf("response", "%s: data %x, want %x", what, rest, c.rest)
		}
		md = md[:n]
		if c.hops == 0 {
			want := make([]byte, max(8, len(c.md)))
			copy(want, c.md)
			binary.BigEndian.PutUint32(want, c.index)
			if !bytes.Equal(md, want) {
				w.failf("metadata", "%s: sent with metadata %x, want %x", what, md, want)
			}
		} else if len(md) != 8 || binary.BigEndian.Uint32(md) != c.index {
			w.failf("metadata", "%s: passed on with metadata %x", what, md)
		}
	default:
		if len(c.got) != c.items {
			w.failf("response", "%s: %d items, want %d", what, len(c.got), c.items)
			return
		}
		for i, g := range c.got {
			want := append(bytes.Clone(h), byte(i))
			if c.key.kind == kRC {
				want = append(want, 77)
			}
			if !bytes.Equal(g, want) {
				w.failf("response", "%s: item %d is %x, want %x", what, i, g, want)
				return
			}
		}
	}
	w.c.Count("answers", 1)
}

// logs asks a version for the fire and forget requests it has got. It needs an
// operation of its own for that.
func (w *world) logs(v *version) ([]byte, bool) {
	for i, k := range v.order {
		if v.dirs[i] == 1 && k.kind == kRR && w.by[k] == v {
			c := &call{key: k, data: []byte("L"), path: "log of " + v.tag}
			w.issue(c)
			w.wait(time.Second)
			c.mu.Lock()
			defer c.mu.Unlock()
			if len(c.got) != 1 || len(c.got[0]) < 4 {
				w.failf("log", "%s does not report: %q %q", v.tag, c.order, c.errs)
				return nil, false
			}
			return c.got[0], true
		}
	}
	return nil, false
}

// links loads modules in any order, repeatedly and in vain, with requests in
// between.
func links(c *vlib.C) {
	w := newWorld(c)
	defer w.done()
	rng := w.rng
	files := 1 + rng.Intn(4)
	var fnfs []*call
	for step, n := 0, 3+rng.Intn(12); step < n; step++ {
		switch rng.Intn(7) {
		case 0, 1, 2:
			v := w.version(fmt.Sprintf("m%d.wasm", rng.Intn(files)))
			if !w.load(v) {
				return
			}
		case 3:
			w.invalid()
		case 4:
			w.note("wait")
			w.wait(time.Minute)
		default:
			var calls []*call
			for i := 0; i < 1+rng.Intn(10); i++ {
				cl := w.call()
				calls = append(calls, cl)
				w.note("%s %s", kinds[cl.key.kind], cl.path)
			}
			if rng.Intn(2) == 0 {
				var wg sync.WaitGroup
				for _, cl := range calls {
					wg.Add(1)
					go func() { defer wg.Done(); w.issue(cl) }()
				}
				wg.Wait()
			} else {
				for _, cl := range calls {
					w.issue(cl)
				}
			}
			w.wait(time.Second)
			for _, cl := range calls {
				w.check(cl)
				if cl.key.kind == kFNF {
					fnfs = append(fnfs, cl)
				}
			}
		}
	}
	// Where have the fire and forget requests gone?
	for _, v := range w.all {
		if v.replaced {
			continue
		}
		got, ok := w.logs(v)
		if !ok {
			continue
		}
		n, unclear := 0, 0
		for _, cl := range fnfs {
			if cl.at != v || cl.fails {
				continue
			}
			if cl.unclear {
				unclear++
				continue
			}
			n++
			entry := binary.BigEndian.AppendUint32(nil, cl.index)
			entry = append(entry, cl.note...)
			found := false
			for i := 4; i+12 <= len(got); i += 12 {
				found = found || bytes.Equal(got[i:i+12], entry)
			}
			if !found {
				w.failf("fnf", "%s has not got %s (%x)", v.tag, cl.path, entry)
			}
		}
		total := int(binary.BigEndian.Uint32(got))
		if total < n || total > n+unclear {
			w.failf("fnf", "%s has got %d fire and forget requests of %d", v.tag, total, n)
		}
		w.c.Count("logs", 1)
		w.c.Count("fnf_accounted", n)
	}
	c.Nontrivial("%s", strings.Join(w.hist, "\n"))
}

// within is a place inside of a section of a module that has to be there: cut
// between two sections, it may still be a whole module.
func within(b []byte, rng *rand.Rand) int {
	inside := []int{}
	for at := 8; at < len(b); {
		id := b[at]
		n, k := binary.Uvarint(b[at+1:])
		end := at + 1 + k + int(n)
		for i := at + 1; id != 0 && i < end; i++ {
			inside = append(inside, i)
		}
		at = end
	}
	return inside[rng.Intn(len(inside))]
}

// invalid loads what is no module. Nothing changes by that.
func (w *world) invalid() {
	rng := w.rng
	name := fmt.Sprintf("m%d.wasm", rng.Intn(4))
	var b []byte
	mode := rng.Intn(5)
	switch mode {
	case 0:
		name = "missing.wasm"
	case 1:
		b = make([]byte, rng.Intn(200))
		rng.Read(b)
	case 2:
		b = w.version(name).code()
		b = b[:within(b, rng)]
	case 3: // no guest
		b = []byte("\x00asm\x01\x00\x00\x00")
	case 4: // a list of operations that is cut
		v := w.version(name)
		v.order, v.dirs = append(v.order, w.key()), append(v.dirs, 2)
		b = v.code()
		at := bytes.Index(b, []byte("VERIFCONFIG@@")) + 16
		binary.BigEndian.PutUint32(b[at:], binary.BigEndian.Uint32(b[at:])-1-uint32(rng.Intn(10)))
	}
	if b != nil {
		if err := os.WriteFile(w.path(name), b, 0o600); err != nil {
			panic(err)
		}
	}
	w.note("load an invalid module (%d) as %s", mode, name)
	inst, err := w.m.LoadModule(context.Background(), w.path(name))
	if err == nil || inst != nil {
		w.failf("load", "loading an invalid module (%d) as %s succeeded", mode, name)
	}
	w.c.Count("refused_loads", 1)
}

// reload replaces a module again and again while it is in use, directly and
// through the imports of others.
func reload(c *vlib.C) {
	w := newWorld(c)
	defer w.done()
	rng := w.rng
	ks := map[key]uint32{}
	for kind := 1; kind <= 4; kind++ {
		ks[key{"svc", "op", kind}] = uint32(rng.Intn(5))
	}
	type loadedAt struct {
		mu       sync.Mutex
		started  int // versions whose loading has begun
		finished int // and has ended
	}
	var st loadedAt
	make_ := func(i int) *version {
		v := &version{tag: fmt.Sprintf("s%07d", i), file: "svc.wasm", exports: map[key]uint32{}, imports: map[key]uint32{}}
		for kind := 1; kind <= 4; kind++ {
			k := key{"svc", "op", kind}
			v.exports[k] = uint32(rng.Intn(9))
			v.order, v.dirs = append(v.order, k), append(v.dirs, 1)
		}
		rng.Shuffle(len(v.order), func(i, j int) { v.order[i], v.order[j] = v.order[j], v.order[i] })
		return v
	}
	user := &version{tag: "user0000", file: "user.wasm", exports: map[key]uint32{}, imports: map[key]uint32{}}
	for kind := 1; kind <= 4; kind++ {
		k, o := key{"user", "op", kind}, key{"svc", "op", kind}
		user.exports[k], user.imports[o] = uint32(rng.Intn(9)), uint32(rng.Intn(9))
		user.order, user.dirs = append(user.order, k, o), append(user.dirs, 1, 2)
	}
	early := rng.Intn(2) == 0 // the user's imports are not there yet
	if early && !w.load(user) {
		return
	}
	versions := []*version{make_(0)}
	if !w.load(versions[0]) {
		return
	}
	st.started, st.finished = 1, 1
	if !early && !w.load(user) {
		return
	}
	n := 1 + rng.Intn(4)
	for i := 1; i <= n; i++ {
		versions = append(versions, make_(i))
	}
	index := func(v *version, kind int) uint32 { return v.exports[key{"svc", "op", kind}] }
	gap := time.Duration(rng.Intn(8000)) * time.Millisecond
	stop := make(chan struct{})
	var wg sync.WaitGroup
	workers := 1 + rng.Intn(6)
	for k := 0; k < workers; k++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for j := 0; ; j++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+rng.Intn(800)) * time.Millisecond):
				}
				kind := []int{kRR, kRR, kRS, kRC, kFNF}[rng.Intn(5)]
				cl := &call{key: key{"svc", "op", kind}, items: 1 + rng.Intn(4), md: make([]byte, 8)}
				if rng.Intn(2) == 0 {
					cl.key.ns = "user"
					cl.data = binary.BigEndian.AppendUint32([]byte{'C', byte(kind)}, user.imports[key{"svc", "op", kind}])
					cl.hops = 1
				}
				cl.path = fmt.Sprint(cl.key)
				cl.data = append(cl.data, 'R', byte(cl.items), 'x', 'x', 'x')
				st.mu.Lock()
				lo := st.finished - 1
				st.mu.Unlock()
				w.issue(cl)
				if kind == kFNF {
					continue
				}
				for t := 0; t < 100; t++ {
					cl.mu.Lock()
					end := len(cl.finals) > 0
					cl.mu.Unlock()
					if end {
						break
					}
					time.Sleep(time.Millisecond)
				}
				st.mu.Lock()
				hi := st.started - 1
				st.mu.Unlock()
				cl.mu.Lock()
				switch {
				case len(cl.finals) != 1 || cl.finals[0] != rx.SignalComplete || len(cl.got) == 0:
					w.c.Failf("reload", "%s while version %d to %d of it was in use: %q %q", cl.path, lo, hi, cl.order, cl.errs)
				default:
					served := -1
					for i, v := range versions {
						if bytes.HasPrefix(cl.got[0], []byte(v.tag)) {
							served = i
						}
					}
					if served < lo || served > hi {
						w.c.Failf("stale", "%s was served by version %d, in use were %d to %d", cl.path, served, lo, hi)
					} else if id := binary.BigEndian.Uint32(cl.got[0][9:]); id != index(versions[served], kind) {
						w.c.Failf("index", "%s was served as operation %d of version %d, want %d", cl.path, id, served, index(versions[served], kind))
					}
				}
				cl.mu.Unlock()
				w.c.Count("calls_during_reloads", 1)
			}
		}()
	}
	for i := 1; i <= n; i++ {
		time.Sleep(gap)
		st.mu.Lock()
		st.started++
		st.mu.Unlock()
		ok := w.load(versions[i])
		st.mu.Lock()
		st.finished++
		st.mu.Unlock()
		if !ok {
			break
		}
	}
	time.Sleep(time.Duration(rng.Intn(10000)) * time.Millisecond)
	close(stop)
	wg.Wait()
	c.Nontrivial("%d versions every %v, %d users, early %v", n, gap, workers, early)
}

// drain replaces or closes modules while requests are in progress.
func drain(c *vlib.C) {
	w := newWorld(c)
	defer w.done()
	rng := w.rng
	v := &version{tag: "old00000", file: "m.wasm", exports: map[key]uint32{}, imports: map[key]uint32{}}
	next := &version{tag: "new00000", file: "m.wasm", exports: map[key]uint32{}, imports: map[key]uint32{}}
	for kind := 1; kind <= 4; kind++ {
		k := key{"svc", "op", kind}
		for _, x := range []*version{v, next} {
			x.exports[k] = uint32(kind * rng.Intn(5))
			x.order, x.dirs = append(x.order, k), append(x.dirs, 1)
		}
	}
	if !w.load(v) {
		return
	}
	var calls []*call
	var sinks []flux.Sink[payload.Payload]
	for i, n := 0, 1+rng.Intn(8); i < n; i++ {
		cl := &call{key: key{"svc", "op", []int{kRR, kRS, kRC, kRC}[rng.Intn(4)]}, md: make([]byte, 8)}
		cl.path = fmt.Sprintf("open %v", cl.key)
		cl.data = []byte("H")
		var sink flux.Sink[payload.Payload]
		if cl.key.kind == kRC {
			cl.data = []byte("R")
			f := w.m.RequestChannel(context.Background(), "svc", "op", payload.New(cl.data, cl.md), flux.Create(func(s flux.Sink[payload.Payload]) {
				sink = s
				s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
			}))
			f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: cl.next, OnComplete: cl.completed, OnError: cl.failed, Finally: cl.final})
		} else {
			w.issue(cl)
		}
		w.wait(time.Millisecond)
		calls, sinks = append(calls, cl), append(sinks, sink)
	}
	echo := func(b byte) {
		for i, cl := range calls {
			if sinks[i] == nil {
				continue
			}
			cl.mu.Lock()
			before := len(cl.got)
			cl.mu.Unlock()
			sinks[i].Next(payload.New([]byte{b}))
			w.wait(time.Millisecond)
			cl.mu.Lock()
			if len(cl.got) != before+1 || !bytes.HasPrefix(cl.got[before], []byte(v.tag)) || cl.got[before][13] != b {
				w.failf("drain", "%s is not served any more: %q %x %q", cl.path, cl.order, cl.got, cl.errs)
			}
			cl.mu.Unlock()
			c.Count("echoes", 1)
		}
	}
	echo(1)
	replace := rng.Intn(2) == 0
	if replace {
		if !w.load(next) {
			return
		}
		w.wait(time.Duration(rng.Intn(1000)) * time.Millisecond)
		echo(2) // the requests in progress are finished by the old instance
		// Some do so.
		for i, s := range sinks {
			if s != nil && rng.Intn(2) == 0 {
				s.Complete()
				w.wait(time.Millisecond)
				calls[i].mu.Lock()
				if !strings.HasSuffix(calls[i].order, "CF") {
					w.failf("drain", "%s does not complete after the reload: %q %q", calls[i].path, calls[i].order, calls[i].errs)
				}
				calls[i].mu.Unlock()
				c.Count("drained", 1)
			}
		}
		for _, cl := range calls {
			cl.mu.Lock()
			if strings.Contains(cl.order, "E") {
				w.failf("drain", "%s was ended right after the reload: %q %q", cl.path, cl.order, cl.errs)
			}
			cl.mu.Unlock()
		}
	} else {
		w.note("close")
		w.m.Close()
	}
	w.wait(time.Hour)
	for _, cl := range calls {
		cl.mu.Lock()
		if len(cl.finals) != 1 || !strings.HasSuffix(cl.order, "EF") && !strings.HasSuffix(cl.order, "CF") {
			w.failf("terminal", "%s of a module which is gone ended with %q %q", cl.path, cl.order, cl.errs)
		}
		cl.mu.Unlock()
		c.Count("ended_by_close", 1)
	}
	// Requests made now.
	for kind := 1; kind <= 4; kind++ {
		cl := &call{key: key{"svc", "op", kind}, data: []byte{'R', 2}, path: "late", items: 2, rest: []byte{2}, md: make([]byte, 8)}
		if replace {
			cl.at, cl.index = next, next.exports[cl.key]
		} else {
			cl.fails = true
		}
		w.issue(cl)
		w.wait(time.Second)
		w.check(cl)
	}
	c.Nontrivial("%d calls %v", len(calls), replace)
}
