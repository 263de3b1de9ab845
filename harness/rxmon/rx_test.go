//go:build go1.23

// Package rxmon monitors monos, fluxes and flows.
package rxmon

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){"P15": p15, "P16": p16, "P17": p17})
}

// pause puts the caller somewhere in the virtual future, often at the same
// instant as others, so that they really race.
func pause(rng *rand.Rand) func() {
	switch k := rng.Intn(6); k {
	case 0, 1:
		return func() {}
	case 2:
		return runtime.Gosched
	default:
		d := time.Duration(rng.Intn(4)) * time.Millisecond
		return func() { time.Sleep(d) }
	}
}

// gate releases n goroutines at once, as close together as the machine can.
func gate(rng *rand.Rand, n int) func() {
	if rng.Intn(2) == 0 || n < 2 {
		return func() {}
	}
	var ready atomic.Int32
	at := time.Now().Add(time.Second)
	return func() {
		time.Sleep(time.Until(at)) // virtual: everybody wakes at once
		ready.Add(1)
		for i := 0; ready.Load() < int32(n); i++ {
			if i > 200 {
				runtime.Gosched()
			}
		}
	}
}

// ------------------------------------------------------------------ monos

type call struct {
	begin, end int64
	value      int
	err        error
}

type monoLog struct {
	seq       atomic.Int64
	mu        sync.Mutex
	calls     []*call
	successes []int
	errs      []error
	finals    []rx.SignalType
	outcomeAt int64 // end of the outcome callback
	finallyAt int64
	notified  [][]rx.SignalType
	notifyAt  []int64
}

func (l *monoLog) signal(c *call, f func()) {
	atomic.StoreInt64(&c.begin, l.seq.Add(1))
	f()
	atomic.StoreInt64(&c.end, l.seq.Add(1))
}

var errConv = errors.New("conversion failed")

// layer i of the maps: x -> x*2+i, failing on multiples of fail.
func conv(i, fail int) rx.Transform[int, int] {
	return func(x int) (int, error) {
		if fail > 0 && x%fail == 0 {
			return 0, fmt.Errorf("layer %d of %d: %w", i, x, errConv)
		}
		return x*2 + i, nil
	}
}

func p15(r *vlib.R) {
	r.Cases("window", r.N(60, 600), monoWindow)
	r.Bubble("outcome", r.N(4000, 60000), monoOutcome)
	r.Bubble("block", r.N(1500, 20000), monoBlock)
	r.Cases("storm", r.N(60, 600), monoStorm)
}

// lockstep runs f(g, i) for i = 0..n-1 on k goroutines which start every i
// together.
func lockstep(k, n int, f func(g, i int)) {
	var wg sync.WaitGroup
	at := make([]atomic.Int32, n)
	for g := 0; g < k; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				at[i].Add(1)
				for s := 0; at[i].Load() < int32(k); s++ {
					if s > 2000 {
						runtime.Gosched()
					}
				}
				f(g, i)
			}
		}()
	}
	wg.Wait()
}

// monoStorm signals, subscribes to and watches many monos at the same moment.
func monoStorm(c *vlib.C) {
	const n = 150
	rng := c.Rng
	k := 2 + rng.Intn(3)
	type one struct {
		p                        *mono.ProcessorImpl[int]
		succ, errs, fin, noted   atomic.Int32
		sig, noteSig, value, eid atomic.Int32
		begin, end               [4]int64
	}
	all := make([]*one, n)
	roles := make([]int, k) // 0 success, 1 error, 2 subscribe, 3 notify
	for g := range roles {
		roles[g] = rng.Intn(4)
	}
	roles[0], roles[1] = rng.Intn(2), rng.Intn(4)
	subscribing, notifying := 0, 0
	for g := range roles {
		if roles[g] == 2 {
			if subscribing == 1 {
				roles[g] = 0
			} else {
				subscribing++
			}
		}
		if roles[g] == 3 {
			notifying++
		}
	}
	sub := func(o *one) mono.Subscribe[int] {
		return mono.Subscribe[int]{
			OnSuccess: func(v int) { o.succ.Add(1); o.value.Store(int32(v)) },
			OnError:   func(error) { o.errs.Add(1) },
			Finally:   func(s rx.SignalType) { o.fin.Add(1); o.sig.Store(int32(s)) },
		}
	}
	for i := range all {
		o := &one{p: mono.NewProcessor[int]()}
		all[i] = o
		if subscribing == 0 {
			o.p.Subscribe(sub(o))
		}
	}
	var seq atomic.Int64
	lockstep(k, n, func(g, i int) {
		o := all[i]
		o.begin[g] = seq.Add(1)
		switch roles[g] {
		case 0:
			o.p.Success(g + 1)
		case 1:
			o.p.Error(errors.New("storm"))
		case 2:
			o.p.Subscribe(sub(o))
		case 3:
			o.p.Notify(func(s rx.SignalType) { o.noted.Add(1); o.noteSig.Store(int32(s)) })
		}
		o.end[g] = seq.Add(1)
	})
	for i, o := range all {
		if o.succ.Load()+o.errs.Load() != 1 || o.fin.Load() != 1 {
			c.Failf("outcome", "roles %v, mono %d: OnSuccess %d times, OnError %d times, Finally %d times", roles, i, o.succ.Load(), o.errs.Load(), o.fin.Load())
			continue
		}
		if int(o.noted.Load()) != notifying {
			c.Failf("notify", "roles %v, mono %d: %d of %d notifications delivered", roles, i, o.noted.Load(), notifying)
		}
		want := rx.SignalComplete
		if o.errs.Load() == 1 {
			want = rx.SignalError
		}
		if rx.SignalType(o.sig.Load()) != want || notifying > 0 && rx.SignalType(o.noteSig.Load()) != want {
			c.Failf("outcome", "roles %v, mono %d: outcome %v, Finally %v, notification %v", roles, i, want, rx.SignalType(o.sig.Load()), rx.SignalType(o.noteSig.Load()))
		}
		v, err := o.p.Get()
		if (err == nil) != (want == rx.SignalComplete) || err == nil && v != int(o.value.Load()) {
			c.Failf("outcome", "roles %v, mono %d: Get (%d, %v), OnSuccess(%d)", roles, i, v, err, o.value.Load())
		}
		overlap := false
		for a := 0; a < k; a++ {
			for b := 0; b < a; b++ {
				overlap = overlap || o.begin[a] < o.end[b] && o.begin[b] < o.end[a]
			}
		}
		if overlap {
			c.Count("contended_outcomes", 1)
		}
		c.Count("outcomes", 1)
	}
	c.Nontrivial("storm %v", roles)
}

func monoOutcome(c *vlib.C) {
	rng := c.Rng
	kind := rng.Intn(10) // 0 Just, 1 Error, 2..5 Create, 6..9 Processor
	layers := rng.Intn(4)
	fail := 0
	if rng.Intn(3) == 0 {
		fail = 2 + rng.Intn(3)
	}
	l := &monoLog{}
	nsig := 1 + rng.Intn(4)
	for i := 0; i < nsig; i++ {
		k := &call{}
		if rng.Intn(3) == 0 {
			k.err = fmt.Errorf("e%d", i)
		} else {
			k.value = 100 + rng.Intn(1000)*10 + i
		}
		l.calls = append(l.calls, k)
	}
	var base mono.Mono[int]
	var wg sync.WaitGroup
	emit := func(k *call, sink mono.Sink[int]) {
		l.signal(k, func() {
			if k.err != nil {
				sink.Error(k.err)
			} else {
				sink.Success(k.value)
			}
		})
	}
	var start []func()
	preset := false
	switch {
	case kind == 0:
		l.calls = l.calls[:1]
		l.calls[0].err = nil
		base = mono.Just(l.calls[0].value)
		preset = true
	case kind == 1:
		l.calls = l.calls[:1]
		l.calls[0].err = errors.New("e0")
		base = mono.Error[int](l.calls[0].err)
		preset = true
	case kind <= 5:
		delays := make([]func(), nsig)
		sync_ := rng.Intn(nsig + 1)
		for i := range delays {
			delays[i] = pause(rng)
		}
		g := gate(rng, nsig-sync_)
		base = mono.Create(func(sink mono.Sink[int]) {
			for i, k := range l.calls {
				if i < sync_ {
					emit(k, sink)
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					delays[i]()
					g()
					emit(k, sink)
				}()
			}
		})
	default:
		p := mono.NewProcessor[int]()
		base = p
		before := rng.Intn(nsig + 1)
		g := gate(rng, nsig-before)
		for i, k := range l.calls {
			if i < before {
				emit(k, p)
				continue
			}
			d := pause(rng)
			start = append(start, func() { d(); g(); emit(k, p) })
		}
	}
	if preset {
		l.calls[0].begin, l.calls[0].end = 0, 0
	}
	m := base
	for i := 0; i < layers; i++ {
		m = mono.Map(m, conv(i, fail))
	}
	sub := mono.Subscribe[int]{
		OnSuccess: func(v int) {
			l.mu.Lock()
			l.successes = append(l.successes, v)
			l.outcomeAt = l.seq.Add(1)
			l.mu.Unlock()
		},
		OnError: func(err error) {
			l.mu.Lock()
			l.errs = append(l.errs, err)
			l.outcomeAt = l.seq.Add(1)
			l.mu.Unlock()
		},
		Finally: func(s rx.SignalType) {
			l.mu.Lock()
			l.finals = append(l.finals, s)
			l.finallyAt = l.seq.Add(1)
			l.mu.Unlock()
		},
	}
	silent := rng.Intn(8) == 0
	if silent {
		switch rng.Intn(3) {
		case 0:
			sub.OnSuccess = nil
		case 1:
			sub.OnError = nil
		case 2:
			sub.OnSuccess, sub.OnError = nil, nil
		}
	}
	if rng.Intn(10) == 0 {
		sub.Finally = nil
	}
	nn := rng.Intn(5)
	l.notified = make([][]rx.SignalType, nn)
	l.notifyAt = make([]int64, nn)
	note := func(i int) {
		m.Notify(func(s rx.SignalType) {
			l.mu.Lock()
			l.notified[i] = append(l.notified[i], s)
			l.notifyAt[i] = l.seq.Add(1)
			l.mu.Unlock()
		})
	}
	early := 0
	if nn > 0 {
		early = rng.Intn(nn + 1)
	}
	for i := 0; i < nn; i++ {
		if i < early {
			note(i)
			continue
		}
		d := pause(rng)
		start = append(start, func() { d(); note(i) })
	}
	d := pause(rng)
	start = append(start, func() { d(); m.Subscribe(sub) })
	rng.Shuffle(len(start), func(i, j int) { start[i], start[j] = start[j], start[i] })
	for _, f := range start {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
	vlib.Settle()

	l.mu.Lock()
	defer l.mu.Unlock()
	// outcomes which may have been first
	minEnd := int64(1 << 62)
	for _, k := range l.calls {
		if k.end < minEnd {
			minEnd = k.end
		}
	}
	type out struct {
		v    int
		err  error
		conv bool
	}
	var cand []out
	for _, k := range l.calls {
		if k.begin <= minEnd {
			o := out{v: k.value, err: k.err}
			for i := 0; i < layers && o.err == nil; i++ {
				v, err := conv(i, fail)(o.v)
				o = out{v: v, err: err, conv: err != nil}
			}
			cand = append(cand, o)
		}
	}
	gv, gerr := m.Get()
	match := -1
	for i, o := range cand {
		if (o.err == nil) == (gerr == nil) && (o.err != nil && o.err.Error() == gerr.Error() || o.err == nil && o.v == gv) {
			match = i
		}
	}
	if match < 0 {
		c.Failf("outcome", "Get returned (%d, %v) which is none of the outcomes that can have been first: %v", gv, gerr, cand)
		return
	}
	o := cand[match]
	want := rx.SignalComplete
	if o.err != nil {
		want = rx.SignalError
	}
	if o.err == nil {
		if len(l.errs) != 0 {
			c.Failf("outcome", "OnError(%v) called although the outcome is success %d", l.errs, o.v)
		}
		if sub.OnSuccess != nil && (len(l.successes) != 1 || l.successes[0] != o.v) {
			c.Failf("outcome", "OnSuccess calls %v, want exactly one with %d", l.successes, o.v)
		}
	} else {
		if len(l.successes) != 0 {
			c.Failf("outcome", "OnSuccess(%v) called although the outcome is %v", l.successes, o.err)
		}
		if sub.OnError != nil && (len(l.errs) != 1 || l.errs[0].Error() != o.err.Error()) {
			c.Failf("outcome", "OnError calls %v, want exactly one with %v", l.errs, o.err)
		}
	}
	if sub.Finally != nil {
		if len(l.finals) != 1 || l.finals[0] != want {
			c.Failf("finally", "Finally calls %v, want exactly one with %v", l.finals, want)
		} else if l.outcomeAt > l.finallyAt {
			c.Failf("finally", "Finally was called before the outcome callback")
		}
	}
	for i, s := range l.notified {
		if len(s) != 1 {
			c.Failf("notify", "notification %d of %d (kind %d) was delivered %d times", i, nn, kind, len(s))
		} else if !o.conv && s[0] != want {
			c.Failf("notify", "notification %d got signal %v, want %v", i, s[0], want)
		} else if !preset {
			first := int64(1 << 62)
			for _, k := range l.calls {
				if k.begin < first {
					first = k.begin
				}
			}
			if l.notifyAt[i] < first {
				c.Failf("notify", "notification %d was delivered before any outcome", i)
			}
		}
		c.Count("notifications", len(s))
	}
	c.Count("outcomes", 1)
	if len(cand) > 1 {
		c.Count("contended_outcomes", 1)
	}
	if o.conv {
		c.Count("failed_conversions", 1)
	}
	order := ""
	for _, k := range l.calls {
		order += fmt.Sprintf("%d-%d,", k.begin, k.end)
	}
	c.Nontrivial("%d %d %d %s %d %v %v", kind, layers, fail, order, match, l.notifyAt, l.finallyAt)
	c.Sample("kind %d, %d maps, signals %s, %d notifications: outcome (%d, %v)", kind, layers, order, nn, gv, gerr)
}

func monoBlock(c *vlib.C) {
	rng := c.Rng
	layers := rng.Intn(3)
	fail := 0
	if rng.Intn(3) == 0 {
		fail = 2 + rng.Intn(3)
	}
	v := rng.Intn(1000)
	var err error
	if rng.Intn(3) == 0 {
		err = errors.New("e")
	}
	d := pause(rng)
	var m mono.Mono[int]
	emit := func(sink mono.Sink[int]) {
		if err != nil {
			sink.Error(err)
		} else {
			sink.Success(v)
		}
	}
	mode := rng.Intn(5)
	switch mode {
	case 0:
		m = mono.Create(func(sink mono.Sink[int]) { emit(sink) })
	case 1:
		m = mono.Create(func(sink mono.Sink[int]) { go func() { d(); emit(sink) }() })
	case 2:
		p := mono.NewProcessor[int]()
		emit(p)
		m = p
	case 3:
		p := mono.NewProcessor[int]()
		go func() { d(); emit(p) }()
		m = p
	case 4:
		if err != nil {
			m = mono.Error[int](err)
		} else {
			m = mono.Just(v)
		}
	}
	wantV, wantE := v, err
	for i := 0; i < layers; i++ {
		m = mono.Map(m, conv(i, fail))
		if wantE == nil {
			wantV, wantE = conv(i, fail)(wantV)
		}
	}
	if layers == 0 && mode != 4 && rng.Intn(3) == 0 {
		// completed by a subscription; Block then returns the outcome
		done := make(chan struct{})
		m.Subscribe(mono.Subscribe[int]{Finally: func(rx.SignalType) { close(done) }})
		<-done
		c.Count("blocked_after_completion", 1)
	}
	gv, ge := m.Block()
	if (ge == nil) != (wantE == nil) || ge != nil && ge.Error() != wantE.Error() || ge == nil && gv != wantV {
		c.Failf("block", "Block returned (%d, %v), want (%d, %v), mode %d, %d layers", gv, ge, wantV, wantE, mode, layers)
	}
	c.Count("blocks", 1)
	c.Nontrivial("block %d %d %d %d %v", mode, layers, fail, v, err)
}

// ------------------------------------------------------------------ fluxes

type fluxLog struct {
	seq       atomic.Int64
	mu        sync.Mutex
	values    []int
	nextAt    []int64
	completes int
	errs      []error
	finals    []rx.SignalType
	endAt     int64 // first of OnComplete, OnError, Finally
	finallyAt int64
	outcomeAt int64
	notified  []int
	notifySig []rx.SignalType
}

func (l *fluxLog) end() {
	if l.endAt == 0 {
		l.endAt = l.seq.Add(1)
	}
}

func (l *fluxLog) subscribe() flux.Subscribe[int] {
	return flux.Subscribe[int]{
		OnNext: func(v int) {
			l.mu.Lock()
			l.values = append(l.values, v)
			l.nextAt = append(l.nextAt, l.seq.Add(1))
			l.mu.Unlock()
		},
		OnComplete: func() {
			l.mu.Lock()
			l.completes++
			l.end()
			l.outcomeAt = l.seq.Add(1)
			l.mu.Unlock()
		},
		OnError: func(err error) {
			l.mu.Lock()
			l.errs = append(l.errs, err)
			l.end()
			l.outcomeAt = l.seq.Add(1)
			l.mu.Unlock()
		},
		Finally: func(s rx.SignalType) {
			l.mu.Lock()
			l.finals = append(l.finals, s)
			l.end()
			l.finallyAt = l.seq.Add(1)
			l.mu.Unlock()
		},
	}
}

func (l *fluxLog) got() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.values)
}

// checkEnd checks the terminal callbacks against the expected signal and
// error; late is the number of values allowed behind the end.
func (l *fluxLog) checkEnd(c *vlib.C, want rx.SignalType, err error, late int) {
	if len(l.finals) != 1 || l.finals[0] != want {
		c.Failf("terminal", "Finally calls %v, want exactly one with %v", l.finals, want)
		return
	}
	wc, we := 0, 0
	switch want {
	case rx.SignalComplete:
		wc = 1
	case rx.SignalError:
		we = 1
	}
	if l.completes != wc || len(l.errs) != we {
		c.Failf("terminal", "OnComplete called %d times and OnError %v for a flux ending with %v", l.completes, l.errs, want)
		return
	}
	if we == 1 && l.errs[0].Error() != err.Error() {
		c.Failf("terminal", "OnError got %v, want %v", l.errs[0], err)
	}
	if l.outcomeAt > l.finallyAt {
		c.Failf("terminal", "Finally was called before the outcome callback")
	}
	n := 0
	for _, at := range l.nextAt {
		if at > l.endAt {
			n++
		}
	}
	if n > late {
		c.Failf("after-end", "%d values were delivered after the final signal", n)
	}
	c.Count("terminals", 1)
}

func (l *fluxLog) checkNotify(c *vlib.C, ended bool, want rx.SignalType, any bool) {
	for i, n := range l.notified {
		w := 0
		if ended {
			w = 1
		}
		if n != w {
			c.Failf("notify", "notification %d was delivered %d times, want %d", i, n, w)
		} else if ended && !any && l.notifySig[i] != want {
			c.Failf("notify", "notification %d got %v, want %v", i, l.notifySig[i], want)
		}
	}
	c.Count("notifications", len(l.notified))
}

func (l *fluxLog) checkPrefix(c *vlib.C, f func(int) int) {
	for i, v := range l.values {
		if v != f(i) {
			c.Failf("order", "value %d is %d, want %d (delivered %v)", i, v, f(i), brief(l.values))
			return
		}
	}
	c.Count("values", len(l.values))
}

func brief(v []int) string {
	s := fmt.Sprint(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func p16(r *vlib.R) {
	r.Bubble("source", r.N(4000, 60000), fluxSource)
	r.Bubble("slice", r.N(3000, 40000), fluxSlice)
	r.Bubble("map", r.N(2000, 30000), fluxMap)
	r.Bubble("cancel", r.N(3000, 40000), fluxCancel)
	r.Bubble("block", r.N(1500, 20000), fluxBlock)
	r.Bubble("proc", r.N(2000, 30000), fluxProcessor)
	r.Cases("storm", r.N(60, 600), fluxStorm)
}

// fluxStorm makes many fluxes end, be cancelled, watched and asked for values
// at the same moment.
func fluxStorm(c *vlib.C) {
	const n = 150
	rng := c.Rng
	k := 2 + rng.Intn(3)
	type one struct {
		f                            flux.Flux[int]
		sink                         flux.Sink[int]
		comp, errs, fin, noted, canc atomic.Int32
		sig, noteSig                 atomic.Int32
		asked                        atomic.Int64
		begin, end                   [4]int64
	}
	roles := make([]int, k) // 0 complete, 1 error, 2 cancel, 3 notify, 4 request
	for g := range roles {
		roles[g] = rng.Intn(5)
	}
	roles[0] = rng.Intn(3)
	notifying, requesting, ending := 0, 0, 0
	for _, r := range roles {
		switch r {
		case 3:
			notifying++
		case 4:
			requesting++
		default:
			ending++
		}
	}
	all := make([]*one, n)
	for i := range all {
		o := &one{}
		o.f = flux.Create(func(s flux.Sink[int]) {
			o.sink = s
			s.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { o.asked.Add(int64(n)) },
				Cancel:  func() { o.canc.Add(1) },
			})
		})
		o.f.Subscribe(flux.Subscribe[int]{
			NoRequest:  true,
			OnComplete: func() { o.comp.Add(1) },
			OnError:    func(error) { o.errs.Add(1) },
			Finally:    func(s rx.SignalType) { o.fin.Add(1); o.sig.Store(int32(s)) },
		})
		all[i] = o
	}
	var seq atomic.Int64
	lockstep(k, n, func(g, i int) {
		o := all[i]
		o.begin[g] = seq.Add(1)
		switch roles[g] {
		case 0:
			o.sink.Complete()
		case 1:
			o.sink.Error(errors.New("storm"))
		case 2:
			o.f.Subscription().Cancel()
		case 3:
			o.f.Notify(func(s rx.SignalType) { o.noted.Add(1); o.noteSig.Store(int32(s)) })
		case 4:
			o.f.Subscription().Request(g + 1)
		}
		o.end[g] = seq.Add(1)
	})
	for i, o := range all {
		sig := rx.SignalType(o.sig.Load())
		wc, we, wx := int32(0), int32(0), int32(0)
		switch sig {
		case rx.SignalComplete:
			wc = 1
		case rx.SignalError:
			we = 1
		case rx.SignalCancel:
			wx = 1
		}
		if o.fin.Load() != 1 || o.comp.Load() != wc || o.errs.Load() != we || o.canc.Load() != wx {
			c.Failf("terminal", "roles %v, flux %d: Finally %d times (%v), OnComplete %d, OnError %d, source cancelled %d times", roles, i,
				o.fin.Load(), sig, o.comp.Load(), o.errs.Load(), o.canc.Load())
			continue
		}
		if int(o.noted.Load()) != notifying || notifying > 0 && o.noteSig.Load() != int32(sig) {
			c.Failf("notify", "roles %v, flux %d: %d of %d notifications delivered, last with %v", roles, i, o.noted.Load(), notifying, rx.SignalType(o.noteSig.Load()))
		}
		for a := 0; a < k; a++ {
			for b := 0; b < a; b++ {
				if o.begin[a] < o.end[b] && o.begin[b] < o.end[a] {
					c.Count("contended_ends", 1)
				}
			}
		}
		c.Count("terminals", 1)
	}
	c.Nontrivial("storm %v", roles)
}

// source emits 0,1,2.. as far as it is asked to and then ends; it reports
// everything it is asked for.
type source struct {
	total     int
	err       error // final error, nil means complete
	endless   bool  // never ends by itself
	ignore    bool  // emits without being asked
	junk      bool  // keeps signalling after its end
	mu        sync.Mutex
	asked     int
	askCalls  int
	cancelled int
	runs      int
	wake      chan struct{}
	step      func()
	subAfter  bool // calls OnSubscribe late
	emitted   int
	over      bool // emitted more than it was asked to (own fault)
}

func (s *source) run(sink flux.Sink[int]) {
	s.mu.Lock()
	s.runs++
	s.mu.Unlock()
	s.wake = make(chan struct{}, 1)
	kick := func() {
		select {
		case s.wake <- struct{}{}:
		default:
		}
	}
	on := flux.OnSubscribe{
		Request: func(n int) {
			s.mu.Lock()
			s.asked += n
			s.askCalls++
			s.mu.Unlock()
			kick()
		},
		Cancel: func() {
			s.mu.Lock()
			s.cancelled++
			s.mu.Unlock()
			kick()
		},
	}
	if !s.subAfter {
		sink.OnSubscribe(on)
	}
	go func() {
		if s.subAfter {
			s.step()
			sink.OnSubscribe(on)
		}
		for i := 0; i < s.total; i++ {
			s.step()
			for !s.ignore {
				s.mu.Lock()
				ok, gone := s.asked > s.emitted, s.cancelled > 0
				s.mu.Unlock()
				if gone {
					return
				}
				if ok {
					break
				}
				<-s.wake
			}
			s.mu.Lock()
			gone := s.cancelled > 0
			s.emitted++
			s.mu.Unlock()
			if gone {
				return
			}
			sink.Next(i)
		}
		if s.endless {
			return
		}
		s.step()
		if s.err != nil {
			sink.Error(s.err)
		} else {
			sink.Complete()
		}
		if s.junk {
			sink.Next(-1)
			sink.Complete()
			sink.Error(errors.New("junk"))
			sink.Next(-2)
		}
	}()
}

// release wakes a source that is still waiting, so the bubble can end.
func (s *source) release() {
	s.mu.Lock()
	s.cancelled += 1000
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func addNotify[T any](c *vlib.C, rng *rand.Rand, wg *sync.WaitGroup, f flux.Flux[T], l *fluxLog) (run []func()) {
	n := rng.Intn(4)
	l.notified = make([]int, n)
	l.notifySig = make([]rx.SignalType, n)
	for i := 0; i < n; i++ {
		reg := func() {
			f.Notify(func(s rx.SignalType) {
				l.mu.Lock()
				l.notified[i]++
				l.notifySig[i] = s
				l.mu.Unlock()
			})
		}
		if rng.Intn(2) == 0 {
			reg()
			continue
		}
		d := pause(rng)
		run = append(run, func() { d(); reg() })
	}
	return run
}

func fluxSource(c *vlib.C) {
	rng := c.Rng
	s := &source{total: rng.Intn(30), ignore: rng.Intn(5) == 0, junk: rng.Intn(2) == 0, subAfter: rng.Intn(3) == 0, step: pause(rng)}
	if rng.Intn(3) == 0 {
		s.err = errors.New("source failed")
	}
	l := &fluxLog{}
	sub := l.subscribe()
	batch := 0
	var wg sync.WaitGroup
	f := flux.Create(s.run)
	run := addNotify(c, rng, &wg, f, l)
	mode := rng.Intn(3)
	total := 0
	switch mode {
	case 1: // batches requested by OnRequest
		batch = 1 + rng.Intn(5)
		sub.OnRequest = func(s rx.Subscription) { s.Request(batch) }
	case 2: // explicit requests only
		sub.NoRequest = true
	}
	run = append(run, func() { f.Subscribe(sub) })
	for _, g := range run {
		wg.Add(1)
		go func() { defer wg.Done(); g() }()
	}
	wg.Wait()
	if mode == 2 {
		sn := f.Subscription()
		k := 1 + rng.Intn(4)
		for i := 0; i < k; i++ {
			n := 1 + rng.Intn(12)
			total += n
			d := pause(rng)
			wg.Add(1)
			go func() { defer wg.Done(); d(); sn.Request(n) }()
		}
		wg.Wait()
	}
	// sources wait for demand on a channel of the bubble: time passes freely
	time.Sleep(time.Hour)
	vlib.Settle()
	func() {
		l.mu.Lock()
		defer l.mu.Unlock()
		s.mu.Lock()
		defer s.mu.Unlock()
		want := s.total
		ended := true
		if mode == 2 && !s.ignore && total < s.total {
			want, ended = total, false
		}
		if len(l.values) != want {
			c.Failf("liveness", "delivered %d of %d values (mode %d, batch %d, requested %d, source asked for %d in %d calls)",
				len(l.values), want, mode, batch, total, s.asked, s.askCalls)
		}
		l.checkPrefix(c, func(i int) int { return i })
		if ended {
			sig := rx.SignalComplete
			if s.err != nil {
				sig = rx.SignalError
			}
			l.checkEnd(c, sig, s.err, 0)
			l.checkNotify(c, true, sig, false)
			if s.cancelled != 0 {
				c.Failf("cancel", "the source was cancelled although the subscriber never cancelled")
			}
		} else {
			if len(l.finals)+l.completes+len(l.errs) != 0 {
				c.Failf("terminal", "final signals %v %d %v for a flux that has not ended", l.finals, l.completes, l.errs)
			}
			l.checkNotify(c, false, 0, false)
			if s.asked != total {
				c.Failf("demand", "the subscriber requested %d, the source was asked for %d", total, s.asked)
			}
			c.Count("demand_checked", 1)
		}
		if mode == 2 && s.asked > total {
			c.Failf("demand", "the subscriber requested %d, the source was asked for %d", total, s.asked)
		}
		if mode == 1 && !s.ignore {
			// every batch is requested once the one before it is used up
			lo := batch * (1 + len(l.values)/batch)
			if s.asked > lo {
				c.Failf("demand", "%d values delivered in batches of %d but %d requested", len(l.values), batch, s.asked)
			}
		}
		c.Nontrivial("source %d %v %v %v %d %d %d %v", s.total, s.ignore, s.subAfter, s.err, mode, batch, total, l.nextAt)
		c.Sample("%d values, mode %d, batch %d, requested %d: delivered %d, finals %v", s.total, mode, batch, total, len(l.values), l.finals)
	}()
	s.release()
}

func fluxSlice(c *vlib.C) {
	rng := c.Rng
	n := rng.Intn(25)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = 7 * i
	}
	l := &fluxLog{}
	var f flux.Flux[int]
	if rng.Intn(2) == 0 {
		f = flux.FromSlice(vals)
	} else {
		f = flux.Create(func(sink flux.Sink[int]) {
			sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, vals)})
		})
	}
	sub := l.subscribe()
	var wg sync.WaitGroup
	run := addNotify(c, rng, &wg, f, l)
	for _, g := range run {
		wg.Add(1)
		go func() { defer wg.Done(); g() }()
	}
	total := 0
	mode := rng.Intn(3)
	if mode == 1 {
		b := 1 + rng.Intn(6)
		sub.OnRequest = func(s rx.Subscription) { s.Request(b) }
	}
	sub.NoRequest = mode == 2
	f.Subscribe(sub)
	steps := ""
	if mode == 2 {
		k := rng.Intn(5)
		sn := f.Subscription()
		if rng.Intn(2) == 0 {
			// one after the other: exact after every step
			for i := 0; i < k; i++ {
				m := 1 + rng.Intn(10)
				if rng.Intn(6) == 0 {
					m = rx.RequestMax
				}
				total += m
				sn.Request(m)
				vlib.Settle()
				want := total
				if want > n {
					want = n
				}
				if g := l.got(); g != want {
					c.Failf("demand", "%d values of %d delivered after requesting %d", g, n, total)
				}
				steps += fmt.Sprint(m, ",")
			}
		} else {
			for i := 0; i < k; i++ {
				m := 1 + rng.Intn(10)
				total += m
				d := pause(rng)
				wg.Add(1)
				go func() { defer wg.Done(); d(); sn.Request(m) }()
			}
		}
	}
	wg.Wait()
	vlib.Settle()
	l.mu.Lock()
	defer l.mu.Unlock()
	want, ended := n, true
	if mode == 2 {
		ended = total >= n && total > 0
		if total < n {
			want = total
		}
	}
	if len(l.values) != want {
		c.Failf("demand", "%d of %d values delivered, want %d (mode %d, requested %d)", len(l.values), n, want, mode, total)
	}
	l.checkPrefix(c, func(i int) int { return 7 * i })
	if ended {
		l.checkEnd(c, rx.SignalComplete, nil, 0)
	} else if len(l.finals) != 0 {
		c.Failf("terminal", "the slice ended with %v after %d of %d values", l.finals, len(l.values), n)
	}
	l.checkNotify(c, ended, rx.SignalComplete, false)
	c.Nontrivial("slice %d %d %d %s", n, mode, total, steps)
}

func fluxMap(c *vlib.C) {
	rng := c.Rng
	s := &source{total: rng.Intn(20), junk: rng.Intn(2) == 0, step: pause(rng), ignore: rng.Intn(3) == 0}
	if rng.Intn(3) == 0 {
		s.err = errors.New("source failed")
	}
	layers := 1 + rng.Intn(3)
	failAt, failLayer := -1, 0
	if rng.Intn(2) == 0 && s.total > 0 {
		failAt, failLayer = rng.Intn(s.total), rng.Intn(layers)
	}
	// the conversion which fails may have cancelled everything before
	cancelled := failAt >= 0 && rng.Intn(4) == 0
	var f flux.Flux[int] = flux.Create(s.run)
	fl := make([]atomic.Int64, layers)
	for i := 0; i < layers; i++ {
		f = flux.Map(f, func(v int) (int, error) {
			idx := fl[i].Add(1) - 1
			if int(idx) == failAt && failLayer == i {
				if cancelled {
					f.Subscription().Cancel()
				}
				return 0, fmt.Errorf("value %d: %w", idx, errConv)
			}
			return v*3 + i, nil
		})
	}
	expect := func(v int) int {
		for i := 0; i < layers; i++ {
			v = v*3 + i
		}
		return v
	}
	l := &fluxLog{}
	sub := l.subscribe()
	var wg sync.WaitGroup
	run := addNotify(c, rng, &wg, f, l)
	if rng.Intn(2) == 0 {
		b := 1 + rng.Intn(5)
		sub.OnRequest = func(s rx.Subscription) { s.Request(b) }
	}
	run = append(run, func() { f.Subscribe(sub) })
	for _, g := range run {
		wg.Add(1)
		go func() { defer wg.Done(); g() }()
	}
	wg.Wait()
	time.Sleep(time.Hour)
	vlib.Settle()
	func() {
		l.mu.Lock()
		defer l.mu.Unlock()
		s.mu.Lock()
		defer s.mu.Unlock()
		l.checkPrefix(c, expect)
		want := s.total
		if failAt >= 0 {
			want = failAt
		}
		if len(l.values) != want {
			c.Failf("liveness", "%d values delivered, want %d", len(l.values), want)
		}
		if cancelled {
			l.checkEnd(c, rx.SignalCancel, nil, 0)
			l.checkNotify(c, true, rx.SignalCancel, false)
			c.Count("cancelled_by_conversions", 1)
		} else if failAt >= 0 {
			l.checkEnd(c, rx.SignalError, fmt.Errorf("value %d: %w", failAt, errConv), 0)
			if s.cancelled != 1 {
				c.Failf("cancel", "the source of a failed conversion was cancelled %d times", s.cancelled)
			}
			l.checkNotify(c, true, 0, true)
			c.Count("failed_conversions", 1)
		} else {
			sig := rx.SignalComplete
			if s.err != nil {
				sig = rx.SignalError
			}
			l.checkEnd(c, sig, s.err, 0)
			l.checkNotify(c, true, sig, false)
		}
		c.Nontrivial("map %d %d %d %d %v", s.total, layers, failAt, failLayer, s.err)
	}()
	s.release()
}

// fluxCancel cancels from within OnNext or concurrently.
func fluxCancel(c *vlib.C) {
	rng := c.Rng
	s := &source{total: 5 + rng.Intn(30), step: pause(rng), ignore: rng.Intn(3) == 0, junk: true, subAfter: rng.Intn(4) == 0}
	l := &fluxLog{}
	f := flux.Create(s.run)
	sub := l.subscribe()
	var wg sync.WaitGroup
	run := addNotify(c, rng, &wg, f, l)
	at := -1
	inside := rng.Intn(2) == 0
	var returned atomic.Int64
	next := sub.OnNext
	if inside {
		at = rng.Intn(s.total)
		n := 0
		sub.OnNext = func(v int) {
			next(v)
			if n++; n == at+1 {
				f.Subscription().Cancel()
				if rng.Intn(2) == 0 {
					f.Subscription().Cancel()
				}
				returned.Store(l.seq.Add(1))
			}
		}
	} else {
		k := 1 + rng.Intn(3)
		for i := 0; i < k; i++ {
			d := pause(rng)
			extra := rng.Intn(3)
			run = append(run, func() {
				for j := 0; j <= extra; j++ {
					d()
				}
				for f.Subscription() == nil {
					time.Sleep(time.Microsecond)
				}
				f.Subscription().Cancel()
				returned.CompareAndSwap(0, l.seq.Add(1))
			})
		}
	}
	run = append(run, func() { f.Subscribe(sub) })
	for _, g := range run {
		wg.Add(1)
		go func() { defer wg.Done(); g() }()
	}
	wg.Wait()
	time.Sleep(time.Hour)
	vlib.Settle()
	func() {
		l.mu.Lock()
		defer l.mu.Unlock()
		s.mu.Lock()
		defer s.mu.Unlock()
		l.checkPrefix(c, func(i int) int { return i })
		if inside {
			if len(l.values) != at+1 {
				c.Failf("after-cancel", "%d values delivered, cancelled in number %d", len(l.values), at+1)
			}
			l.checkEnd(c, rx.SignalCancel, nil, 0)
			l.checkNotify(c, true, rx.SignalCancel, false)
			if !s.subAfter && s.cancelled != 1 || s.cancelled > 1 {
				c.Failf("cancel", "the source was cancelled %d times", s.cancelled)
			}
		} else if len(l.finals) == 1 && l.finals[0] == rx.SignalCancel {
			l.checkEnd(c, rx.SignalCancel, nil, 1)
			l.checkNotify(c, true, rx.SignalCancel, false)
			if !s.subAfter && s.cancelled > 1 {
				c.Failf("cancel", "the source was cancelled %d times", s.cancelled)
			}
		} else {
			l.checkEnd(c, rx.SignalComplete, nil, 0)
			l.checkNotify(c, true, rx.SignalComplete, false)
			if len(l.values) != s.total {
				c.Failf("liveness", "completed after %d of %d values", len(l.values), s.total)
			}
			if s.cancelled != 0 {
				c.Failf("cancel", "a completed source was cancelled")
			}
		}
		n := 0
		for _, t := range l.nextAt {
			if t > returned.Load() && returned.Load() != 0 {
				n++
			}
		}
		if n > 1 && len(l.finals) == 1 && l.finals[0] == rx.SignalCancel {
			c.Failf("after-cancel", "%d values delivered after Cancel returned", n)
		}
		c.Count("cancels", 1)
		c.Nontrivial("cancel %v %d %d %d %v", inside, at, s.total, len(l.values), l.finals)
	}()
	s.release()
}

func fluxBlock(c *vlib.C) {
	rng := c.Rng
	l := &fluxLog{}
	sub := l.subscribe()
	if rng.Intn(3) == 0 {
		sub.Finally = nil
	}
	if rng.Intn(6) == 0 {
		sub = flux.Subscribe[int]{}
	}
	var f flux.Flux[int]
	var want error
	n := rng.Intn(15)
	var s *source
	switch rng.Intn(3) {
	case 0:
		want = errors.New("at once")
		f = flux.Error[int](want)
		n = 0
	case 1:
		f = flux.FromSlice(make([]int, n))
	default:
		s = &source{total: n, step: pause(rng)}
		if rng.Intn(2) == 0 {
			want = errors.New("source failed")
			s.err = want
		}
		f = flux.Create(s.run)
	}
	mapped := rng.Intn(3) == 0
	if mapped {
		f = flux.Map(f, func(v int) (int, error) { return v, nil })
	}
	var done atomic.Int32
	f.Notify(func(rx.SignalType) { done.Add(1) })
	err := f.Block(sub)
	if (err == nil) != (want == nil) || err != nil && err.Error() != want.Error() {
		c.Failf("block", "Block returned %v, want %v", err, want)
	}
	if sub.OnNext != nil && l.got() != n && want != nil && s == nil {
		c.Failf("block", "Block delivered %d of %d values", l.got(), n)
	}
	vlib.Settle()
	if done.Load() != 1 {
		c.Failf("notify", "the notification was delivered %d times", done.Load())
	}
	if sub.OnNext != nil && s != nil && l.got() != n {
		c.Failf("block", "Block delivered %d of %d values", l.got(), n)
	}
	if !mapped && s != nil {
		if again := f.Block(flux.Subscribe[int]{}); (again == nil) != (want == nil) {
			c.Failf("block", "Block after the end returned %v, want %v", again, want)
		}
		s.mu.Lock()
		if s.runs != 1 {
			c.Failf("block", "Block after the end has made the source run %d times", s.runs)
		}
		s.mu.Unlock()
	}
	c.Count("blocks", 1)
	c.Nontrivial("block %d %v %v %v", n, want, mapped, s != nil)
	if s != nil {
		s.release()
	}
}

// fluxProcessor feeds a processor from outside, with the handlers of demand
// and cancellation installed before or after the subscription.
func fluxProcessor(c *vlib.C) {
	rng := c.Rng
	p := flux.NewProcessor[int]()
	n := rng.Intn(20)
	var asked, cancelled atomic.Int64
	on := flux.OnSubscribe{
		Request: func(k int) { asked.Add(int64(k)) },
		Cancel:  func() { cancelled.Add(1) },
	}
	before := rng.Intn(2) == 0
	if before {
		p.OnSubscribe(on)
	}
	l := &fluxLog{}
	sub := l.subscribe()
	sub.NoRequest = rng.Intn(2) == 0
	if rng.Intn(6) == 0 {
		// It ends, maybe repeatedly, before or while it is subscribed to.
		fluxProcessorEnded(c, p, l, sub)
		return
	}
	var wg sync.WaitGroup
	run := addNotify[int](c, rng, &wg, p, l)
	batch := 0
	if !sub.NoRequest {
		batch = 1 + rng.Intn(6)
		sub.OnRequest = func(s rx.Subscription) { s.Request(batch) }
	}
	p.Subscribe(sub)
	if !before {
		run = append(run, func() { p.OnSubscribe(on) })
	}
	how := rng.Intn(3)
	d := pause(rng)
	run = append(run, func() {
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				d()
			}
			p.Next(i)
		}
		switch how {
		case 0:
			p.Complete()
		case 1:
			p.Error(errors.New("fed error"))
		}
	})
	want := 0
	if sub.NoRequest {
		for i, k := 0, rng.Intn(4); i < k; i++ {
			m := 1 + rng.Intn(20)
			want += m
			d := pause(rng)
			run = append(run, func() { d(); p.Subscription().Request(m) })
		}
	}
	for _, g := range run {
		wg.Add(1)
		go func() { defer wg.Done(); g() }()
	}
	wg.Wait()
	vlib.Settle()
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.values) != n {
		c.Failf("liveness", "%d of %d values delivered", len(l.values), n)
	}
	l.checkPrefix(c, func(i int) int { return i })
	switch how {
	case 0:
		l.checkEnd(c, rx.SignalComplete, nil, 0)
		l.checkNotify(c, true, rx.SignalComplete, false)
	case 1:
		l.checkEnd(c, rx.SignalError, errors.New("fed error"), 0)
		l.checkNotify(c, true, rx.SignalError, false)
	default:
		l.checkNotify(c, false, 0, false)
		if len(l.finals) != 0 {
			c.Failf("terminal", "final signals %v without an end", l.finals)
		}
		// values fed before the handler is installed use up demand
		lo := int64(want)
		if !before {
			lo -= int64(n)
		}
		if sub.NoRequest && (asked.Load() < lo || asked.Load() > int64(want)) {
			c.Failf("demand", "requested %d, the feeder was asked for %d", want, asked.Load())
		}
		if !sub.NoRequest && before && asked.Load() != int64(batch*(1+n/batch)) {
			c.Failf("demand", "%d values in batches of %d: the feeder was asked for %d", n, batch, asked.Load())
		}
		c.Count("demand_checked", 1)
	}
	if cancelled.Load() != 0 {
		c.Failf("cancel", "the feeder was cancelled %d times", cancelled.Load())
	}
	c.Nontrivial("proc %d %v %d %d %d %v", n, before, how, want, batch, l.nextAt)
}

func fluxProcessorEnded(c *vlib.C, p flux.Processor[int], l *fluxLog, sub flux.Subscribe[int]) {
	rng := c.Rng
	var wg sync.WaitGroup
	run := addNotify[int](c, rng, &wg, p, l)
	concurrent := rng.Intn(2) == 0
	fails := rng.Intn(2) == 0
	end := func() { p.Complete() }
	if fails {
		end = func() { p.Error(errors.New("fed error")) }
	}
	for i, k := 0, 1+rng.Intn(3); i < k; i++ {
		d := pause(rng)
		if concurrent {
			run = append(run, func() { d(); end() })
		} else {
			end()
		}
	}
	d := pause(rng)
	run = append(run, func() { d(); p.Subscribe(sub) })
	for _, g := range run {
		wg.Add(1)
		go func() { defer wg.Done(); g() }()
	}
	wg.Wait()
	vlib.Settle()
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.values) != 0 {
		c.Failf("delivery", "values %v out of nowhere", l.values)
	}
	if fails {
		l.checkEnd(c, rx.SignalError, errors.New("fed error"), 0)
		l.checkNotify(c, true, rx.SignalError, false)
	} else {
		l.checkEnd(c, rx.SignalComplete, nil, 0)
		l.checkNotify(c, true, rx.SignalComplete, false)
	}
	c.Count("ended_early", 1)
	c.Nontrivial("ended %v %v %v", concurrent, fails, l.nextAt)
}

// ------------------------------------------------------------------- flows

func p17(r *vlib.R) {
	r.Bubble("flow", r.N(5000, 80000), flowRun)
}

// tracked is an awaitable whose completion the monitor knows about.
type tracked struct {
	await.Awaitable
	started atomic.Int32
	done    atomic.Int32 // set just before the outcome is signalled
	get     func() (int, error)
	v       int
	err     error
}

// proxyMono is a request as made through a generated client: the request goes
// out when the flow starts it, the answer comes in later.
func proxyAwaitable(rng *rand.Rand, v int, err error, t *tracked) {
	d := pause(rng)
	var str atomic.Value
	req := frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 1}
	m := proxy.Mono(context.Background(), req, func(frames.Frame) error {
		t.started.Add(1)
		go func() {
			d()
			s := str.Load().(proxy.Stream)
			t.done.Store(1)
			if err != nil {
				s.OnError(err)
			} else {
				s.OnNext(payload.New(make([]byte, v), nil))
				s.OnComplete()
			}
		}()
		return nil
	}, func(s proxy.Stream) { str.Store(s) })
	w := mono.Map(m, func(p payload.Payload) (int, error) { return len(p.Data()), nil })
	t.Awaitable = w
	t.get = w.Get
}

// hotAwaitable completes by itself, maybe before the flow looks at it.
func hotAwaitable(rng *rand.Rand, v int, err error, t *tracked) {
	d := pause(rng)
	p := mono.NewProcessor[int]()
	emit := func() {
		t.done.Store(1)
		if err != nil {
			p.Error(err)
		} else {
			p.Success(v)
		}
	}
	t.started.Store(1)
	if rng.Intn(2) == 0 {
		emit()
	} else {
		go func() { d(); emit() }()
	}
	p.Subscribe(mono.Subscribe[int]{})
	t.Awaitable = p
	t.get = p.Get
}

func staticAwaitable(v int, err error, t *tracked) {
	t.started.Store(1)
	t.done.Store(1)
	m := mono.Just(v)
	if err != nil {
		m = mono.Error[int](err)
	}
	t.Awaitable = m
	t.get = m.Get
}

// streamAwaitable is a request stream that is awaited as a whole.
func streamAwaitable(rng *rand.Rand, v int, err error, t *tracked) {
	d := pause(rng)
	var str atomic.Value
	req := frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: 3}
	f := proxy.Flux(context.Background(), req, nil, func(fr frames.Frame) error {
		if fr.Type() != frames.FrameTypeRequestStream {
			return nil
		}
		t.started.Add(1)
		go func() {
			d()
			s := str.Load().(proxy.Stream)
			s.OnNext(payload.New([]byte{1}, nil))
			d()
			t.done.Store(1)
			if err != nil {
				s.OnError(err)
			} else {
				s.OnComplete()
			}
		}()
		return nil
	}, func(s proxy.Stream) { str.Store(s) })
	t.Awaitable = f
	t.get = func() (int, error) { return v, err }
}

func flowRun(c *vlib.C) {
	rng := c.Rng
	n := 1 + rng.Intn(6)
	kind := rng.Intn(2) // mono or flux
	ending := rng.Intn(5)
	failAt := n - 1
	if ending == 1 || ending == 2 || ending == 4 {
		failAt = rng.Intn(n)
	}
	fl := flow.New[int]()
	var mu sync.Mutex
	runs := make([]int, n)
	var order []int
	groups := make([][]*tracked, n)
	shape := ""
	sum := 0
	expect := 0
	for i := 0; i < n; i++ {
		k := 1 + rng.Intn(4)
		if rng.Intn(8) == 0 {
			k = 1 + rng.Intn(20)
		}
		for j := 0; j < k; j++ {
			t := &tracked{v: rng.Intn(50)}
			if rng.Intn(5) == 0 {
				t.err = errors.New("awaited error")
			}
			groups[i] = append(groups[i], t)
			if i < failAt && t.err == nil {
				expect += t.v
			}
		}
		shape += fmt.Sprint(k, ",")
	}
	boom := errors.New("step failed")
	var emitted []int
	var delayed []func()
	for i := 0; i < n; i++ {
		kinds := make([]int, len(groups[i]))
		same := rng.Intn(3)
		for j := range kinds {
			kinds[j] = rng.Intn(4)
			if same == 0 {
				kinds[j] = 1 // a group of requests: the common case
			}
		}
		seed := rng.Int63()
		fl.Steps(func() (await.Group, error) {
			mu.Lock()
			runs[i]++
			order = append(order, i)
			mu.Unlock()
			if i > 0 {
				for j, t := range groups[i-1] {
					if t.started.Load() == 0 || t.done.Load() == 0 {
						c.Failf("early-step", "step %d runs before awaitable %d of the step before has completed", i, j)
						return nil, nil
					}
					v, err := t.get()
					if v != t.v && t.err == nil || (err == nil) != (t.err == nil) {
						c.Failf("awaited-value", "awaitable %d of step %d: got (%d, %v), want (%d, %v)", j, i-1, v, err, t.v, t.err)
					}
					if err == nil {
						sum += v
					}
				}
			}
			if kind == 1 && i < failAt {
				fl.Next(i)
				mu.Lock()
				emitted = append(emitted, i)
				mu.Unlock()
			}
			if i == failAt {
				switch ending {
				case 1:
					return nil, boom
				case 2:
					return fl.Error(boom)
				case 4:
					// Ending early: nothing is awaited and no step follows.
					if kind == 0 {
						fl.Success(sum)
					} else {
						fl.Next(1000 + sum)
						fl.Complete()
					}
					c.Count("early_ends", 1)
					if _, err := fl.End(); err != nil {
						return nil, err
					}
				default:
					if kind == 0 {
						return fl.Success(sum)
					}
					fl.Next(1000 + sum)
					return fl.Complete()
				}
			}
			g := rand.New(rand.NewSource(seed))
			var as []await.Awaitable
			for j, t := range groups[i] {
				switch kinds[j] {
				case 0:
					hotAwaitable(g, t.v, t.err, t)
				case 1:
					proxyAwaitable(g, t.v, t.err, t)
				case 2:
					staticAwaitable(t.v, t.err, t)
				case 3:
					streamAwaitable(g, t.v, t.err, t)
				}
				as = append(as, t)
			}
			c.Count("awaitables", len(as))
			return await.All(as...)
		})
	}
	_ = delayed
	bad := ending == 1 || ending == 2
	if kind == 0 {
		var succ []int
		var errs []error
		var fin []rx.SignalType
		fl.Mono().Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { mu.Lock(); succ = append(succ, v); mu.Unlock() },
			OnError:   func(e error) { mu.Lock(); errs = append(errs, e); mu.Unlock() },
			Finally:   func(s rx.SignalType) { mu.Lock(); fin = append(fin, s); mu.Unlock() },
		})
		time.Sleep(time.Hour)
		vlib.Settle()
		mu.Lock()
		defer mu.Unlock()
		if bad {
			if len(errs) != 1 || errs[0] != boom || len(succ) != 0 || len(fin) != 1 {
				c.Failf("flow-outcome", "a flow failing in step %d of %d ended with success %v, errors %v, finally %v", failAt, n, succ, errs, fin)
			}
		} else if len(succ) != 1 || succ[0] != expect || len(errs) != 0 || len(fin) != 1 {
			c.Failf("flow-outcome", "flow of %d steps ended with success %v (want %d), errors %v, finally %v", n, succ, expect, errs, fin)
		}
	} else {
		l := &fluxLog{}
		fl.Flux().Subscribe(l.subscribe())
		time.Sleep(time.Hour)
		vlib.Settle()
		mu.Lock()
		defer mu.Unlock()
		l.mu.Lock()
		defer l.mu.Unlock()
		want := append([]int{}, emitted...)
		if bad {
			l.checkEnd(c, rx.SignalError, boom, 0)
		} else {
			want = append(want, 1000+expect)
			l.checkEnd(c, rx.SignalComplete, nil, 0)
		}
		if fmt.Sprint(want) != fmt.Sprint(l.values) {
			c.Failf("flow-outcome", "flow emitted %v, subscriber got %v", want, l.values)
		}
	}
	for i := range runs {
		want := 1
		if i > failAt {
			want = 0
		}
		if runs[i] != want {
			c.Failf("steps", "step %d of %d ran %d times, want %d (order %v)", i, n, runs[i], want, order)
		}
		c.Count("steps", runs[i])
	}
	for i := range order {
		if order[i] != i {
			c.Failf("steps", "steps ran in the order %v", order)
			break
		}
	}
	c.Nontrivial("%s %d %d %d %v", shape, kind, ending, failAt, order)
	c.Sample("steps with %s awaitables, ending %d in step %d", shape, ending, failAt)
}

// monoWindow signals a processor which already has its outcome while it is
// being subscribed to: the recorded outcome must stand.
func monoWindow(c *vlib.C) {
	const n = 400
	for k := 0; k < n; k++ {
		p := mono.NewProcessor[int]()
		failFirst := c.Rng.Intn(2) == 0
		first := errors.New("first")
		if failFirst {
			p.Error(first)
		} else {
			p.Success(1)
		}
		var ready, done sync.WaitGroup
		var gate atomic.Bool
		var mu sync.Mutex
		seen := ""
		start := func(d int, f func()) {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				for !gate.Load() {
					runtime.Gosched()
				}
				for i := 0; i < d; i++ {
					spin.Add(1)
				}
				f()
			}()
		}
		note := func(s string) { mu.Lock(); seen += s; mu.Unlock() }
		start(c.Rng.Intn(30), func() {
			p.Subscribe(mono.Subscribe[int]{
				OnSuccess: func(v int) { note(vlib.Brief("v%d", v)) },
				OnError:   func(err error) { note(err.Error()) },
			})
		})
		for j := 0; j < 2; j++ {
			start(c.Rng.Intn(60), func() {
				if j == 0 {
					p.Success(2)
				} else {
					p.Error(errors.New("second"))
				}
			})
		}
		ready.Wait()
		gate.Store(true)
		done.Wait()
		want := "v1"
		if failFirst {
			want = "first"
		}
		mu.Lock()
		if seen != want {
			c.Failf("outcome", "the subscriber saw %q although the outcome was %q before it subscribed", seen, want)
		}
		mu.Unlock()
	}
	c.Count("late_signals", 2*n)
	c.Nontrivial("window %d", c.Idx)
}

var spin atomic.Int64
