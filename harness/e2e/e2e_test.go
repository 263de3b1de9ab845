//go:build go1.23

package e2e

import (
	"testing"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){
		"P18": func(r *vlib.R) {
			r.Bubble("rr", r.N(1200, 20000), mix(opts{kinds: []int{1, 0, 0, 0}, n: 30, errors: 3, big: true}))
			r.Bubble("mixed", r.N(300, 5000), mix(opts{kinds: []int{4, 1, 1, 1}, n: 25, errors: 3, bad: 1, big: true}))
		},
		"P19": func(r *vlib.R) {
			r.Bubble("rs", r.N(1500, 20000), mix(opts{kinds: []int{0, 0, 1, 0}, n: 8, errors: 3, big: true}))
			r.Bubble("mixed", r.N(300, 5000), mix(opts{kinds: []int{1, 1, 3, 1}, n: 15, errors: 3, cancels: 2, big: true}))
		},
		"P20": func(r *vlib.R) {
			r.Bubble("rc", r.N(2000, 30000), mix(opts{kinds: []int{0, 0, 0, 1}, n: 6, errors: 3, cancels: 2, big: true}))
			r.Bubble("mixed", r.N(300, 5000), mix(opts{kinds: []int{1, 1, 1, 3}, n: 12, errors: 3, cancels: 2, big: true}))
		},
		"P21": func(r *vlib.R) {
			r.Bubble("fnf", r.N(800, 10000), mix(opts{kinds: []int{0, 1, 0, 0}, n: 40, bad: 2, big: true}))
			r.Bubble("mixed", r.N(500, 8000), mix(opts{kinds: []int{1, 4, 1, 1}, n: 30, errors: 3, bad: 2, cancels: 2, big: true}))
		},
		"P22": func(r *vlib.R) {
			r.Bubble("errors", r.N(1500, 20000), mix(opts{kinds: []int{2, 1, 2, 2}, n: 16, errors: 7, bad: 4, big: true}))
		},
		"P23": func(r *vlib.R) {
			r.Bubble("cancel", r.N(1800, 25000), mix(opts{kinds: []int{0, 0, 2, 2}, n: 8, errors: 2, cancels: 9, big: true}))
			r.Bubble("mixed", r.N(300, 5000), mix(opts{kinds: []int{2, 1, 2, 2}, n: 20, errors: 2, cancels: 5, big: true}))
		},
		"P24": func(r *vlib.R) {
			r.Bubble("demand", r.N(1800, 25000), mix(opts{kinds: []int{0, 0, 2, 2}, n: 8, errors: 2, cancels: 1, explicit: true, big: true}))
			r.Bubble("mixed", r.N(300, 5000), mix(opts{kinds: []int{1, 1, 2, 2}, n: 20, errors: 2, cancels: 1, explicit: true}))
		},
		"P25": func(r *vlib.R) {
			r.Bubble("hostile", r.N(8000, 100000), hostile)
		},
		"P27": func(r *vlib.R) {
			r.Bubble("server", r.N(4000, 50000), serverLife)
		},
		"P35": func(r *vlib.R) {
			r.Bubble("growth", r.N(400, 4000), growing)
			r.Bubble("leak", r.N(1200, 15000), leak(opts{quick: true, kinds: []int{1, 1, 2, 2}, n: 12, errors: 3, bad: 1, cancels: 3, big: true}))
		},
		"P26": func(r *vlib.R) {
			r.Bubble("loss", r.N(2000, 30000), loss(opts{quick: true, kinds: []int{1, 1, 2, 2}, n: 14, errors: 2, bad: 1, cancels: 2, big: true}))
		},
	})
}

func mix(o opts) func(c *vlib.C) { return mixOn(o, newWorld) }
