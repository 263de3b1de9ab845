//go:build go1.23

package e2e

import (
	"testing"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
)

func TestCheck(t *testing.T) {
	all := opts{quick: true, kinds: []int{2, 1, 2, 3}, n: 20, errors: 3, bad: 1, cancels: 3, big: true}
	vlib.Run(t, map[string]func(r *vlib.R){
		"P30": func(r *vlib.R) {
			r.Bubble("hostgrowth", r.N(400, 4000), hostGrowing)
			r.Bubble("guestgrowth", r.N(400, 4000), guestGrowing)
			one := func(kinds ...int) opts { o := all; o.kinds = kinds; return o }
			r.Bubble("rr", r.N(750, 4000), mixOn(one(1, 0, 0, 0), pairWorld))
			r.Bubble("fnf", r.N(500, 2000), mixOn(one(1, 8, 0, 0), pairWorld))
			r.Bubble("rs", r.N(1250, 6000), mixOn(one(0, 0, 1, 0), pairWorld))
			r.Bubble("rc", r.N(1250, 6000), mixOn(one(0, 0, 0, 1), pairWorld))
			ex := all
			ex.explicit, ex.kinds = true, []int{0, 0, 2, 2}
			r.Bubble("demand", r.N(1000, 5000), mixOn(ex, pairWorld))
			r.Bubble("mixed", r.N(1500, 8000), mixOn(all, pairWorld))
			fl := all
			fl.flood, fl.kinds, fl.n = true, []int{1, 1, 3, 3}, 8
			r.Bubble("flood", r.N(150, 1000), mixOn(fl, pairWorld))
			r.Bubble("contexts", r.N(750, 4000), contexts)
			r.Bubble("leak", r.N(750, 4000), leakOn(all, pairWorld))
		},
		"P31": func(r *vlib.R) {
			o := all
			o.big = false
			r.Bubble("gone", r.N(3000, 15000), gone(o))
			r.Bubble("trapped", r.N(1250, 6000), trapped)
			r.Bubble("oversize", r.N(1000, 5000), oversize)
			r.Bubble("guest", r.N(3000, 20000), hostileGuest)
			r.Bubble("host", r.N(3000, 20000), hostileHost)
			r.Bubble("starts", r.N(1000, 5000), starts)
		},
	})
}
