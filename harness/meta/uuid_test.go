//go:build go1.23

package meta

import (
	"bytes"
	"encoding/hex"
	"errors"
	"io"
	"math/rand"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/types/uuid"
)

// canonical is an independent rendering of a UUID.
func canonical(u [16]byte) string {
	h := hex.EncodeToString(u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// refUUID is an independent parser of the four accepted forms.
func refUUID(s string) (u [16]byte, ok bool) {
	switch len(s) {
	case 45:
		if !strings.EqualFold(s[:9], "urn:uuid:") || strings.ContainsAny(s[:9], "\u017f\u212a") {
			return u, false
		}
		s = s[9:]
	case 38:
		// The delimiters around the UUID are not specified further.
		s = s[1:37]
	}
	switch len(s) {
	case 36:
		for _, i := range []int{8, 13, 18, 23} {
			if s[i] != '-' {
				return u, false
			}
		}
		s = s[:8] + s[9:13] + s[14:18] + s[19:23] + s[24:]
	case 32:
	default:
		return u, false
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return u, false
	}
	copy(u[:], b)
	return u, true
}

type flaky struct {
	mu    sync.Mutex
	rng   *rand.Rand
	calls int
	fail  int // the call to fail at
	short bool
}

var errFlaky = errors.New("no entropy")

func (f *flaky) Read(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls++
	if f.fail > 0 && f.calls >= f.fail {
		if f.short && len(b) > 1 {
			f.short = false
			return f.rng.Read(b[:len(b)/2])
		}
		return 0, errFlaky
	}
	if f.short {
		b = b[:1+f.rng.Intn(len(b))]
	}
	return f.rng.Read(b)
}

var _ io.Reader = (*flaky)(nil)

func p34(r *vlib.R) {
	r.Cases("forms", r.N(6000, 200000), func(c *vlib.C) {
		rng := c.Rng
		var raw [16]byte
		rng.Read(raw[:])
		if rng.Intn(10) == 0 {
			raw = [16]byte{}
			raw[rng.Intn(16)] = byte(rng.Intn(256))
		}
		u := uuid.UUID(raw)
		canon := canonical(raw)
		if u.String() != canon || u.URN() != "urn:uuid:"+canon {
			c.Failf("string", "UUID %x is rendered as %q and %q", raw, u.String(), u.URN())
		}
		text, err := u.MarshalText()
		if err != nil || string(text) != canon {
			c.Failf("text", "UUID %x marshals to %q, %v", raw, text, err)
		}
		bin, err := u.MarshalBinary()
		if err != nil || !bytes.Equal(bin, raw[:]) {
			c.Failf("binary", "UUID %x marshals to %x, %v", raw, bin, err)
		}
		for i := range bin {
			bin[i]++
		}
		if u != raw {
			c.Failf("aliased", "writing to marshalled bytes changed the UUID")
		}
		variant := uuid.Reserved
		switch {
		case raw[8]>>6 == 2:
			variant = uuid.RFC4122
		case raw[8]>>5 == 6:
			variant = uuid.Microsoft
		case raw[8]>>5 == 7:
			variant = uuid.Future
		}
		if u.Variant() != variant || u.Version() != uuid.Version(raw[6]/16) {
			c.Failf("bits", "UUID %v: variant %v, version %v", canon, u.Variant(), u.Version())
		}
		// The timestamp fields of time based UUIDs.
		ts := uint64(raw[6]&15)<<56 | uint64(raw[7])<<48 | uint64(raw[4])<<40 | uint64(raw[5])<<32 | uint64(raw[0])<<24 | uint64(raw[1])<<16 | uint64(raw[2])<<8 | uint64(raw[3])
		if uint64(u.Time()) != ts {
			c.Failf("time", "UUID %v: time %d, expected %d", canon, u.Time(), ts)
		}
		if u.ClockSequence() != (int(raw[8])<<8|int(raw[9]))&0x3fff {
			c.Failf("clock-sequence", "UUID %v: clock sequence %d", canon, u.ClockSequence())
		}
		sec, nsec := u.Time().UnixTime()
		if sec*10000000+nsec/100 != int64(ts)-122192928000000000 || nsec%100 != 0 || nsec >= 1e9 || nsec <= -1e9 {
			c.Failf("unix-time", "time %d is %d s %d ns", ts, sec, nsec)
		}
		c.Count("rendered", 1)
		c.Nontrivial("u %x", raw[:6])
		c.Sample("%v", u)
		forms := []string{canon, "urn:uuid:" + canon, "{" + canon + "}", strings.ReplaceAll(canon, "-", "")}
		for _, f := range forms {
			for k := 0; k < 3; k++ {
				s := []byte(f)
				if k > 0 {
					for i := range s {
						if rng.Intn(2) == 0 {
							s[i] = strings.ToUpper(string(s[i]))[0]
						}
					}
				}
				if got, err := uuid.Parse(string(s)); err != nil || got != u {
					c.Failf("parse", "Parse(%q) = %v, %v", s, got, err)
				}
				if got, err := uuid.ParseBytes(s); err != nil || got != u {
					c.Failf("parse", "ParseBytes(%q) = %v, %v", s, got, err)
				}
				if k == 0 {
					if got := uuid.MustParse(f); got != u {
						c.Failf("parse", "MustParse(%q) = %v", s, got)
					}
				}
				var v uuid.UUID
				if err := v.UnmarshalText(s); err != nil || v != u {
					c.Failf("parse", "UnmarshalText(%q) = %v, %v", s, v, err)
				}
				c.Count("parsed", 1)
			}
			// Hostile strings.
			for k := 0; k < 8 && !c.Failed(); k++ {
				s := []byte(f)
				switch rng.Intn(4) {
				case 0:
					s = mutate(rng, s)
				case 1:
					s[rng.Intn(len(s))] = byte(rng.Intn(256))
				case 2:
					s[rng.Intn(len(s))] = "0gGaAfF-@`/:{}Z\x80"[rng.Intn(16)]
				case 3:
					i := rng.Intn(len(s) - 1)
					s[i], s[i+1] = s[i+1], s[i]
				}
				want, ok := refUUID(string(s))
				var got, got2 uuid.UUID
				var err, err2 error
				if !c.Guard("panic", func() { got, err = uuid.Parse(string(s)); got2, err2 = uuid.ParseBytes(s) }) {
					c.Failf("panic-input", "parsing %q panicked", s)
					return
				}
				if (err == nil) != ok || (ok && got != want) {
					c.Failf("verdict", "Parse(%q) = %v, %v; expected %x, %v", s, got, err, want, ok)
				}
				if (err2 == nil) != ok || (ok && got2 != want) {
					c.Failf("verdict", "ParseBytes(%q) = %v, %v; expected %x, %v", s, got2, err2, want, ok)
				}
				l := len(s)
				if wrong := l != 32 && l != 36 && l != 38 && l != 45; uuid.IsInvalidLengthError(err) != wrong {
					c.Failf("length-error", "Parse of %d bytes: IsInvalidLengthError(%v) = %v", l, err, !wrong)
				}
				v := u
				if err := v.UnmarshalText(s); err != nil && v != u {
					c.Failf("clobbered", "UnmarshalText(%q) failed with %v but changed the value", s, err)
				}
				if ok {
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
			}
		}
		b := make([]byte, rng.Intn(34))
		rng.Read(b)
		if got, err := uuid.FromBytes(b); (err == nil) != (len(b) == 16) || (err == nil && !bytes.Equal(got[:], b)) {
			c.Failf("binary", "FromBytes(%x) = %v, %v", b, got, err)
		}
		if got, err := uuid.FromBytes(raw[:]); err != nil || got != u {
			c.Failf("binary", "FromBytes(%x) = %v, %v", raw, got, err)
		}
	})
	r.Cases("random", r.N(150, 3000), func(c *vlib.C) {
		rng := c.Rng
		src := &flaky{rng: rand.New(rand.NewSource(rng.Int63()))}
		src.short = rng.Intn(2) == 0
		if rng.Intn(3) == 0 {
			src.fail = 1 + rng.Intn(300)
		}
		uuid.SetRand(src)
		pool := rng.Intn(2) == 0
		if pool {
			uuid.EnableRandPool()
		} else {
			uuid.DisableRandPool()
		}
		defer func() {
			uuid.SetRand(nil)
			uuid.DisableRandPool()
		}()
		G, N := 1+rng.Intn(8), 10+rng.Intn(150)
		got := make([][]uuid.UUID, G)
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < N; i++ {
					u, err := uuid.NewRandom()
					if err != nil {
						if u != (uuid.UUID{}) {
							c.Failf("partial", "NewRandom returned %v with error %v", u, err)
						}
						if src.fail == 0 {
							c.Failf("error", "NewRandom failed with %v although there is entropy", err)
						}
						c.Count("entropy_failures", 1)
						continue
					}
					got[g] = append(got[g], u)
				}
			}()
		}
		wg.Wait()
		seen := map[uuid.UUID]bool{}
		for _, l := range got {
			for _, u := range l {
				if seen[u] {
					c.Failf("duplicate", "UUID %v was generated twice (pool %v, %d goroutines)", u, pool, G)
					return
				}
				seen[u] = true
				if u.Version() != 4 || u.Variant() != uuid.RFC4122 {
					c.Failf("bits", "random UUID %v has version %v, variant %v", u, u.Version(), u.Variant())
				}
			}
		}
		if src.fail == 0 && len(seen) != G*N {
			c.Failf("count", "%d of %d", len(seen), G*N)
		}
		c.Count("random", len(seen))
		c.Nontrivial("r %v %d %d %d", pool, G, N, src.fail)
	})
	r.Cases("clock", r.N(60, 600), func(c *vlib.C) {
		G, N := 1+c.Rng.Intn(6), 200
		type stamp struct {
			t   uuid.Time
			seq uint16
		}
		got := make([][]stamp, G)
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < N; i++ {
					t, seq, err := uuid.GetTime()
					if err != nil {
						c.Failf("clock-error", "GetTime: %v", err)
						return
					}
					got[g] = append(got[g], stamp{t, seq})
				}
			}()
		}
		wg.Wait()
		seen := map[stamp]bool{}
		for _, l := range got {
			for _, s := range l {
				if seen[s] {
					c.Failf("clock-duplicate", "GetTime returned %d/%d twice", s.t, s.seq)
					return
				}
				if s.seq&0xc000 != 0x8000 {
					c.Failf("clock-variant", "clock sequence %x lacks the variant", s.seq)
				}
				seen[s] = true
			}
		}
		seq := c.Rng.Intn(1 << 16)
		uuid.SetClockSequence(seq)
		if got := uuid.ClockSequence(); got != seq&0x3fff {
			c.Failf("clock-sequence", "SetClockSequence(%#x), then ClockSequence() = %#x", seq, got)
		}
		// new sequences are random: all of them alike has a chance of 2^-266
		seqs := map[int]bool{}
		for i := 0; i < 20; i++ {
			uuid.SetClockSequence(-1)
			seqs[uuid.ClockSequence()] = true
		}
		if len(seqs) == 1 {
			c.Failf("clock-sequence", "twenty new clock sequences were all %v", seqs)
		}
		c.Count("timestamps", len(seen))
		c.Nontrivial("k %d", G)
	})
}
