package sim

import (
	"hash/fnv"
	"sort"
)

// Tape is the complete record of the nondeterministic choices of a run: one
// list of draws per named stream. A replay is a pure function of the tape
// and the code. A draw past the end of a stream's list is 0, and 0 is by
// convention always the simplest choice, which is what makes shrinking work.
type Tape map[string][]uint32

func (t Tape) Clone() Tape {
	r := Tape{}
	for k, v := range t {
		r[k] = append([]uint32(nil), v...)
	}
	return r
}

func (t Tape) Keys() []string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (t Tape) Size() int {
	n := 0
	for _, v := range t {
		n += len(v)
	}
	return n
}

// rng is splitmix64.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type stream struct {
	r   rng
	in  []uint32 // replay
	pos int
	out []uint32
}

// Source hands out draws. In generating mode they come from one PRNG per
// stream, all derived from the seed; in replay mode from the tape.
type Source struct {
	seed    uint64
	replay  Tape
	streams map[string]*stream
	rec     func(name string, v uint32)
}

// Record, if set, sees every draw of worlds made from now on, as it happens:
// the tape of a run that kills its process is otherwise lost.
var Record func(name string, v uint32)

func NewSource(seed uint64, replay Tape) *Source {
	return &Source{seed: seed, replay: replay, streams: map[string]*stream{}, rec: Record}
}

func (s *Source) Generating() bool { return s.replay == nil }

// Has tells whether a replayed tape has a stream of that name.
func (s *Source) Has(name string) bool { return len(s.replay[name]) > 0 }

func (s *Source) get(name string) *stream {
	st := s.streams[name]
	if st == nil {
		h := fnv.New64a()
		h.Write([]byte(name))
		st = &stream{r: rng{s: s.seed*0x9e3779b97f4a7c15 ^ h.Sum64()}}
		if s.replay != nil {
			st.in = s.replay[name]
		}
		st.r.next()
		s.streams[name] = st
	}
	return st
}

// Draw returns a number in [0,n).
func (s *Source) Draw(name string, n int) int {
	if n <= 1 {
		return 0
	}
	st := s.get(name)
	var v uint32
	if s.replay != nil {
		if st.pos < len(st.in) {
			v = st.in[st.pos]
		}
		st.pos++
		v %= uint32(n)
	} else {
		v = uint32(st.r.next() % uint64(n))
	}
	st.out = append(st.out, v)
	if s.rec != nil {
		s.rec(name, v)
	}
	return int(v)
}

// Draw1 returns a number in [1,n] when generating, and 0 for a replayed draw
// that was removed: the "nothing" choice that lets the shrinker drop things.
func (s *Source) Draw1(name string, n int) int {
	st := s.get(name)
	var v uint32
	if s.replay != nil {
		if st.pos < len(st.in) {
			v = st.in[st.pos]
		}
		st.pos++
		v %= uint32(n + 1)
	} else {
		v = 1 + uint32(st.r.next()%uint64(n))
	}
	st.out = append(st.out, v)
	if s.rec != nil {
		s.rec(name, v)
	}
	return int(v)
}

// Chance is true with probability num/den (never for a removed draw).
func (s *Source) Chance(name string, num, den int) bool {
	v := s.Draw(name, den)
	return v >= den-num && v > 0 || den == num
}

// Weighted draws an index with the given weights; index 0 is the simplest.
func (s *Source) Weighted(name string, weights ...int) int {
	t := 0
	for _, x := range weights {
		t += x
	}
	v := s.Draw(name, t)
	for i, x := range weights {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// U64 draws a 64-bit value biased to interesting ones.
func (s *Source) U64(name string) uint64 {
	switch s.Weighted(name, 4, 3, 2, 1, 1, 1, 1) {
	case 0:
		return uint64(s.Draw(name, 8))
	case 1:
		return uint64(s.Draw(name, 1<<16))<<48 | uint64(s.Draw(name, 1<<16))<<32 | uint64(s.Draw(name, 1<<16))<<16 | uint64(s.Draw(name, 1<<16))
	case 2:
		return uint64(s.Draw(name, 1<<16))<<16 | uint64(s.Draw(name, 1<<16))
	case 3:
		return ^uint64(0)
	case 4:
		return 1 << 63
	case 5:
		return 1<<31 + uint64(s.Draw(name, 3)) - 1
	default:
		return 1<<32 + uint64(s.Draw(name, 3)) - 1
	}
}

// Tape returns what was drawn, with trailing zeros (which replay supplies
// anyway) removed.
func (s *Source) Tape() Tape {
	t := Tape{}
	for k, st := range s.streams {
		o := st.out
		for len(o) > 0 && o[len(o)-1] == 0 {
			o = o[:len(o)-1]
		}
		if len(o) > 0 {
			t[k] = append([]uint32(nil), o...)
		}
	}
	return t
}
