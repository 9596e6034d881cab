package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"
)

func init() {
	register(&Prop{
		ID: "P05", Title: "Samples are played at the set volume, clipped instead of wrapped, in the layout of the device",
		Statement: "For every volume and every (non-NaN) sample: the sample times the current volume is clipped to [-1, 1] and scaled to a 16-bit integer within two steps of the exact value, so that no value ever wraps around to the other sign, and its low and high byte are written at 4*i+2*c and 4*i+2*c+1 for sample i and channel c. All samples and both channels of a block are converted, with the volume read for this block; each block of the playback loop is filled, converted and written to the device, in this order, exactly once. SetVolume sets exactly the volume given.",
		Over:      []string{"inputs"}, Quant: "all float64 sample values and volumes (except NaN), all block lengths, all blocks", Why: "Tests convert a few values; the wrap-around happens at single values such as 1.0.",
		Files:     []string{"playback/playback.go"},
		Mech:      [][2]string{{"conversion", "samplesToAudioBuf, convertSampleToBytes"}, {"loop", "playLoop"}, {"volume", "SetVolume, getVolume"}},
		Technique: "path-sensitive abstract interpretation of the SSA with a piecewise-linear domain for the floating-point value written (compared with the exact clipped line on every piece), and symbolic linear index arithmetic for the layout",
		Note:      "NaN samples are not considered here: P06 shows that they are never put into a block. Rounding errors of the float64 multiplications are far below the tolerance of two steps.",
		Run:       conversionRule,
	})
}

// ---- piecewise linear functions of x = volume * sample ----

// piece: on [lo, hi] the value is a*x+b.
type piece struct{ lo, hi, a, b float64 }

func (p piece) at(x float64) float64 {
	if p.a == 0 {
		return p.b
	}
	return p.a*x + p.b
}

func floatConst(t *Term) (float64, bool) {
	if t.Typ != nil && !isFloatT(t.Typ) && t.Op != "const" {
		return 0, false
	}
	if v, ok := t.constVal(); ok && (v.Kind() == constant.Float || v.Kind() == constant.Int) {
		f, _ := constant.Float64Val(v)
		return f, true
	}
	return 0, false
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// mono is k * vol^v * smp^s + b (b only for v == s == 1 or v == s == 0).
type mono struct {
	k    float64
	v, s bool
	b    float64
}

type convEnv struct {
	vol    func(t *Term) bool
	sample *Term // the sample (the first one met)
}

func (env *convEnv) mono(t *Term) (mono, bool) {
	if c, ok := floatConst(t); ok {
		return mono{k: 0, b: c}, true
	}
	if env.vol(t) {
		return mono{k: 1, v: true}, true
	}
	if t.Op == "conv" && isFloatT(t.Typ) && isFloatT(t.Args[0].Typ) {
		return env.mono(t.Args[0])
	}
	if t.Op == "app" && len(t.Args) == 2 {
		x, ok1 := env.mono(t.Args[0])
		y, ok2 := env.mono(t.Args[1])
		if !ok1 || !ok2 {
			return mono{}, false
		}
		xc, yc := !x.v && !x.s, !y.v && !y.s
		switch t.Aux {
		case "f*":
			if xc {
				return mono{x.b * y.k, y.v, y.s, x.b * y.b}, true
			}
			if yc {
				return mono{y.b * x.k, x.v, x.s, y.b * x.b}, true
			}
			if x.b == 0 && y.b == 0 && x.v != y.v && x.s != y.s {
				return mono{k: x.k * y.k, v: true, s: true}, true
			}
		case "f/":
			if yc && y.b != 0 {
				return mono{x.k / y.b, x.v, x.s, x.b / y.b}, true
			}
		case "f+", "f-":
			sg := 1.0
			if t.Aux == "f-" {
				sg = -1
			}
			if xc {
				return mono{sg * y.k, y.v, y.s, x.b + sg*y.b}, true
			}
			if yc {
				return mono{x.k, x.v, x.s, x.b + sg*y.b}, true
			}
			if x.v == y.v && x.s == y.s {
				return mono{x.k + sg*y.k, x.v, x.s, x.b + sg*y.b}, true
			}
		}
		return mono{}, false
	}
	if t.Op == "app" && t.Aux == "neg" && len(t.Args) == 1 {
		x, ok := env.mono(t.Args[0])
		return mono{-x.k, x.v, x.s, -x.b}, ok
	}
	if t = asLoad(t); t.Op == "ld" {
		if env.sample == nil {
			env.sample = t
		}
		if env.sample == t {
			return mono{k: 1, s: true}, true
		}
	}
	return mono{}, false
}

// asLoad: an element of a copied array is the element of the array copied.
func asLoad(t *Term) *Term {
	if t.Op != "index" || len(t.Args) != 2 || t.Args[0].Op != "arr" {
		return t
	}
	var base *Term
	for i, e := range t.Args[0].Args {
		if e.Op != "ld" || e.Args[0].Op != "iaddr" || base != nil && e.Args[0].Args[0] != base {
			return t
		}
		if k, ok := e.Args[0].Args[1].intVal(); !ok || k != int64(i) {
			return t
		}
		base = e.Args[0].Args[0]
	}
	if base == nil {
		return t
	}
	return mk("ld", t.Typ, nil, mk("iaddr", nil, nil, base, t.Args[1]))
}

// pieces of a float term over [lo, hi].
func (env *convEnv) pieces(t *Term, lo, hi float64) ([]piece, bool) {
	if m, ok := env.mono(t); ok {
		if m.v != m.s {
			return nil, false
		}
		return []piece{{lo, hi, m.k, m.b}}, true
	}
	if t.Op == "app" && len(t.Args) == 2 && (t.Aux == "math.Min" || t.Aux == "math.Max") {
		xs, ok1 := env.pieces(t.Args[0], lo, hi)
		ys, ok2 := env.pieces(t.Args[1], lo, hi)
		if !ok1 || !ok2 {
			return nil, false
		}
		var r []piece
		for _, x := range xs {
			for _, y := range ys {
				l, h := math.Max(x.lo, y.lo), math.Min(x.hi, y.hi)
				if h < l {
					continue
				}
				cuts := []float64{l, h}
				if x.a != y.a {
					if z := (y.b - x.b) / (x.a - y.a); l < z && z < h {
						cuts = []float64{l, z, h}
					}
				}
				for i := 0; i+1 < len(cuts); i++ {
					m := mid(cuts[i], cuts[i+1])
					w := x
					if (x.at(m) < y.at(m)) != (t.Aux == "math.Min") {
						w = y
					}
					r = append(r, piece{cuts[i], cuts[i+1], w.a, w.b})
				}
			}
		}
		return r, true
	}
	if t.Op == "app" && len(t.Args) == 2 && strings.HasPrefix(t.Aux.(string), "f") {
		// an operation with a constant
		for i := 0; i < 2; i++ {
			c, ok := floatConst(t.Args[1-i])
			if !ok {
				continue
			}
			xs, ok := env.pieces(t.Args[i], lo, hi)
			if !ok {
				return nil, false
			}
			for j := range xs {
				switch {
				case t.Aux == "f*":
					xs[j].a, xs[j].b = xs[j].a*c, xs[j].b*c
				case t.Aux == "f+":
					xs[j].b += c
				case t.Aux == "f-" && i == 0:
					xs[j].b -= c
				case t.Aux == "f-":
					xs[j].a, xs[j].b = -xs[j].a, c-xs[j].b
				case t.Aux == "f/" && i == 0 && c != 0:
					xs[j].a, xs[j].b = xs[j].a/c, xs[j].b/c
				default:
					return nil, false
				}
			}
			return xs, true
		}
	}
	return nil, false
}

func mid(a, b float64) float64 {
	switch {
	case math.IsInf(a, -1) && math.IsInf(b, 1):
		return 0
	case math.IsInf(a, -1):
		return b - 1
	case math.IsInf(b, 1):
		return a + 1
	}
	return a/2 + b/2
}

// rangeOf: the interval of x the path condition allows. Bounds are taken as closed.
func (env *convEnv) rangeOf(pc *PC) (lo, hi float64, empty bool) {
	lo, hi = math.Inf(-1), math.Inf(1)
	for q := pc; q != nil; q = q.up {
		t := q.lit
		if t == nil {
			continue
		}
		neg := false
		if t.Op == "not" {
			neg = true
			t = t.Args[0]
		}
		if t.Op != "app" || t.Aux != "flt" && t.Aux != "fle" || len(t.Args) != 2 {
			continue
		}
		x, ok1 := env.mono(t.Args[0])
		y, ok2 := env.mono(t.Args[1])
		if !ok1 || !ok2 || x.v != x.s || y.v != y.s {
			continue
		}
		// (x.k-y.k)*X < y.b-x.b
		k, b := x.k-y.k, y.b-x.b
		if k == 0 {
			holds := 0 < b || t.Aux == "fle" && 0 == b
			if holds == neg {
				return 0, 0, true
			}
			continue
		}
		z := b / k
		if (k > 0) != neg {
			hi = math.Min(hi, z)
		} else {
			lo = math.Max(lo, z)
		}
	}
	return lo, hi, lo > hi
}

// clipped: the value converted to int16 is 2^15*x clipped to the range of int16, within two steps, for every x in
// the interval.
func (env *convEnv) clipped(ps []piece) (bool, string) {
	ideal := func(x float64) float64 { return math.Max(-32768, math.Min(32767, x*32768)) }
	for _, p := range ps {
		for _, x := range []float64{p.lo, p.hi, -1, 32767.0 / 32768, 1, 0} {
			if x < p.lo || p.hi < x {
				continue
			}
			if math.IsInf(x, 0) && p.a != 0 {
				return false, "the value is not bounded"
			}
			v := p.at(x)
			if v < -32768 || 32768 <= v {
				return false, "a value behind the range of a 16-bit integer is converted: it wraps around"
			}
			if math.Abs(v-ideal(x)) > 2 {
				return false, "the value is not the clipped and scaled sample"
			}
		}
	}
	return true, ""
}

// byteOf: t is byte number n of a 16-bit integer which is converted from the float f.
func byteOf(t *Term) (f *Term, n int64, ok bool) {
	shifted := false
	bits := func(t *Term) int {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			return intBits(b)
		}
		return 0
	}
	if t.Typ == nil || bits(t) != 8 {
		return nil, 0, false
	}
	width := 0
	for {
		switch {
		case t.Op == "conv" && t.Args[0].Typ != nil && isFloatT(t.Args[0].Typ):
			// the conversion to an integer: 16 bits (or more, which are cut off without change as the value is small)
			return t.Args[0], n / 8, n%8 == 0 && bits(t) >= 16 && isSigned(t.Typ)
		case t.Op == "conv":
			t = t.Args[0]
			if t.Typ == nil {
				return nil, 0, false
			}
			width = bits(t)
			if width < 16 {
				return nil, 0, false
			}
		case t.Op == "app" && t.Aux == "i>>" && !shifted:
			k, isC := t.Args[1].intVal()
			if !isC {
				return nil, 0, false
			}
			n, shifted = k, true
			t = t.Args[0]
		case t.Op == "app" && t.Aux == "i&":
			if k, isC := t.Args[1].intVal(); isC && k&0xff == 0xff {
				t = t.Args[0]
			} else if k, isC := t.Args[0].intVal(); isC && k&0xff == 0xff {
				t = t.Args[1]
			} else {
				return nil, 0, false
			}
			if shifted {
				// a mask below the shift must keep the shifted bits
				return nil, 0, false
			}
		default:
			return nil, 0, false
		}
	}
}

// samplesIn: the elements of the sample blocks occurring in a term.
func samplesIn(t, samples *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if l := asLoad(t); l.Op == "ld" && l.Args[0].Op == "iaddr" && l.Args[0].Args[0].Op == "iaddr" && l.Args[0].Args[0].Args[0] == samples {
			r = append(r, l)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return r
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// flatIdx: the address as position in a parameter slice.
func flatIdx(a *Term) (base, idx *Term) {
	if a.Op != "iaddr" {
		return nil, nil
	}
	base, idx = a.Args[0], a.Args[1]
	for base.Op == "slice" && len(base.Args) > 1 {
		idx = add2(base.Args[1], idx)
		base = base.Args[0]
	}
	return base, idx
}

func conversionRule(c *Ctx) {
	name := "playback.samplesToAudioBuf"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil || len(f.Params) != 2 {
		c.fail("conversion", name, "playback", "samplesToAudioBuf(samples, buf) not found")
		return
	}
	samples, buf := mkParam(f, f.Params[0]), mkParam(f, f.Params[1])
	at := c.at(f.Pos())
	isVol := func(t *Term) bool {
		return t.Op == "ld" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].String(), "volume") && isFloatT(t.Typ)
	}
	type put struct {
		i, ch *Term
		n     int64
		e     *Ev
	}
	// the bytes put by the events of one iteration
	puts := func(p *Path, evs []*Ev) []put {
		var r []put
		one := func(e *Ev, base, idx, v *Term) {
			if base != buf {
				return
			}
			con := "byte written in " + fnName(f)
			fl, n, ok := byteOf(v)
			if !c.check("bytes", con, where(c, e), ok, "what is written is not a byte of a 16-bit integer converted from the sample: %s", cut(v.String(), 80)) {
				return
			}
			// a constant (a clipped value) is about the sample which the path found to be too large or small
			cands := []*Term{nil}
			if _, isC := floatConst(fl); isC || len(samplesIn(fl, samples)) == 0 {
				cands = nil
				for q := p.St.pc; q != nil; q = q.up {
					if q.lit != nil {
						for _, s := range samplesIn(q.lit, samples) {
							cands = append(cands, s)
						}
					}
				}
				for _, s := range cands {
					a := s.Args[0]
					if p.St.pc.entails(mkEq(idx, add2(mkMulC(a.Args[0].Args[1], 4), add2(mkMulC(a.Args[1], 2), mkInt(n, nil))))) {
						cands = []*Term{s}
						break
					}
				}
				if len(cands) == 0 {
					cands = []*Term{nil}
				}
			}
			env := &convEnv{vol: isVol, sample: cands[0]}
			// the sample is met in the value or, if that is constant, in the path condition
			ps, ok := env.pieces(fl, math.Inf(-1), math.Inf(1))
			lo, hi, empty := env.rangeOf(p.St.pc)
			if empty {
				return
			}
			if ok {
				ps, ok = env.pieces(fl, lo, hi)
			}
			if !c.check("value", con, where(c, e), ok && env.sample != nil, "the value is not computed from the sample times the volume: %s", cut(fl.String(), 90)) {
				return
			}
			good, why := env.clipped(ps)
			c.check("clipped", con, where(c, e), good, "%s", why)
			s := env.sample.Args[0]
			if !c.check("sample", con, where(c, e), s.Op == "iaddr" && s.Args[0].Op == "iaddr" && s.Args[0].Args[0] == samples, "the value is not one of the samples of the block") {
				return
			}
			i, ch := s.Args[0].Args[1], s.Args[1]
			want := add2(mkMulC(i, 4), add2(mkMulC(ch, 2), mkInt(n, nil)))
			c.check("layout", con, where(c, e), n < 2 && p.St.pc.entails(mkEq(idx, want)), "byte %d of a channel is not written at 4*i+2*c+%d", n, n)
			r = append(r, put{i, ch, n, e})
		}
		for _, e := range evs {
			if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "iaddr" {
				base, idx := flatIdx(e.Addr)
				one(e, base, idx, e.Val)
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, "ittleEndian).PutUint16") {
				a := e.Args[len(e.Args)-2:]
				base, idx := a[0], int0
				for base.Op == "slice" && len(base.Args) > 1 {
					idx = add2(base.Args[1], idx)
					base = base.Args[0]
				}
				u8 := types.Typ[types.Uint8]
				one(e, base, idx, mk("conv", u8, nil, a[1]))
				one(e, base, add2(idx, int1), mk("conv", u8, nil, mk("app", a[1].Typ, "i>>", a[1], mkInt(8, nil))))
			}
		}
		return r
	}
	// an element visited by a loop: position k of it
	counter := func(rt roundTrip, idx *Term, bound *Term) bool {
		for i, s := range rt.Info.Sym {
			if s == nil || !isInteger(s.Typ) || linOf(idx).Coefs[s] == 0 || rt.Info.Init[i] == nil || rt.Info.Next[i] == nil {
				continue
			}
			first := subst(idx, map[*Term]*Term{s: rt.Info.Init[i]})
			then := subst(idx, map[*Term]*Term{s: rt.Info.Next[i]})
			if rt.Path.St.pc.entails(mkEq(first, int0)) && rt.Path.St.pc.entails(mkEq(then, add2(idx, int1))) {
				return true
			}
		}
		return false
	}
	type loopPut struct {
		rt   roundTrip
		puts []put
	}
	var ls []loopPut
	for _, rt := range roundTrips(paths) {
		ls = append(ls, loopPut{rt, puts(rt.Path, innermost(rt))})
	}
	// inner loops: every iteration puts both bytes of channel ch, ch counting from 0
	inner := func(li *LoopInfo) (i, ch *Term, ok bool) {
		for _, l := range ls {
			if !sameLoop(l.rt.Info, li) {
				continue
			}
			if len(l.puts) < 2 {
				return nil, nil, false
			}
			have := map[int64]bool{}
			for _, x := range l.puts {
				if ch != nil && (x.ch != ch || x.i != i) {
					return nil, nil, false
				}
				i, ch = x.i, x.ch
				have[x.n] = true
			}
			if !have[0] || !have[1] || !counter(l.rt, ch, nil) {
				return nil, nil, false
			}
		}
		return i, ch, ch != nil
	}
	// outer loops: both channels of sample i, i counting from 0
	outer := func(li *LoopInfo) (i *Term, ok bool) {
		for _, l := range ls {
			if !sameLoop(l.rt.Info, li) {
				continue
			}
			pc := l.rt.Path.St.pc
			have := map[[2]int64]bool{}
			for _, x := range l.puts {
				k, isC := x.ch.intVal()
				if !isC || i != nil && x.i != i {
					return nil, false
				}
				i = x.i
				have[[2]int64{k, x.n}] = true
			}
			for _, e := range l.rt.Evs {
				if e.Kind != "loopexit" {
					continue
				}
				if ii, ch, ok := inner(e.Aux.(*LoopInfo)); ok && pc.entailsLe(mkInt(2, nil), ch, 0) && (i == nil || i == ii) {
					i = ii
					for k := int64(0); k < 4; k++ {
						have[[2]int64{k / 2, k % 2}] = true
					}
				}
			}
			if len(have) != 4 || !counter(l.rt, i, nil) {
				return nil, false
			}
		}
		return i, i != nil
	}
	for _, p := range rets(paths) {
		done := p.St.pc.entailsLe(lenOf(samples), int0, 0)
		for _, e := range p.Events() {
			if e.Kind == "loopexit" {
				if i, ok := outer(e.Aux.(*LoopInfo)); ok && p.St.pc.entailsLe(lenOf(samples), i, 0) {
					done = true
				}
			}
		}
		c.check("all samples", fnName(f), at, done, "the block is left although not all samples and channels were converted")
	}
	for _, r := range []string{"bytes", "clipped", "layout", "all samples"} {
		c.need(r, 1)
	}
	// the volume is the one set
	sf := c.p.fn("playback.SetVolume")
	for _, p := range rets(c.explore("playback.SetVolume", opt{noSpawn: true})) {
		v := mkParam(sf, sf.Params[0])
		n := 0
		var last *Term
		for _, e := range p.Events() {
			if e.Kind == "store" && e.Addr.Op == "global" && strings.HasSuffix(e.Addr.String(), "volume") {
				n++
				last = e.Val
			}
		}
		c.check("volume set", "SetVolume", c.at(sf.Pos()), n >= 1 && last == v, "SetVolume does not set the volume given")
	}
	c.need("volume set", 1)
	// the playback loop
	const stream = "(*playback.timedMultiStreamer).Stream"
	lf := c.p.fn("playback.playLoop")
	lp := c.explore("playback.playLoop", opt{noSpawn: true, opaque: opaqueSet(stream, name)})
	if lf == nil {
		return
	}
	lat := c.at(lf.Pos())
	for _, rt := range roundTrips(lp) {
		st, cv := calls(rt.Evs, stream), calls(rt.Evs, name)
		wr := calls(rt.Evs, "(*github.com/hajimehoshi/oto.Player).Write")
		if !c.check("block", "playLoop", lat, len(st) == 1 && len(cv) == 1 && len(wr) == 1, "a round does not fill, convert and write exactly one block (%d, %d, %d)", len(st), len(cv), len(wr)) {
			continue
		}
		c.check("block: order", "playLoop", lat, st[0].N < cv[0].N && cv[0].N < wr[0].N, "the block is not filled, then converted, then written")
		c.check("block: same", "playLoop", lat, st[0].Args[1] == cv[0].Args[0] && cv[0].Args[1] == wr[0].Args[1], "the block converted is not the one filled, or the one written not the one converted")
	}
	c.need("block: same", 1)
	// the format of the device
	inf := c.p.fn("playback.Init")
	for _, p := range c.explore("playback.Init", opt{noSpawn: true, opaque: opaqueSet("playback.initStreamer")}) {
		for _, e := range calls(p.Events(), "github.com/hajimehoshi/oto.NewContext") {
			two := func(t *Term) bool { v, ok := t.intVal(); return ok && v == 2 }
			c.check("device", "Init", where(c, e), strip(e.Args[0]) == mkParam(inf, inf.Params[0]) && two(e.Args[1]) && two(e.Args[2]), "the device is not opened with the sample rate given, 2 channels and 2 bytes per sample")
		}
	}
	c.need("device", 1)
}

// innermost: the events of an iteration which do not belong to a loop nested in it.
func innermost(rt roundTrip) []*Ev {
	var r []*Ev
	depth := 0
	for _, e := range rt.Evs[1:] {
		switch e.Kind {
		case "loophead":
			depth++
			continue
		case "loopexit":
			if depth > 0 {
				depth--
			}
			continue
		}
		if depth == 0 {
			r = append(r, e)
		}
	}
	return r
}

func mkMulC(t *Term, k int64) *Term { return linOf(t).scale(k).term(types.Typ[types.Int]) }
