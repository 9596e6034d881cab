package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = []string{"strings.", "strconv.", "math.", "path.", "unicode.", "unicode/utf8.", "errors.New", "bytes.Equal",
	"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf",
	"path/filepath.Join", "path/filepath.Clean", "path/filepath.Rel", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Split", "path/filepath.Ext", "path/filepath.IsAbs", "path/filepath.FromSlash", "path/filepath.ToSlash",
	"(time.Duration).", "reflect.TypeOf", "github.com/golang/protobuf/proto.MessageName", "google.golang.org/protobuf/proto.MessageName",
	"(github.com/faiface/beep.SampleRate).", "github.com/pkg/errors.", "(error).Error", "github.com/urfave/cli.NewExitError",
	"(encoding/binary.littleEndian).Uint", "(encoding/binary.bigEndian).Uint", "(github.com/urfave/cli.Flag).GetName", "(*github.com/urfave/cli.Context).String", "(*github.com/urfave/cli.Context).Int", "(*github.com/urfave/cli.Context).Duration", "(*github.com/urfave/cli.Context).Uint",
	"(github.com/urfave/cli.StringFlag).GetName", "(github.com/urfave/cli.IntFlag).GetName", "(github.com/urfave/cli.DurationFlag).GetName", "(github.com/urfave/cli.UintFlag).GetName",
	"math/big.NewInt",
}

var impure = map[string]bool{"strings.NewReplacer": true, "strings.NewReader": true, "strings.Map": true, "strings.FieldsFunc": true, "strings.IndexFunc": true, "strings.TrimFunc": true, "math/big.NewInt": true}

func isPure(name string) bool {
	if impure[name] {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			// "math." must not match "math/big."
			return true
		}
	}
	return false
}

// readOnlyCall: external functions which do not write through their arguments.
func readOnlyCall(name string) bool {
	switch name {
	case "(net.Conn).Write", "(io.Writer).Write", "(comm.MessageSender).SendMessage", "github.com/golang/protobuf/proto.Marshal",
		"github.com/golang/protobuf/proto.MessageType", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "bytes.NewReader", "bytes.NewBuffer",
		"(*bytes.Buffer).Bytes", "(net.Conn).RemoteAddr", "(net.Conn).Close", "time.Sleep", "time.Tick", "os.Open", "sync.NewCond",
		"(*sync.Cond).Broadcast", "(*sync.Cond).Signal", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"compress/zlib.NewReader", "compress/zlib.NewWriterLevel", "compress/zlib.NewWriter", "io.LimitReader",
		"(*github.com/urfave/cli.Context).String", "(*github.com/urfave/cli.Context).Int", "(*github.com/urfave/cli.Context).Duration", "(*github.com/urfave/cli.Context).Uint",
		"(ssh.Command).Exec", "ssh.RegisterCommand":
		return true
	}
	if strings.HasPrefix(name, "(logging.Logger).") {
		return true
	}
	return false
}

// roArg: argument i of the call is not written.
func roArg(name string, i int) bool {
	switch name {
	case "github.com/golang/protobuf/proto.Unmarshal":
		return i == 0
	case "io.Copy", "io.CopyN":
		return false
	}
	if strings.HasPrefix(name, "(net.Conn).") || strings.HasPrefix(name, "(github.com/gdamore/tcell.Screen).") {
		return i == 0
	}
	return false
}

// pureApp builds the value of a pure external function, with contracts.
func (ex *Exec) pureApp(fr *Frame, st *State, name string, rt types.Type, args []*Term) *Term {
	switch name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "github.com/urfave/cli.NewExitError":
		return mk("errnew", rt, name, args...)
	case "(time.Duration).Nanoseconds":
		return args[0]
	case "math.NaN":
		return mk("app", rt, "math.NaN")
	case "math.IsNaN":
		if args[0].Op == "app" && args[0].Aux == "math.NaN" {
			return mkBool(true)
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := args[0].strVal(); ok {
			switch name {
			case "strings.ToLower":
				return mkString(strings.ToLower(s))
			case "strings.ToUpper":
				return mkString(strings.ToUpper(s))
			case "strings.TrimSpace":
				return mkString(strings.TrimSpace(s))
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		if p, ok := args[1].strVal(); ok {
			if p == "" {
				return mkBool(true)
			}
			if s, ok := args[0].strVal(); ok {
				if name == "strings.HasPrefix" {
					return mkBool(strings.HasPrefix(s, p))
				}
				return mkBool(strings.HasSuffix(s, p))
			}
		}
	case "fmt.Sprint", "fmt.Sprintf":
		if name == "fmt.Sprintf" {
			if t := sprintfStr(args, rt); t != nil {
				return t
			}
		}
	}
	if t := foldText(name, args); t != nil {
		return t
	}
	t := mk("app", rt, name, args...)
	if strings.HasSuffix(name, "Flag).GetName") {
		if s, ok := foldStr(t); ok {
			return mkString(s)
		}
	}
	switch name {
	case "strings.Split":
		if s, ok := args[1].strVal(); ok && s != "" {
			st.addFact(mkNot(mkLt0(linOf(lenOf(t)).add(linConst(1), -1))))
		}
	case "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeRuneInString":
		n := mk("ex", types.Typ[types.Int], 1, t)
		st.addFact(mkNot(mkLt0(linOf(n))))
		st.addFact(mkNot(mkLt0(linOf(lenOf(args[0])).add(linOf(n), -1))))
	case "unicode/utf8.RuneCountInString":
		st.addFact(mkNot(mkLt0(linOf(lenOf(args[0])).add(linOf(t), -1))))
		st.addFact(mkNot(mkLt0(linOf(t))))
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc",
		"bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.IndexFunc":
		// -1 or a position (the empty text is found at the end)
		st.addFact(mkNot(mkLt0(linOf(t).add(linConst(-1), -1))))
		room := int64(1)
		if name == "strings.Index" || name == "strings.LastIndex" || name == "bytes.Index" || name == "bytes.LastIndex" {
			if sub, ok := args[1].strVal(); !ok || sub == "" {
				room = 0
			}
		}
		st.addFact(mkNot(mkLt0(linOf(lenOf(args[0])).add(linOf(t), -1).add(linConst(room), -1))))
	case "strings.Repeat":
		ok := st.pc.entails(mkNot(mkLt0(linOf(args[1]))))
		ex.oblige(fr, st, "negative repeat count", nil, "strings.Repeat", ok)
	case "(github.com/faiface/beep.SampleRate).D":
		// a duration of n samples: monotone, zero at zero
		if st.pc.entails(mkNot(mkLt0(linOf(args[1])))) {
			st.addFact(mkNot(mkLt0(linOf(t))))
		}
	case "(github.com/faiface/beep.SampleRate).N":
		if st.pc.entails(mkNot(mkLt0(linOf(args[1])))) {
			st.addFact(mkNot(mkLt0(linOf(t))))
		}
		// N(d) <= m for every known duration D(m) with d <= D(m)
		seen := map[*Term]bool{}
		for q := st.pc; q != nil; q = q.up {
			d := q.lit.find(func(x *Term) bool {
				return x.Op == "app" && x.Aux == "(github.com/faiface/beep.SampleRate).D" && x.Args[0] == args[0] && !seen[x]
			})
			if d != nil {
				seen[d] = true
				if st.pc.entailsLe(args[1], d, 0) {
					st.addFact(mkNot(mkLt0(linOf(d.Args[1]).add(linOf(t), -1))))
				}
			}
		}
	}
	return t
}

// sprintfStr expands fmt.Sprintf with constant format into a concatenation, so that equivalent spellings of a string agree.
func sprintfStr(args []*Term, rt types.Type) *Term {
	f, ok := args[0].strVal()
	if !ok {
		return nil
	}
	var parts []*Term
	ai := 1
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if ai >= len(args) || strings.Contains(f[i:j], "*") || strings.Contains(f[i:j], "[") {
			return nil
		}
		if args[ai].Op == "vargs" {
			return nil
		}
		if lit != "" {
			parts = append(parts, mkString(lit))
			lit = ""
		}
		a := args[ai]
		ai++
		spec := f[i : j+1]
		u := a
		if u.Op == "iface" {
			u = u.Args[0]
		}
		if spec == "%s" && isString(u.Typ) {
			parts = append(parts, u)
		} else {
			parts = append(parts, mk("app", types.Typ[types.String], "fmt"+spec, u))
		}
		i = j
	}
	if ai != len(args) {
		return nil
	}
	if lit != "" {
		parts = append(parts, mkString(lit))
	}
	return mkCat(rt, parts...)
}

// afterCall adds what is known about the results of an external call.
func (ex *Exec) afterCall(st *State, e *Ev, name string, args []*Term, res *Term) {
	rng := func(n *Term, lo, hi *Term) {
		if lo != nil {
			st.addFact(mkNot(mkLt0(linOf(n).add(linOf(lo), -1))))
		}
		if hi != nil {
			st.addFact(mkNot(mkLt0(linOf(hi).add(linOf(n), -1))))
		}
	}
	zero := mkInt(0, nil)
	ext := func(i int) *Term {
		if tt, ok := res.Typ.(*types.Tuple); ok && i < tt.Len() {
			return mk("ex", tt.At(i).Type(), i, res)
		}
		return res
	}
	switch name {
	case "(net.Conn).Read", "(io.Reader).Read", "(net.Conn).Write", "(io.Writer).Write":
		rng(ext(0), zero, lenOf(args[1]))
	case "io.ReadFull":
		rng(ext(0), zero, lenOf(args[1]))
	case "io.ReadAtLeast":
		rng(ext(0), zero, lenOf(args[1]))
	case "(github.com/faiface/beep.StreamSeekCloser).Stream", "(github.com/faiface/beep.Streamer).Stream", "(github.com/faiface/beep.StreamSeeker).Stream", "(github.com/faiface/beep.StreamCloser).Stream":
		rng(ext(0), zero, lenOf(args[1]))
	case "(github.com/faiface/beep.StreamSeekCloser).Len":
		rng(res, zero, nil)
	case "(*os.File).Read":
		rng(ext(0), zero, lenOf(args[1]))
	}
	if strings.HasSuffix(name, ".Len") && len(args) == 1 && isInteger(res.Typ) {
		rng(res, zero, nil)
	}
}

// ---- nil analysis ----

// provNotNil: never nil because of where the value comes from.
func (ex *Exec) provNotNil(st *State, t *Term) bool {
	if nonNil(t) {
		return true
	}
	switch t.Op {
	case "global", "builtin", "funcv":
		return true
	}
	return false
}

// notNil decides the obligation "t is not nil": values which come from a source of nils must have been checked.
func (ex *Exec) notNil(st *State, t *Term) bool {
	if t.isNil() {
		return false
	}
	if ex.provNotNil(st, t) {
		return true
	}
	if !ex.maybeNil(st, t, 0) {
		return true
	}
	return st.pc.entails(mkNot(mkEq(t, mkNil(t.Typ))))
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// maybeNil: t may be nil, as far as is known without looking at checks of t itself.
func (ex *Exec) maybeNil(st *State, t *Term, d int) bool {
	if d > 8 {
		return true
	}
	switch t.Op {
	case "nil":
		return true
	case "sym", "vol":
		// havocked value: unknown, judged by its declared role
		if t.Typ != nil {
			switch t.Typ.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
				return !strings.HasPrefix(t.Aux.(string), "arg")
			}
		}
		return false
	case "ex":
		c := t.Args[0]
		i := t.Aux.(int)
		if c.Op == "call" || c.Op == "app" {
			tt, ok := c.Typ.(*types.Tuple)
			if !ok || i >= 1000 {
				return false
			}
			last := tt.At(tt.Len() - 1).Type()
			if i != tt.Len()-1 && isErrorType(last) {
				err := mk("ex", last, tt.Len()-1, c)
				return !st.pc.entails(mkEq(err, mkNil(last)))
			}
			if i != tt.Len()-1 && isBool(last) {
				okT := mk("ex", last, tt.Len()-1, c)
				return !st.pc.entails(okT)
			}
			if isErrorType(tt.At(i).Type()) {
				return true
			}
			return false
		}
		if c.Op == "lookup" {
			okT := mk("ex", types.Typ[types.Bool], 1, c)
			if i == 0 && st.pc.entails(okT) {
				return false
			}
			return true
		}
		return false
	case "lookup":
		return true
	case "call":
		cr := t.Aux.(*CallRes)
		switch cr.Name {
		case "github.com/golang/protobuf/proto.MessageType":
			return true
		case "(github.com/gdamore/tcell.Screen).PollEvent":
			return true
		}
		if strings.HasSuffix(cr.Name, ".GetChildOfType") {
			return true
		}
		return t.Typ != nil && isErrorType(t.Typ)
	case "unbox":
		return false
	case "zero":
		return true
	case "ld":
		a := t.Args[0]
		switch a.Op {
		case "faddr":
			k := fieldKey(a)
			if isProtoStruct(ptrElem(a.Args[0].Typ)) {
				// a message field of a received message may be missing
				_, isP := t.Typ.Underlying().(*types.Pointer)
				return isP
			}
			return ex.nilFields()[k]
		case "global":
			return ex.nilFields()[globalKey(a)]
		case "iaddr":
			return false
		}
		return false
	case "fld", "index", "elt":
		return false
	}
	return false
}

func isProtoStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "ProtoMessage" {
			return true
		}
	}
	return false
}

var nilFieldsMemo map[string]bool

// nilFields: pointer, interface, function, map and channel fields of repository structs, and globals, which may hold nil:
// they are assigned nil or a possibly-nil value somewhere, or some construction of the struct leaves them out.
func (ex *Exec) nilFields() map[string]bool {
	if nilFieldsMemo != nil {
		return nilFieldsMemo
	}
	nilFieldsMemo = computeNilFields(ex.p)
	return nilFieldsMemo
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}

// computeNilFields is a flow-insensitive scan: a field may be nil if a value of its struct is created without
// setting it in the creating function, or if a store writes a nil constant; a global may be nil if init does not set it.
func computeNilFields(p *Prog) map[string]bool {
	out := map[string]bool{}
	set := map[string]bool{}
	for rel, sp := range p.by {
		_ = rel
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			et := g.Type().(*types.Pointer).Elem()
			if nillable(et) {
				out[short(g.String())] = true
			}
		}
		if init := sp.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && !isNilConst(s.Val) {
							set[short(g.String())] = true
						}
					}
				}
			}
		}
	}
	for k := range set {
		delete(out, k)
	}
	// allocations
	for _, f := range p.fns {
		if p.isGenerated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					et := ptrElem(in.Type())
					n, ok := et.(*types.Named)
					if !ok {
						continue
					}
					stt, ok := et.Underlying().(*types.Struct)
					if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || isProtoStruct(et) {
						continue
					}
					assigned := map[int]bool{}
					whole := false
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.FieldAddr:
							for _, q := range *r.Referrers() {
								if s, ok := q.(*ssa.Store); ok && s.Addr == r && !isNilConst(s.Val) {
									assigned[r.Field] = true
								}
							}
						case *ssa.Store:
							if r.Addr == in {
								whole = true
							}
						}
					}
					if whole {
						continue
					}
					for i := 0; i < stt.NumFields(); i++ {
						if nillable(stt.Field(i).Type()) && !assigned[i] {
							out[short(typeKey(et))+"."+stt.Field(i).Name()] = true
						}
					}
				case *ssa.Store:
					if isNilConst(in.Val) {
						switch a := in.Addr.(type) {
						case *ssa.FieldAddr:
							st := ptrElem(a.X.Type())
							out[short(typeKey(st))+"."+derefStruct(st).Field(a.Field).Name()] = true
						case *ssa.Global:
							out[short(a.String())] = true
						}
					}
				}
			}
		}
	}
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// computeImmutable: fields and globals which are only stored to while their object is being constructed
// (a store through an allocation of the same function), and globals only stored by init functions.
func computeImmutable(p *Prog) map[string]bool {
	out := map[string]bool{}
	for g := range readOnly(p) {
		out["all of "+short(g.String())] = true
	}
	for _, sp := range p.by {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Type:
				if st, ok := m.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						out[short(typeKey(m.Type()))+"."+st.Field(i).Name()] = true
					}
				}
			case *ssa.Global:
				out[short(m.String())] = true
			}
		}
	}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := s.Addr.(type) {
				case *ssa.FieldAddr:
					if _, local := a.X.(*ssa.Alloc); local && !escapesBefore(a.X.(*ssa.Alloc), s) {
						continue
					}
					st := ptrElem(a.X.Type())
					delete(out, short(typeKey(st))+"."+derefStruct(st).Field(a.Field).Name())
				case *ssa.Global:
					if f.Name() == "init" && f.Signature.Recv() == nil {
						continue
					}
					if f.Pkg != nil && a.Pkg != f.Pkg && f.Pkg.Pkg.Name() == "main" {
						// a variable a program configures another package with at startup (that it does so
						// before anything reads it concurrently is what the data race rules check)
						continue
					}
					delete(out, short(a.String()))
				default:
					// a whole struct stored through a pointer
					if st, ok := s.Val.Type().Underlying().(*types.Struct); ok {
						if _, local := s.Addr.(*ssa.Alloc); !local {
							for i := 0; i < st.NumFields(); i++ {
								delete(out, short(typeKey(s.Val.Type()))+"."+st.Field(i).Name())
							}
						}
					}
				}
			}
		}
		// fields whose address is taken for something else than loads and stores
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							continue
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						continue
					}
					st := ptrElem(fa.X.Type())
					delete(out, short(typeKey(st))+"."+derefStruct(st).Field(fa.Field).Name())
				}
			}
		}
	}
	return out
}

// readOnly: the package variables of struct type which are only read once the package is initialised.
func readOnly(p *Prog) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, sp := range p.by {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && derefStruct(g.Type()) != nil {
				out[g] = true
			}
		}
	}
	for _, f := range p.fns {
		if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil {
			continue
		}
		var reads func(v ssa.Value, in ssa.Instruction) bool
		reads = func(v ssa.Value, in ssa.Instruction) bool {
			switch in := in.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
				return true
			case *ssa.FieldAddr:
				if in.Referrers() == nil {
					return true
				}
				for _, r := range *in.Referrers() {
					if !reads(in, r) {
						return false
					}
				}
				return true
			}
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && out[g] && !reads(g, in) {
						delete(out, g)
					}
				}
			}
		}
	}
	return out
}

// escapesBefore: the allocation is captured by a goroutine started before the store.
func escapesBefore(a *ssa.Alloc, s *ssa.Store) bool {
	for _, b := range a.Parent().Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			uses := false
			for _, o := range g.Operands(nil) {
				if *o == a {
					uses = true
				}
				if mc, ok := (*o).(*ssa.MakeClosure); ok {
					for _, bd := range mc.Bindings {
						if bd == a {
							uses = true
						}
					}
				}
			}
			if uses && reachesAvoiding(g, s, a) {
				return true
			}
		}
	}
	return false
}

// fromProtoType: x is reflect.New(MessageType(..).Elem()).Interface().
func (ex *Exec) fromProtoType(st *State, x *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "call" && strings.HasSuffix(t.Aux.(*CallRes).Name, "proto.MessageType") {
			found = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(x)
	return found
}

// foldText: functions of constant texts.
func foldText(name string, args []*Term) *Term {
	if !strings.HasPrefix(name, "strings.") || len(args) == 0 {
		return nil
	}
	a, ok := args[0].strVal()
	if !ok {
		return nil
	}
	if len(args) == 2 {
		if c, ok := args[1].intVal(); ok {
			switch name {
			case "strings.IndexByte":
				return mkInt(int64(strings.IndexByte(a, byte(c))), types.Typ[types.Int])
			case "strings.IndexRune":
				return mkInt(int64(strings.IndexRune(a, rune(c))), types.Typ[types.Int])
			case "strings.ContainsRune":
				return mkBool(strings.ContainsRune(a, rune(c)))
			}
			return nil
		}
		b, ok := args[1].strVal()
		if !ok {
			return nil
		}
		switch name {
		case "strings.Index":
			return mkInt(int64(strings.Index(a, b)), types.Typ[types.Int])
		case "strings.LastIndex":
			return mkInt(int64(strings.LastIndex(a, b)), types.Typ[types.Int])
		case "strings.IndexAny":
			return mkInt(int64(strings.IndexAny(a, b)), types.Typ[types.Int])
		case "strings.Contains":
			return mkBool(strings.Contains(a, b))
		case "strings.TrimPrefix":
			return mkString(strings.TrimPrefix(a, b))
		case "strings.TrimSuffix":
			return mkString(strings.TrimSuffix(a, b))
		}
	}
	return nil
}
