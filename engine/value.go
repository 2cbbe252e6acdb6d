package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value = interface{}

// Ptr is a pointer to a byte offset in an object. When Idx is non-nil the
// address is Off + Idx*Str with Idx in [0,N).
type Ptr struct {
	Obj int
	Off int64
	Idx *Term
	Str int64
	N   int64
}

type Slice struct {
	Obj      int
	Off      int64
	Len, Cap int64
}

// StrV is an immutable string; b (if non-nil) holds its bytes as values.
type StrV struct {
	s string
	b []Value
}

func (s StrV) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s StrV) at(i int) Value {
	if s.b != nil {
		return s.b[i]
	}
	return mkConst(8, uint64(s.s[i]))
}

func (s StrV) sub(lo, hi int) StrV {
	if s.b != nil {
		return normStr(s.b[lo:hi])
	}
	return StrV{s: s.s[lo:hi]}
}

// normStr makes a concrete string if all bytes are constants.
func normStr(b []Value) StrV {
	for _, v := range b {
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			if b == nil {
				b = []Value{}
			}
			return StrV{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, v := range b {
		bs[i] = byte(v.(*Term).k)
	}
	return StrV{s: string(bs)}
}

func concatStr(a, b StrV) StrV {
	if a.b == nil && b.b == nil {
		return StrV{s: a.s + b.s}
	}
	var r []Value
	for i := 0; i < a.Len(); i++ {
		r = append(r, a.at(i))
	}
	for i := 0; i < b.Len(); i++ {
		r = append(r, b.at(i))
	}
	return normStr(r)
}

type Iface struct {
	T types.Type
	V Value
}

type StructV []Value
type ArrV []Value
type TupleV []Value

type FuncV struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	// bound intrinsic closure
	nat func(in *Interp, st *State, args []Value) Value
}

type MapV struct{ Obj int }
type ChanV struct{ Obj int }

// TokenV is an opaque byte standing for stubbed content (decimal rendering of
// a symbolic integer, compressed block, ...).
type TokenV struct {
	kind string
	t    *Term
	data interface{}
	sz   int64 // bytes, 0: 1
}

// Opaque is a value the engine carries around without interpreting it.
type Opaque struct{ what string }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

var sizes = types.SizesFor("gc", "amd64")

func isNilPtr(v Value) bool {
	p, ok := v.(Ptr)
	return ok && p.Obj == 0 && p.Idx == nil
}

func valSize(v Value) int64 {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return 1
		}
		return int64(v.w) / 8
	case Ptr, *FuncV, MapV, ChanV:
		return 8
	case Slice:
		return 24
	case StrV, Iface:
		return 16
	case TokenV:
		if v.sz > 0 {
			return v.sz
		}
		return 1
	}
	unsup("valSize %T", v)
	return 0
}

func intWidth(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkConst(intWidth(t), 0)
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		}
		unsup("zero of %v", t)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<16 {
			unsup("array value of length %d", u.Len())
		}
		s := make(ArrV, u.Len())
		for i := range s {
			s[i] = zeroOf(u.Elem())
		}
		return s
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = zeroOf(u.At(i).Type())
		}
		return s
	}
	unsup("zero of %v", t)
	return nil
}

// FloatV is a concrete float (symbolic floats are not supported).
type FloatV float64

// minPrim is the smallest primitive size in t (cell stride of an object).
func minPrim(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return 8
		}
		return sizeofT(t)
	case *types.Struct:
		m := int64(8)
		for i := 0; i < u.NumFields(); i++ {
			if sizeofT(u.Field(i).Type()) == 0 {
				continue
			}
			if x := minPrim(u.Field(i).Type()); x < m {
				m = x
			}
		}
		return m
	case *types.Array:
		if u.Len() == 0 {
			return 8
		}
		return minPrim(u.Elem())
	}
	return 8
}
