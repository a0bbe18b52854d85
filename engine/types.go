package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

type fieldInfo struct {
	off  int
	t    *RType
	name string
	v    *types.Var
	tag  string
}

// RType is a canonical run-time type: identical Go types share one RType.
type RType struct {
	t      types.Type
	id     int
	kind   Kind
	w      uint8
	signed bool
	isPtr  bool // unsafe.Pointer or uintptr-like
	size   int  // in cells
	elem   *RType
	key    *RType
	fields []fieldInfo
	n      int
	name   string // named type full name or ""

	mu      sync.Mutex
	methods map[string]*Func
}

func (r *RType) agg() bool { return r.kind == KStruct || r.kind == KArray }

func (r *RType) String() string { return r.t.String() }

type Types struct {
	mu  sync.Mutex
	m   typeutil.Map
	lst []*RType

	pending []func()
}

func (ts *Types) get(t types.Type) *RType {
	ts.mu.Lock()
	defer ts.mu.Unlock()
	r := ts.getL(t)
	// What a type refers to is laid out after the type itself, so that a struct is never
	// measured while one of its parts is unfinished.
	for len(ts.pending) > 0 {
		f := ts.pending[len(ts.pending)-1]
		ts.pending = ts.pending[:len(ts.pending)-1]
		f()
	}
	return r
}

func (ts *Types) getL(t types.Type) *RType {
	t = types.Unalias(t)
	if r := ts.m.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{t: t, id: len(ts.lst), size: 1}
	ts.lst = append(ts.lst, r)
	ts.m.Set(t, r)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			r.name = n.Obj().Pkg().Path() + "." + n.Obj().Name()
		} else {
			r.name = n.Obj().Name()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			r.kind, r.w, r.signed = KInt, 64, true
		case types.Int8:
			r.kind, r.w, r.signed = KInt, 8, true
		case types.Int16:
			r.kind, r.w, r.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.kind, r.w = KInt, 64
		case types.Uint8:
			r.kind, r.w = KInt, 8
		case types.Uint16:
			r.kind, r.w = KInt, 16
		case types.Uint32:
			r.kind, r.w = KInt, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = KFloat, 64
		case types.Float32:
			r.kind, r.w = KFloat, 32
		case types.Complex64, types.Complex128, types.UntypedComplex:
			r.kind = KComplex
		case types.String, types.UntypedString:
			r.kind = KString
		case types.UnsafePointer:
			r.kind, r.isPtr = KPtr, true
		case types.UntypedNil:
			r.kind = KPtr
		default:
			r.kind = KInvalid
		}
	case *types.Pointer:
		r.kind = KPtr
		ts.pending = append(ts.pending, func() { r.elem = ts.getL(u.Elem()) })
	case *types.Slice:
		r.kind = KSlice
		ts.pending = append(ts.pending, func() { r.elem = ts.getL(u.Elem()) })
	case *types.Map:
		r.kind = KMap
		ts.pending = append(ts.pending, func() { r.key, r.elem = ts.getL(u.Key()), ts.getL(u.Elem()) })
	case *types.Chan:
		r.kind = KChan
	case *types.Signature:
		r.kind = KFunc
	case *types.Interface:
		r.kind = KIface
	case *types.Struct:
		r.kind = KStruct
		off := 0
		r.fields = make([]fieldInfo, u.NumFields())
		for i := 0; i < u.NumFields(); i++ {
			ft := ts.getL(u.Field(i).Type())
			r.fields[i] = fieldInfo{off: off, t: ft, name: u.Field(i).Name(), v: u.Field(i), tag: u.Tag(i)}
			off += ft.size
		}
		r.size = off
	case *types.Array:
		r.kind = KArray
		r.elem = ts.getL(u.Elem())
		r.n = int(u.Len())
		r.size = r.n * r.elem.size
	case *types.Tuple:
		r.kind = KTuple
	case *types.TypeParam:
		r.kind = KInvalid
	default:
		panic(fmt.Sprintf("type %T %v", u, t))
	}
	return r
}

func isIfaceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
