package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	iAlloc = iota
	iBinOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeChan
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSlice
	iStore
	iTypeAssert
	iUnOp
	iS2AP
	iUnsupported
)

func (p *Program) fnInfo(fn *ssa.Function) *FnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*FnInfo)
	}
	p.cmu.Lock()
	defer p.cmu.Unlock()
	if v, ok := p.fns.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := p.compile(fn)
	p.fns.Store(fn, fi)
	return fi
}

func mangle(s string) string {
	s = strings.NewReplacer("(*", "", "(", "", ")", "", ".", "_", "/", "_", "-", "_").Replace(s)
	return s
}

func (p *Program) compile(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, name: fn.String()}
	fi.mergeable = mergeableSig(fn)
	fi.fast = p.fast[fi.name]
	if in, ok := p.intrinsics[fi.name]; ok {
		fi.intr = in
		return fi
	}
	if o := fn.Origin(); o != nil && o != fn {
		if in, ok := p.intrinsics[o.String()]; ok {
			fi.intr = in
			return fi
		}
	}
	base := fi.name
	if o := fn.Origin(); o != nil {
		base = o.String()
	}
	if m, ok := p.models[mangle(base)]; ok && m != fn {
		fi.model = p.compile(m)
		return fi
	}
	if fn.Blocks == nil {
		fi.err = "external function " + fi.name
		return fi
	}
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, x := range fn.Params {
		fi.params = append(fi.params, n)
		add(x)
	}
	for _, x := range fn.FreeVars {
		fi.free = append(fi.free, n)
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	var operand func(v ssa.Value) opnd
	operand = func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: 2}
		case *ssa.Const:
			return opnd{k: 1, v: p.constVal(x)}
		case *ssa.Global:
			return opnd{k: 1, v: p.globalPtr(x)}
		case *ssa.Function:
			return opnd{k: 1, v: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{k: 1, v: &Closure{bi: x}}
		}
		r, ok := regs[v]
		if !ok {
			panic("no register for " + v.Name())
		}
		return opnd{k: 0, idx: int32(r)}
	}
	if fn.Synthetic == "package initializer" && !p.initRoot[fn] {
		fi.intr = func(st *State, ci *cinstr, args []Value) (Value, bool) { return nil, true }
		return fi
	}
	skipped := p.logOnly(fn)
	for _, b := range fn.Blocks {
		var cs []cinstr
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = v.Type()
			}
			ops := func(vs ...ssa.Value) {
				for _, v := range vs {
					ci.a = append(ci.a, operand(v))
				}
			}
			call := func(c *ssa.CallCommon) {
				ops(c.Value)
				ops(c.Args...)
				if c.IsInvoke() {
					ci.x = 1
				}
			}
			switch x := ins.(type) {
			case *ssa.Alloc:
				ci.op = iAlloc
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				ci.op = iBinOp
				ops(x.X, x.Y)
				ci.t = x.X.Type()
				ci.bop = int(x.Op)
				ci.w, ci.sg, _ = intWidth(x.X.Type())
			case *ssa.Call:
				ci.op = iCall
				call(&x.Call)
				ci.skip = skipped[x]
			case *ssa.Go:
				ci.op = iUnsupported
			case *ssa.Defer:
				ci.op = iDefer
				call(&x.Call)
				if x.DeferStack != nil {
					ci.op = iUnsupported
				}
			case *ssa.ChangeInterface:
				ci.op = iChangeInterface
				ops(x.X)
			case *ssa.ChangeType:
				ci.op = iChangeType
				ops(x.X)
			case *ssa.Convert:
				ci.op = iConvert
				ops(x.X)
				ci.t2 = x.X.Type()
			case *ssa.MultiConvert:
				ci.op = iUnsupported
			case *ssa.Extract:
				ci.op = iExtract
				ops(x.Tuple)
				ci.x = x.Index
			case *ssa.Field:
				ci.op = iField
				ops(x.X)
				ci.x = x.Field
			case *ssa.FieldAddr:
				ci.op = iFieldAddr
				ops(x.X)
				ci.x = x.Field
			case *ssa.If:
				ci.op = iIf
				ops(x.Cond)
				ci.succ = [2]int{b.Succs[0].Index, b.Succs[1].Index}
			case *ssa.Jump:
				ci.op = iJump
				ci.succ[0] = b.Succs[0].Index
			case *ssa.Index:
				ci.op = iIndex
				ops(x.X, x.Index)
				ci.uns = unsMask(x.Index)
			case *ssa.IndexAddr:
				ci.op = iIndexAddr
				ops(x.X, x.Index)
				ci.uns = unsMask(x.Index)
			case *ssa.Lookup:
				ci.op = iLookup
				ops(x.X, x.Index)
				ci.uns = unsMask(x.Index)
				if x.CommaOk {
					ci.x = 1
				}
				ci.t2 = x.X.Type()
			case *ssa.MakeClosure:
				ci.op = iMakeClosure
				ops(x.Bindings...)
			case *ssa.MakeInterface:
				ci.op = iMakeInterface
				ops(x.X)
				ci.t2 = x.X.Type()
			case *ssa.MakeMap:
				ci.op = iMakeMap
			case *ssa.MakeChan:
				ci.op = iMakeChan
			case *ssa.MakeSlice:
				ci.op = iMakeSlice
				ops(x.Len, x.Cap)
				ci.t2 = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				ci.op = iMapUpdate
				ops(x.Map, x.Key, x.Value)
			case *ssa.Next:
				ci.op = iNext
				ops(x.Iter)
				if x.IsString {
					ci.x = 1
				}
			case *ssa.Panic:
				ci.op = iPanic
				ops(x.X)
			case *ssa.Phi:
				ci.op = iPhi
				ops(x.Edges...)
			case *ssa.Range:
				ci.op = iRange
				ops(x.X)
			case *ssa.Return:
				ci.op = iReturn
				ops(x.Results...)
			case *ssa.RunDefers:
				ci.op = iRunDefers
			case *ssa.Slice:
				ci.op = iSlice
				ops(x.X, x.Low, x.High, x.Max)
				ci.uns = unsMask(x.Low, x.High, x.Max)
				ci.t2 = x.X.Type()
			case *ssa.Store:
				ci.op = iStore
				ops(x.Addr, x.Val)
			case *ssa.TypeAssert:
				ci.op = iTypeAssert
				ops(x.X)
				ci.t2 = x.AssertedType
				if x.CommaOk {
					ci.x = 1
				}
			case *ssa.UnOp:
				ci.op = iUnOp
				ops(x.X)
				ci.bop = int(x.Op)
				if x.Op == token.ARROW {
					ci.op = iUnsupported
				}
				ci.w, ci.sg, _ = intWidth(x.Type())
			case *ssa.SliceToArrayPointer:
				ci.op = iS2AP
				ops(x.X)
				ci.x = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			default:
				ci.op = iUnsupported
			}
			cs = append(cs, ci)
		}
		fi.blocks = append(fi.blocks, cs)
	}
	return fi
}

// mergeableSig: results are scalars, strings or arrays/tuples of those.
func mergeableSig(fn *ssa.Function) bool {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == zzvPath {
		return false
	}
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return false
	}
	for i := 0; i < r.Len(); i++ {
		t := r.At(i).Type().Underlying()
		if a, ok := t.(*types.Array); ok {
			t = a.Elem().Underlying()
		}
		if _, ok := t.(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// logOnly finds calls whose only result use is as an argument of the debug
// logger (helper.DebugPrint): their values are never inspected.
func (p *Program) logOnly(fn *ssa.Function) map[*ssa.Call]bool {
	out := map[*ssa.Call]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := c.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			refs := c.Referrers()
			if refs == nil || len(*refs) != 1 {
				continue
			}
			mi, ok := (*refs)[0].(*ssa.MakeInterface)
			if !ok || len(*mi.Referrers()) != 1 {
				continue
			}
			sto, ok := (*mi.Referrers())[0].(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := sto.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			good := false
			for _, r := range *al.Referrers() {
				sl, ok := r.(*ssa.Slice)
				if !ok {
					continue
				}
				for _, r2 := range *sl.Referrers() {
					switch cc := r2.(type) {
					case *ssa.Call:
						if f := cc.Call.StaticCallee(); f != nil && p.isLogger(f) {
							good = true
						}
					case *ssa.Defer:
						if f := cc.Call.StaticCallee(); f != nil && p.isLogger(f) {
							good = true
						}
					}
				}
			}
			if good {
				out[c] = true
			}
		}
	}
	return out
}

func (p *Program) isLogger(f *ssa.Function) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/helper" && f.Name() == "DebugPrint"
}

func (p *Program) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	t := c.Type().Underlying()
	if w, sg, ok := intWidth(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		if sg {
			return mkConst(w, uint64(c.Int64()))
		}
		return mkConst(w, c.Uint64())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			return Str{s: string(rune(c.Int64()))}
		case b.Info()&types.IsFloat != 0:
			return Float(c.Float64())
		}
	}
	return Poison{"const " + c.String()}
}

// Program holds the loaded code.
type Program struct {
	prog       *ssa.Program
	root       *ssa.Package
	fns        sync.Map
	cmu        sync.Mutex
	intrinsics map[string]intrinsic
	models     map[string]*ssa.Function
	globals    map[*ssa.Global]Ptr
	globNames  map[int32]string
	base       *State
	nPkgInit   int
	usedFns    sync.Map
	initRoot   map[*ssa.Function]bool
	fast       map[string]func([]Value) (Value, bool)
	sizes      types.Sizes
	initNotes  []string

	stdout, stderr Ptr            // os.Stdout, os.Stderr
	outputs        map[string]Ptr // zzv.OutText, zzv.ErrText
}

func (p *Program) globalPtr(g *ssa.Global) Ptr {
	if q, ok := p.globals[g]; ok {
		return q
	}
	panic(unsupported("global " + g.String()))
}

func (p *Program) globName(id int32) string {
	if n, ok := p.globNames[id]; ok {
		return n
	}
	return fmt.Sprintf("object#%d", id)
}

// unsMask has bit i set when the i-th value is of an unsigned type narrower
// than int, so that as an index it is extended with zeros.
func unsMask(vs ...ssa.Value) (m uint8) {
	for i, v := range vs {
		if v == nil {
			continue
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			m |= 1 << i
		}
	}
	return m
}
