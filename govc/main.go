// govc exports the typed SSA form of the packages in the current directory's
// module (and of named dependency packages) as JSON on stdout.
//
// usage: govc -dir /repo [-dep import/path ...] > out.json
//
// Nothing is transcribed by hand: the exported functions are what
// golang.org/x/tools/go/ssa builds from the source on disk.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type obj = map[string]interface{}

type exporter struct {
	prog   *ssa.Program
	fset   *token.FileSet
	types  map[types.Type]int
	tlist  []obj
	canon  map[string]int
	named  map[string]*types.Named
	funcs  map[string]obj
	done   map[*ssa.Function]bool
	work   []*ssa.Function
	inMod  func(*types.Package) bool
	global map[string]obj
}

func qual(p *types.Package) string { return p.Path() }

func (e *exporter) typ(t types.Type) int {
	if id, ok := e.types[t]; ok {
		return id
	}
	// Structurally identical types share an id through their string.
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if id, ok := e.canon[key]; ok {
		e.types[t] = id
		return id
	}
	id := len(e.tlist)
	e.types[t] = id
	e.canon[key] = id
	o := obj{"str": key}
	e.tlist = append(e.tlist, o)
	switch x := t.(type) {
	case *types.Basic:
		o["kind"] = "basic"
		o["name"] = x.Name()
		o["info"] = int(x.Info())
	case *types.Named:
		o["kind"] = "named"
		o["name"] = x.Obj().Name()
		if x.Obj().Pkg() != nil {
			o["pkg"] = x.Obj().Pkg().Path()
		}
		o["under"] = e.typ(x.Underlying())
		e.named[key] = x
	case *types.Pointer:
		o["kind"] = "ptr"
		o["elem"] = e.typ(x.Elem())
	case *types.Slice:
		o["kind"] = "slice"
		o["elem"] = e.typ(x.Elem())
	case *types.Array:
		o["kind"] = "array"
		o["elem"] = e.typ(x.Elem())
		o["len"] = x.Len()
	case *types.Map:
		o["kind"] = "map"
		o["key"] = e.typ(x.Key())
		o["elem"] = e.typ(x.Elem())
	case *types.Chan:
		o["kind"] = "chan"
		o["elem"] = e.typ(x.Elem())
	case *types.Struct:
		o["kind"] = "struct"
		fs := []obj{}
		for i := 0; i < x.NumFields(); i++ {
			fs = append(fs, obj{"name": x.Field(i).Name(), "type": e.typ(x.Field(i).Type()), "embedded": x.Field(i).Embedded()})
		}
		o["fields"] = fs
	case *types.Interface:
		o["kind"] = "iface"
		ms := []string{}
		for i := 0; i < x.NumMethods(); i++ {
			ms = append(ms, x.Method(i).Name())
		}
		o["methods"] = ms
	case *types.Signature:
		o["kind"] = "func"
	case *types.Tuple:
		o["kind"] = "tuple"
		el := []int{}
		for i := 0; i < x.Len(); i++ {
			el = append(el, e.typ(x.At(i).Type()))
		}
		o["elems"] = el
	default:
		o["kind"] = "other"
	}
	return id
}

func (e *exporter) fname(f *ssa.Function) string { return f.String() }

func (e *exporter) val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		o := obj{"k": "const", "t": e.typ(x.Type())}
		if x.Value == nil {
			o["nil"] = true
			return o
		}
		switch x.Value.Kind() {
		case constant.Bool:
			o["bool"] = constant.BoolVal(x.Value)
		case constant.String:
			b := []byte(constant.StringVal(x.Value))
			ints := make([]int, len(b))
			for i := range b {
				ints[i] = int(b[i])
			}
			o["str"] = ints
		case constant.Int:
			o["int"] = x.Value.ExactString()
		case constant.Float:
			o["float"] = x.Value.ExactString()
		default:
			o["other"] = x.Value.ExactString()
		}
		// integer constants of float type
		return o
	case *ssa.Global:
		e.global[x.String()] = obj{"type": e.typ(x.Type()), "pkg": x.Pkg.Pkg.Path()}
		return obj{"k": "global", "n": x.String(), "t": e.typ(x.Type())}
	case *ssa.Function:
		e.add(x)
		return obj{"k": "func", "n": e.fname(x), "t": e.typ(x.Type())}
	case *ssa.Builtin:
		return obj{"k": "builtin", "n": x.Name(), "t": e.typ(x.Type())}
	case *ssa.Parameter:
		return obj{"k": "reg", "n": x.Name(), "t": e.typ(x.Type())}
	case *ssa.FreeVar:
		return obj{"k": "free", "n": x.Name(), "t": e.typ(x.Type())}
	}
	return obj{"k": "reg", "n": v.Name(), "t": e.typ(v.Type())}
}

func (e *exporter) vals(vs []ssa.Value) []interface{} {
	r := make([]interface{}, len(vs))
	for i, v := range vs {
		r[i] = e.val(v)
	}
	return r
}

func (e *exporter) add(f *ssa.Function) {
	if !e.done[f] {
		e.done[f] = true
		e.work = append(e.work, f)
	}
}

func (e *exporter) call(c *ssa.CallCommon, o obj) {
	if c.IsInvoke() {
		o["invoke"] = c.Method.Name()
		o["recv"] = e.val(c.Value)
	} else {
		o["fn"] = e.val(c.Value)
	}
	o["args"] = e.vals(c.Args)
	o["sig"] = c.Signature().String()
	o["variadic"] = c.Signature().Variadic()
}

func (e *exporter) fn(f *ssa.Function) obj {
	o := obj{"name": e.fname(f)}
	if f.Pkg != nil {
		o["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Synthetic != "" {
		o["synthetic"] = f.Synthetic
	}
	if f.Parent() != nil {
		o["parent"] = e.fname(f.Parent())
	}
	ps := []obj{}
	for _, p := range f.Params {
		ps = append(ps, obj{"n": p.Name(), "t": e.typ(p.Type())})
	}
	o["params"] = ps
	fv := []obj{}
	for _, p := range f.FreeVars {
		fv = append(fv, obj{"n": p.Name(), "t": e.typ(p.Type())})
	}
	o["free"] = fv
	rs := []int{}
	rn := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, e.typ(f.Signature.Results().At(i).Type()))
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	o["results"] = rs
	o["resultNames"] = rn
	o["variadic"] = f.Signature.Variadic()
	if f.Pos().IsValid() {
		p := e.fset.Position(f.Pos())
		o["file"] = p.Filename
		o["line"] = p.Line
	}
	bs := []obj{}
	for _, b := range f.Blocks {
		bo := obj{}
		preds := []int{}
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		succs := []int{}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		bo["preds"] = preds
		bo["succs"] = succs
		bo["comment"] = b.Comment
		ins := []obj{}
		for _, in := range b.Instrs {
			if x := e.instr(in); x != nil {
				ins = append(ins, x)
			}
		}
		bo["instrs"] = ins
		bs = append(bs, bo)
	}
	o["blocks"] = bs
	if f.Recover != nil {
		o["recover"] = f.Recover.Index
	}
	return o
}

func (e *exporter) instr(in ssa.Instruction) obj {
	o := obj{}
	if v, ok := in.(ssa.Value); ok {
		o["r"] = v.Name()
		o["t"] = e.typ(v.Type())
	}
	if in.Pos().IsValid() {
		o["line"] = e.fset.Position(in.Pos()).Line
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		o["op"] = "Alloc"
		o["heap"] = x.Heap
		o["comment"] = x.Comment
	case *ssa.BinOp:
		o["op"] = "BinOp"
		o["tok"] = x.Op.String()
		o["x"] = e.val(x.X)
		o["y"] = e.val(x.Y)
	case *ssa.UnOp:
		o["op"] = "UnOp"
		o["tok"] = x.Op.String()
		o["x"] = e.val(x.X)
		o["commaok"] = x.CommaOk
	case *ssa.Call:
		o["op"] = "Call"
		e.call(&x.Call, o)
	case *ssa.Go:
		o["op"] = "Go"
		e.call(&x.Call, o)
	case *ssa.Defer:
		o["op"] = "Defer"
		e.call(&x.Call, o)
	case *ssa.RunDefers:
		o["op"] = "RunDefers"
	case *ssa.ChangeInterface:
		o["op"] = "ChangeInterface"
		o["x"] = e.val(x.X)
	case *ssa.ChangeType:
		o["op"] = "ChangeType"
		o["x"] = e.val(x.X)
	case *ssa.Convert:
		o["op"] = "Convert"
		o["x"] = e.val(x.X)
	case *ssa.MakeInterface:
		o["op"] = "MakeInterface"
		o["x"] = e.val(x.X)
	case *ssa.MakeClosure:
		o["op"] = "MakeClosure"
		o["fn"] = e.val(x.Fn)
		o["bind"] = e.vals(x.Bindings)
	case *ssa.MakeMap:
		o["op"] = "MakeMap"
		o["reserve"] = e.val(x.Reserve)
	case *ssa.MakeSlice:
		o["op"] = "MakeSlice"
		o["len"] = e.val(x.Len)
		o["cap"] = e.val(x.Cap)
	case *ssa.MakeChan:
		o["op"] = "MakeChan"
	case *ssa.Slice:
		o["op"] = "Slice"
		o["x"] = e.val(x.X)
		o["low"] = e.val(x.Low)
		o["high"] = e.val(x.High)
		o["max"] = e.val(x.Max)
	case *ssa.FieldAddr:
		o["op"] = "FieldAddr"
		o["x"] = e.val(x.X)
		o["field"] = x.Field
	case *ssa.Field:
		o["op"] = "Field"
		o["x"] = e.val(x.X)
		o["field"] = x.Field
	case *ssa.IndexAddr:
		o["op"] = "IndexAddr"
		o["x"] = e.val(x.X)
		o["index"] = e.val(x.Index)
	case *ssa.Index:
		o["op"] = "Index"
		o["x"] = e.val(x.X)
		o["index"] = e.val(x.Index)
	case *ssa.Lookup:
		o["op"] = "Lookup"
		o["x"] = e.val(x.X)
		o["index"] = e.val(x.Index)
		o["commaok"] = x.CommaOk
	case *ssa.MapUpdate:
		o["op"] = "MapUpdate"
		o["m"] = e.val(x.Map)
		o["key"] = e.val(x.Key)
		o["v"] = e.val(x.Value)
	case *ssa.Range:
		o["op"] = "Range"
		o["x"] = e.val(x.X)
	case *ssa.Next:
		o["op"] = "Next"
		if rg, ok := x.Iter.(*ssa.Range); ok {
			o["mt"] = e.typ(rg.X.Type())
		}
		o["iter"] = e.val(x.Iter)
		o["isstring"] = x.IsString
	case *ssa.Extract:
		o["op"] = "Extract"
		o["x"] = e.val(x.Tuple)
		o["index"] = x.Index
	case *ssa.TypeAssert:
		o["op"] = "TypeAssert"
		o["x"] = e.val(x.X)
		o["at"] = e.typ(x.AssertedType)
		o["commaok"] = x.CommaOk
	case *ssa.Phi:
		o["op"] = "Phi"
		o["edges"] = e.vals(x.Edges)
		o["comment"] = x.Comment
	case *ssa.Store:
		o["op"] = "Store"
		o["addr"] = e.val(x.Addr)
		o["v"] = e.val(x.Val)
	case *ssa.If:
		o["op"] = "If"
		o["x"] = e.val(x.Cond)
	case *ssa.Jump:
		o["op"] = "Jump"
	case *ssa.Return:
		o["op"] = "Return"
		o["vals"] = e.vals(x.Results)
	case *ssa.Panic:
		o["op"] = "Panic"
		o["x"] = e.val(x.X)
	case *ssa.Send:
		o["op"] = "Send"
	case *ssa.Select:
		o["op"] = "Select"
	default:
		o["op"] = fmt.Sprintf("Unsupported(%T)", in)
	}
	return o
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func main() {
	var deps multi
	dir := flag.String("dir", ".", "module directory")
	out := flag.String("o", "", "output file")
	flag.Var(&deps, "dep", "dependency package to export with bodies")
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *dir,
	}
	cfg.Mode &^= packages.NeedDeps // dependencies come from export data
	pats := append([]string{"./..."}, deps...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: load:", err)
		os.Exit(3)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			fmt.Fprintln(os.Stderr, "govc:", er)
			bad = true
		}
	})
	if bad {
		os.Exit(4)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &exporter{prog: prog, fset: prog.Fset, types: map[types.Type]int{}, canon: map[string]int{},
		named: map[string]*types.Named{}, funcs: map[string]obj{}, done: map[*ssa.Function]bool{}, global: map[string]obj{}}
	srcPkgs := map[*ssa.Package]bool{}
	consts := map[string]string{}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		srcPkgs[sp] = true
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				e.add(m)
			case *ssa.Type:
				e.typ(m.Type())
				if nt, ok := types.Unalias(m.Type()).(*types.Named); ok && nt.TypeParams().Len() == 0 {
					for _, t := range []types.Type{nt, types.NewPointer(nt)} {
						ms := prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if f := prog.MethodValue(ms.At(i)); f != nil {
								e.add(f)
							}
						}
					}
				}
			case *ssa.Global:
				e.val(m)
			case *ssa.NamedConst:
				consts[sp.Pkg.Path()+"."+n] = m.Value.Value.ExactString()
			}
		}
	}
	for len(e.work) > 0 {
		f := e.work[0]
		e.work = e.work[1:]
		e.funcs[e.fname(f)] = e.fn(f)
		for _, a := range f.AnonFuncs {
			e.add(a)
		}
	}
	// method tables of all named types seen (value and pointer)
	meths := map[string]obj{}
	for key := range e.named {
		_ = key
	}
	for {
		n := len(e.work)
		keys := []string{}
		for k := range e.named {
			if meths[k] == nil {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 && n == 0 {
			break
		}
		sort.Strings(keys)
		for _, k := range keys {
			nt := e.named[k]
			rec := obj{}
			meths[k] = rec
			if nt.TypeParams().Len() != 0 {
				continue
			}
			for _, pt := range []bool{false, true} {
				var t types.Type = nt
				nm := "val"
				if pt {
					t = types.NewPointer(nt)
					nm = "ptr"
				}
				if _, isI := nt.Underlying().(*types.Interface); isI {
					mm := []string{}
					it := nt.Underlying().(*types.Interface)
					for i := 0; i < it.NumMethods(); i++ {
						mm = append(mm, it.Method(i).Name())
					}
					rec["iface"] = mm
					continue
				}
				ms := prog.MethodSets.MethodSet(t)
				tab := obj{}
				for i := 0; i < ms.Len(); i++ {
					sel := ms.At(i)
					fo := sel.Obj().(*types.Func)
					full := ""
					func() {
						defer func() { recover() }()
						if f := prog.MethodValue(sel); f != nil {
							full = e.fname(f)
							if f.Pkg == nil || srcPkgs[f.Pkg] || f.Synthetic != "" {
								if fo.Pkg() != nil {
									if sp := prog.Package(fo.Pkg()); sp != nil && srcPkgs[sp] {
										e.add(f)
									}
								}
							}
						}
					}()
					if full == "" {
						full = fo.FullName()
					}
					tab[fo.Name()] = full
				}
				rec[nm] = tab
			}
		}
		for len(e.work) > 0 {
			f := e.work[0]
			e.work = e.work[1:]
			e.funcs[e.fname(f)] = e.fn(f)
			for _, a := range f.AnonFuncs {
				e.add(a)
			}
		}
	}
	res := obj{"types": e.tlist, "funcs": e.funcs, "methods": meths, "consts": consts, "globals": e.global}
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if err := json.NewEncoder(w).Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.Close()
}
