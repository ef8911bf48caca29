// ssadump loads Go packages from source and dumps the SSA form of every
// function as JSON. It is the mechanical extraction step of the verifier: it
// drops nothing from function bodies except debug references and comments.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]any

var (
	typeTab = J{}
	fset    *token.FileSet
	prog    *ssa.Program
	funcs   = J{}
	todo    []*ssa.Function
	seen    = map[*ssa.Function]bool{}
	root    string
	own     = map[*types.Package]bool{}
)

// byte, rune and any are other names of uint8, int32 and interface {}
var synonyms = regexp.MustCompile(`(^|[^.\w/])(byte|rune|any)\b`)

func ts(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, nil)
	s = synonyms.ReplaceAllStringFunc(s, func(m string) string {
		m = strings.Replace(m, "byte", "uint8", 1)
		m = strings.Replace(m, "rune", "int32", 1)
		return strings.Replace(m, "any", "interface{}", 1)
	})
	if _, ok := typeTab[s]; ok {
		return s
	}
	j := J{}
	typeTab[s] = j
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = types.Typ[t.Kind()].Name()
		if t.Kind() == types.UnsafePointer {
			j["name"] = "unsafe.Pointer"
		}
	case *types.Alias:
		j["k"] = "alias"
		j["under"] = ts(types.Unalias(t))
	case *types.Named:
		j["k"] = "named"
		j["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Path()
		}
		j["under"] = ts(t.Underlying())
		j["own"] = own[t.Obj().Pkg()]
		if !types.IsInterface(t) {
			j["methods"] = methods(t)
		}
	case *types.Pointer:
		j["k"] = "ptr"
		j["elem"] = ts(t.Elem())
		if _, ok := t.Elem().(*types.Named); ok && !types.IsInterface(t.Elem()) {
			j["methods"] = methods(t)
		}
	case *types.Slice:
		j["k"] = "slice"
		j["elem"] = ts(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["elem"] = ts(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = ts(t.Key())
		j["elem"] = ts(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
	case *types.Struct:
		j["k"] = "struct"
		var fs []any
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, []any{f.Name(), ts(f.Type()), f.Embedded()})
		}
		j["fields"] = fs
	case *types.Interface:
		j["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		j["methods"] = ms
	case *types.Signature:
		j["k"] = "func"
		var ps, rs []any
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, []any{t.Params().At(i).Name(), ts(t.Params().At(i).Type())})
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, []any{t.Results().At(i).Name(), ts(t.Results().At(i).Type())})
		}
		j["params"] = ps
		j["results"] = rs
		j["variadic"] = t.Variadic()
	case *types.Tuple:
		j["k"] = "tuple"
		var es []any
		for i := 0; i < t.Len(); i++ {
			es = append(es, ts(t.At(i).Type()))
		}
		j["elems"] = es
	default:
		j["k"] = "other"
		j["go"] = fmt.Sprintf("%T", t)
	}
	return s
}

func methods(t types.Type) J {
	out := J{}
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		n := t
		if p, ok := n.(*types.Pointer); ok {
			n = p.Elem()
		}
		nm, ok := n.(*types.Named)
		if !ok || !own[nm.Obj().Pkg()] {
			continue
		}
		if nm.TypeParams().Len() > 0 && nm.TypeArgs().Len() == 0 {
			continue
		}
		f := prog.MethodValue(sel)
		if f == nil {
			continue
		}
		add(f)
		out[sel.Obj().Name()] = fid(f)
	}
	return out
}

func fid(f *ssa.Function) string { return f.RelString(nil) }

func add(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	todo = append(todo, f)
}

func val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"t": ts(v.Type())}
		if v.Value == nil {
			j["k"] = "zero"
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["k"] = "bool"
				j["c"] = constant.BoolVal(v.Value)
			case constant.String:
				j["k"] = "str"
				s := constant.StringVal(v.Value)
				bs := []int{}
				for i := 0; i < len(s); i++ {
					bs = append(bs, int(s[i]))
				}
				j["c"] = bs
			case constant.Int:
				j["k"] = "int"
				j["c"] = v.Value.ExactString()
			default:
				j["k"] = "other"
				j["c"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "id": v.RelString(nil), "t": ts(v.Type())}
	case *ssa.Function:
		add(v)
		return J{"k": "func", "id": fid(v), "t": ts(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "id": v.Name(), "t": ts(v.Type())}
	case *ssa.Parameter:
		return J{"k": "param", "id": v.Name(), "t": ts(v.Type())}
	case *ssa.FreeVar:
		return J{"k": "free", "id": v.Name(), "t": ts(v.Type())}
	}
	return J{"k": "reg", "id": v.Name(), "t": ts(v.Type())}
}

func vals(vs []ssa.Value) []any {
	out := []any{}
	for _, v := range vs {
		out = append(out, val(v))
	}
	return out
}

func pos(p token.Pos) any {
	if !p.IsValid() {
		return nil
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, root+"/"), q.Line)
}

func call(j J, c *ssa.CallCommon) {
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
		j["itype"] = ts(c.Value.Type())
	} else {
		j["fn"] = val(c.Value)
	}
	j["args"] = vals(c.Args)
	j["sig"] = ts(c.Signature())
}

func instr(in ssa.Instruction) J {
	j := J{}
	if p := pos(in.Pos()); p != nil {
		j["pos"] = p
	}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = ts(v.Type())
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		if in.Object() == nil || in.IsAddr {
			return nil
		}
		if _, ok := in.Object().(*types.Var); !ok {
			return nil
		}
		j["op"] = "DebugRef"
		j["name"] = in.Object().Name()
		j["x"] = val(in.X)
	case *ssa.Alloc:
		j["op"] = "Alloc"
		j["heap"] = in.Heap
		j["name"] = in.Comment
	case *ssa.BinOp:
		j["op"] = "BinOp"
		j["o"] = in.Op.String()
		j["x"] = val(in.X)
		j["y"] = val(in.Y)
	case *ssa.UnOp:
		j["op"] = "UnOp"
		j["o"] = in.Op.String()
		j["x"] = val(in.X)
		j["ok"] = in.CommaOk
	case *ssa.Call:
		j["op"] = "Call"
		call(j, &in.Call)
	case *ssa.Defer:
		j["op"] = "Defer"
		call(j, &in.Call)
	case *ssa.Go:
		j["op"] = "Go"
		call(j, &in.Call)
	case *ssa.ChangeInterface:
		j["op"] = "ChangeInterface"
		j["x"] = val(in.X)
	case *ssa.ChangeType:
		j["op"] = "ChangeType"
		j["x"] = val(in.X)
	case *ssa.Convert:
		j["op"] = "Convert"
		j["x"] = val(in.X)
	case *ssa.MakeInterface:
		j["op"] = "MakeInterface"
		j["x"] = val(in.X)
	case *ssa.MakeClosure:
		j["op"] = "MakeClosure"
		j["x"] = val(in.Fn)
		j["b"] = vals(in.Bindings)
	case *ssa.MakeMap:
		j["op"] = "MakeMap"
	case *ssa.MakeSlice:
		j["op"] = "MakeSlice"
		j["len"] = val(in.Len)
		j["cap"] = val(in.Cap)
	case *ssa.FieldAddr:
		j["op"] = "FieldAddr"
		j["x"] = val(in.X)
		j["f"] = in.Field
	case *ssa.Field:
		j["op"] = "Field"
		j["x"] = val(in.X)
		j["f"] = in.Field
	case *ssa.IndexAddr:
		j["op"] = "IndexAddr"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
	case *ssa.Index:
		j["op"] = "Index"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
	case *ssa.Lookup:
		j["op"] = "Lookup"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
		j["ok"] = in.CommaOk
	case *ssa.MapUpdate:
		j["op"] = "MapUpdate"
		j["x"] = val(in.Map)
		j["i"] = val(in.Key)
		j["y"] = val(in.Value)
	case *ssa.Slice:
		j["op"] = "Slice"
		j["x"] = val(in.X)
		j["lo"] = val(in.Low)
		j["hi"] = val(in.High)
		j["max"] = val(in.Max)
	case *ssa.SliceToArrayPointer:
		j["op"] = "SliceToArrayPointer"
		j["x"] = val(in.X)
	case *ssa.Phi:
		j["op"] = "Phi"
		j["e"] = vals(in.Edges)
		j["name"] = in.Comment
	case *ssa.Extract:
		j["op"] = "Extract"
		j["x"] = val(in.Tuple)
		j["i"] = in.Index
	case *ssa.TypeAssert:
		j["op"] = "TypeAssert"
		j["x"] = val(in.X)
		j["at"] = ts(in.AssertedType)
		j["ok"] = in.CommaOk
	case *ssa.Range:
		j["op"] = "Range"
		j["x"] = val(in.X)
	case *ssa.Next:
		j["op"] = "Next"
		j["x"] = val(in.Iter)
		j["str"] = in.IsString
	case *ssa.Store:
		j["op"] = "Store"
		j["x"] = val(in.Addr)
		j["y"] = val(in.Val)
	case *ssa.RunDefers:
		j["op"] = "RunDefers"
	case *ssa.Panic:
		j["op"] = "Panic"
		j["x"] = val(in.X)
	case *ssa.If:
		j["op"] = "If"
		j["x"] = val(in.Cond)
	case *ssa.Jump:
		j["op"] = "Jump"
	case *ssa.Return:
		j["op"] = "Return"
		j["xs"] = vals(in.Results)
	default:
		j["op"] = "Unsupported"
		j["go"] = fmt.Sprintf("%T", in)
	}
	return j
}

func dump(f *ssa.Function) {
	j := J{"id": fid(f), "name": f.Name(), "pos": pos(f.Pos()), "synthetic": f.Synthetic, "sig": ts(f.Signature)}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
		j["own"] = own[f.Pkg.Pkg]
	}
	if f.Parent() != nil {
		j["parent"] = fid(f.Parent())
	}
	var ps []any
	for _, p := range f.Params {
		ps = append(ps, []any{p.Name(), ts(p.Type())})
	}
	j["params"] = ps
	var fv []any
	for _, p := range f.FreeVars {
		fv = append(fv, []any{p.Name(), ts(p.Type())})
	}
	j["free"] = fv
	var rs []any
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r := f.Signature.Results().At(i)
		rs = append(rs, []any{r.Name(), ts(r.Type())})
	}
	j["results"] = rs
	var bs []any
	for _, b := range f.Blocks {
		var is []any
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		var pr, su []int
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		bs = append(bs, J{"i": b.Index, "c": b.Comment, "preds": pr, "succs": su, "instrs": is})
	}
	j["blocks"] = bs
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	for _, a := range f.AnonFuncs {
		add(a)
	}
	funcs[fid(f)] = j
}

func main() {
	root = os.Args[1]
	cfg := &packages.Config{Dir: root, Mode: packages.LoadSyntax | packages.NeedModule}
	var extra []string
	for _, a := range os.Args[2:] {
		if strings.HasPrefix(a, "-tags=") {
			cfg.BuildFlags = append(cfg.BuildFlags, a)
		} else {
			extra = append(extra, a)
		}
	}
	pkgs, err := packages.Load(cfg, append([]string{"./..."}, extra...)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	fset = pkgs[0].Fset
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	for _, p := range pkgs {
		own[p.Types] = p.Module != nil && p.Module.Main
	}
	prog.Build()
	var pk []any
	globals := J{}
	files := []string{}
	for i, p := range spkgs {
		pk = append(pk, p.Pkg.Path())
		if own[p.Pkg] {
			files = append(files, pkgs[i].GoFiles...)
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				if m.TypeParams().Len() > 0 && len(m.TypeArgs()) == 0 {
					continue
				}
				add(m)
			case *ssa.Global:
				globals[m.RelString(nil)] = ts(m.Type())
			case *ssa.Type:
				if nm, ok := m.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
					continue
				}
				ts(m.Type())
				ts(types.NewPointer(m.Type()))
			}
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		dump(f)
	}
	out := J{"types": typeTab, "funcs": funcs, "globals": globals, "pkgs": pk, "files": files}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
