package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// auxTables: the unexported map fields of the package's structs that no reference function
// mentions. The properties are about the other state; such a table can only be a memo of
// something computed from it. The decision checks take the tables empty (every decision
// computed afresh), and the coherence check (C07) shows that a filled table makes no
// difference.
func (w *World) auxTables(pkg string) map[string]bool {
	p := w.tpkgs[pkg]
	out := map[string]bool{}
	if p == nil {
		return out
	}
	for _, name := range p.Types.Scope().Names() {
		tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() && isTable(f.Type()) {
				out[f.Name()] = true
			}
		}
	}
	for _, file := range p.Syntax {
		if !strings.Contains(w.fset.Position(file.Pos()).Filename, specMark) {
			continue
		}
		ast.Inspect(file, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				delete(out, s.Sel.Name)
			}
			return true
		})
	}
	// a memo is emptied when what it was computed from changes; a table that never is
	// holds something else
	emptied := map[string]bool{}
	for f := range w.all {
		if !inRepo(f) || w.isSpec(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "clear" {
						emptied[fieldName(i.Call.Args[0])] = true
					}
					if m := i.Call.Method; m != nil && (m.Name() == "Clear" || m.Name() == "Range") {
						if m.Name() == "Clear" {
							emptied[fieldName(i.Call.Value)] = true
						}
					}
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							switch i.Val.(type) {
							case *ssa.MakeMap, *ssa.Const, *ssa.Call, *ssa.MakeInterface:
								emptied[fieldOf(fa)] = true
							}
						}
					}
				}
			}
		}
	}
	for k := range out {
		if !emptied[k] {
			delete(out, k)
		}
	}
	return out
}

func fieldOf(fa *ssa.FieldAddr) string {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st.Field(fa.Field).Name()
}

// fieldName is the field a value was loaded from.
func fieldName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa)
		}
	case *ssa.Field:
		return v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
	}
	return ""
}

func isTable(t types.Type) bool {
	if isMap(t) {
		return true
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "IMap"
}

// readers: the operations that may answer from memory.
var readers = map[string][]string{
	"v2":         {"RoleDAG.ResolveChildRoles", "RoleDAG.ResolvePermissions"},
	"permission": {"RoleManager.GetImplicitTenants", "RoleManager.TenantChildren"},
}

// unfilled: the tables to be taken empty when the answers of the reader are examined with
// its memory holding anything. A table belongs to the reader that returns what is in it;
// one that belongs to no reader may hold anything in every examination.
func (w *World) unfilled(tables map[string]bool, reader string) map[string]bool {
	pkg := strings.SplitN(reader, ".", 2)[0]
	returns := func(name string) types.Type {
		if f := w.fn(name); f != nil && f.Signature.Results().Len() > 0 {
			return f.Signature.Results().At(0).Type()
		}
		return nil
	}
	mine := returns(reader)
	out := map[string]bool{}
	for t := range tables {
		v := w.tableValue(pkg, t)
		if v == nil || mine == nil || types.Identical(v, mine) {
			continue
		}
		for _, r := range readers[pkg] {
			if o := returns(pkg + "." + r); o != nil && types.Identical(v, o) {
				out[t] = true
			}
		}
	}
	return out
}

// tableValue is what the table of that name holds.
func (w *World) tableValue(pkg, field string) types.Type {
	p := w.tpkgs[pkg]
	for _, name := range p.Types.Scope().Names() {
		tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() != field || !isTable(f.Type()) {
				continue
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok {
				return m.Elem()
			}
			if n, ok := f.Type().(*types.Named); ok && n.TypeArgs().Len() == 2 {
				return n.TypeArgs().At(1)
			}
		}
	}
	return nil
}
