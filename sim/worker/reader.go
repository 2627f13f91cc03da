package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// readTree uses the read-only API of a returned tree the way a client does and returns every
// answer. variant only changes the order of the questions.
func readTree(prog *parser.Program, variant uint64, names []string) string {
	parts := []func(*strings.Builder){
		func(sb *strings.Builder) { readWalk(sb, prog) },
		func(sb *strings.Builder) { readMaps(sb, prog, names) },
		func(sb *strings.Builder) { readTypes(sb, prog, names) },
		func(sb *strings.Builder) { readUses(sb, prog, names) },
		func(sb *strings.Builder) { readAll(sb, prog) },
	}
	out := make([]string, len(parts))
	for i := range parts {
		k := (i + int(variant)) % len(parts)
		var sb strings.Builder
		func() {
			defer func() {
				if v := recover(); v != nil {
					sb.WriteString(fmt.Sprint("PANIC ", v))
				}
			}()
			parts[k](&sb)
		}()
		out[k] = sb.String()
	}
	return strings.Join(out, "\n----\n")
}

func modules(prog *parser.Program) []astcore.Node {
	r := []astcore.Node{prog.Program}
	for _, u := range prog.Units {
		r = append(r, u)
	}
	return r
}

func id(i *astcore.Ident) string {
	if i == nil {
		return "-"
	}
	return fmt.Sprintf("%s@%d", i.Name, identIndex(i))
}

func readWalk(sb *strings.Builder, prog *parser.Program) {
	for _, m := range modules(prog) {
		n := 0
		func() {
			defer func() {
				if v := recover(); v != nil {
					fmt.Fprintf(sb, "walk panic after %d: %v\n", n, v)
				}
			}()
			astcore.WalkDown(m, func(x astcore.Node) error {
				n++
				switch v := x.(type) {
				case *astcore.Ident:
					fmt.Fprintf(sb, "%s ", id(v))
				case *astcore.IdentRef:
					fmt.Fprintf(sb, "%s ", id(v.Ident))
					if v.Ref != nil {
						fmt.Fprintf(sb, "->%s ", id(v.Ref.Ident))
					}
				default:
					fmt.Fprintf(sb, "%T ", x)
				}
				return nil
			})
		}()
		fmt.Fprintf(sb, "%d\n", n)
	}
}

func readMaps(sb *strings.Builder, prog *parser.Program, names []string) {
	maps := []astcore.DeclMap{prog.Program.DeclMap}
	for _, u := range prog.Units {
		maps = append(maps, u.DeclMap)
	}
	for i, m := range maps {
		if m == nil || reflect.ValueOf(m).IsNil() {
			continue
		}
		for _, n := range names {
			if d := m.Get(strings.ToUpper(n)); d != nil {
				fmt.Fprintf(sb, "%d %s=%s ", i, n, id(d.Ident))
			}
		}
	}
}

func preds(x interface{}) string {
	s := ""
	call := func(n string, f func() bool) {
		defer func() {
			if v := recover(); v != nil {
				s += n + "!"
			}
		}()
		if f() {
			s += n
		}
	}
	if v, ok := x.(interface{ IsSimpleType() bool }); ok {
		call("S", v.IsSimpleType)
	}
	if v, ok := x.(interface{ IsOrdinalType() bool }); ok {
		call("O", v.IsOrdinalType)
	}
	if v, ok := x.(interface{ IsRealType() bool }); ok {
		call("R", v.IsRealType)
	}
	if v, ok := x.(interface{ IsOrdIdent() bool }); ok {
		call("I", v.IsOrdIdent)
	}
	if v, ok := x.(interface{ IsStringType() bool }); ok {
		call("T", v.IsStringType)
	}
	if v, ok := x.(interface{ IsPointerType() bool }); ok {
		call("P", v.IsPointerType)
	}
	if v, ok := x.(interface{ IsVariantType() bool }); ok {
		call("V", v.IsVariantType)
	}
	if v, ok := x.(interface{ IsClassType() bool }); ok {
		call("C", v.IsClassType)
	}
	return s
}

// collect gathers nodes by reflection: it reaches what Children does not.
type collector struct {
	seen    map[ptrKey]bool
	classes []*ast.CustomClassType
	types   []*ast.TypeId
	props   []*ast.ClassProperty
	lists   []astcore.IdentList
	all     bool
	nodes   []reflect.Value // with all: everything which has methods
}

func (c *collector) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			c.walk(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := ptrKey{v.Type(), v.Pointer()}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		if c.all && v.NumMethod() > 0 && v.CanInterface() {
			c.nodes = append(c.nodes, v)
		}
		if v.CanInterface() {
			switch n := v.Interface().(type) {
			case *ast.CustomClassType:
				c.classes = append(c.classes, n)
			case *ast.TypeId:
				c.types = append(c.types, n)
			case *ast.ClassProperty:
				c.props = append(c.props, n)
			}
		}
		c.walk(v.Elem())
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" && !skipField[t.Field(i).Name] {
				c.walk(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		if c.all && v.NumMethod() > 0 && v.CanInterface() && v.Len() > 0 {
			c.nodes = append(c.nodes, v)
		}
		if v.CanInterface() {
			if l, ok := v.Interface().(astcore.IdentList); ok && len(l) > 0 {
				c.lists = append(c.lists, l)
			}
		}
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
		}
	}
}

func readTypes(sb *strings.Builder, prog *parser.Program, names []string) {
	c := &collector{seen: map[ptrKey]bool{}}
	for _, m := range modules(prog) {
		c.walk(reflect.ValueOf(m))
	}
	for _, t := range c.types {
		fmt.Fprintf(sb, "%s:%s ", id(t.Ident), preds(t))
	}
	stride := 1 + len(names)*len(c.classes)/1500 // keeps the work in long chains of classes small
	for i, cl := range c.classes {
		fmt.Fprintf(sb, "\nclass %d parent=%v ", i, cl.GetParentClass() != nil)
		for j, n := range names {
			if (i+j)%stride != 0 {
				continue
			}
			if d := cl.FindMemberDecl(n, true); d != nil {
				fmt.Fprintf(sb, "%s=%s ", n, id(d.Ident))
			}
			if d := cl.FindMemberDecl(n, false); d != nil {
				fmt.Fprintf(sb, "pub %s=%s ", n, id(d.Ident))
			}
			if p := cl.FindProperty(n, true); p != nil {
				fmt.Fprintf(sb, "prop %s=%s ", n, id(p.Ident))
			}
		}
	}
	for _, p := range c.props {
		q := p.ComputedProperty()
		fmt.Fprintf(sb, "\n%s ->", id(p.Ident))
		if q.Interface != nil && q.Interface.Type != nil {
			fmt.Fprintf(sb, " type %s", id(q.Interface.Type.Ident))
		}
		if q.Read != nil {
			fmt.Fprintf(sb, " read %s", id(q.Read.Ident))
		}
		if q.Write != nil {
			fmt.Fprintf(sb, " write %s", id(q.Write.Ident))
		}
		fmt.Fprintf(sb, " stored %v default %v idx %v inh %v", q.Stored != nil, q.Default != nil, q.Index != nil, p.InheritsFrom(p.Parent))
	}
	for _, l := range c.lists {
		fmt.Fprintf(sb, "\n%s %s", strings.Join(l.Names(), ","), id(l.Find(l[len(l)-1].Name)))
	}
}

func readUses(sb *strings.Builder, prog *parser.Program, names []string) {
	for _, n := range names {
		if u := prog.Units.ByName(n); u != nil {
			fmt.Fprintf(sb, "%s=>%s ", n, u.Path)
		}
		if prog.Program.ProgramBlock != nil {
			if it := prog.Program.ProgramBlock.UsesClause.Find(n); it != nil {
				fmt.Fprintf(sb, "%s~>%s %s ", n, id(it.Ident), it.EffectivePath())
			}
		}
	}
	if prog.Program.ProgramBlock != nil {
		fmt.Fprintf(sb, "%v ", prog.Program.ProgramBlock.UsesClause.IdentList().Names())
	}
	fmt.Fprintf(sb, "%d %d", len(prog.Units.DeclMaps()), len(prog.Units.Compact()))
}

// readAll calls every exported method without arguments of everything reached by reflection.
func readAll(sb *strings.Builder, prog *parser.Program) {
	c := &collector{seen: map[ptrKey]bool{}, all: true}
	for _, m := range modules(prog) {
		c.walk(reflect.ValueOf(m))
	}
	for _, v := range c.nodes {
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 || strings.HasPrefix(m.Name, "Set") {
				continue
			}
			func() {
				defer func() {
					if recover() != nil {
						fmt.Fprintf(sb, "%s! ", m.Name)
					}
				}()
				answer(sb, v.Method(i).Call(nil)[0])
			}()
		}
		sb.WriteByte('\n')
	}
}

func answer(sb *strings.Builder, v reflect.Value) {
	switch x := v.Interface().(type) {
	case nil:
		sb.WriteString("nil ")
	case bool, string:
		fmt.Fprintf(sb, "%v ", x)
	case *astcore.Ident:
		fmt.Fprintf(sb, "%s ", id(x))
	case astcore.Decls:
		for _, d := range x {
			fmt.Fprintf(sb, "%s=%T ", id(d.Ident), d.Node)
		}
	default:
		fmt.Fprintf(sb, "%T", x)
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if v.Kind() == reflect.Slice {
			fmt.Fprintf(sb, "/%d", v.Len())
			for i := 0; i < v.Len() && i < 4; i++ {
				fmt.Fprintf(sb, ",%T", v.Index(i).Interface())
			}
		}
		sb.WriteByte(' ')
	}
}
