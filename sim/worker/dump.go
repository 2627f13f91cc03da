package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"vdst/scen"
)

func hash(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:10])
}

type dumper struct {
	sb    strings.Builder
	seen  map[ptrKey]int
	names []string
}

type ptrKey struct {
	t reflect.Type
	p uintptr
}

// dump writes every exported field reachable from prog; pointers are numbered in order of
// first visit, declaration maps are shown by looking up every name of interest.
func dump(prog *parser.Program, names []string) string {
	d := &dumper{seen: map[ptrKey]int{}, names: names}
	d.value(reflect.ValueOf(prog), 0)
	return d.sb.String()
}

func (d *dumper) value(v reflect.Value, depth int) {
	sb := &d.sb
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		d.value(v.Elem(), depth)
		return
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		k := ptrKey{v.Type(), v.Pointer()}
		if n, ok := d.seen[k]; ok {
			sb.WriteString("@" + strconv.Itoa(n))
			return
		}
		d.seen[k] = len(d.seen) + 1
		sb.WriteString("#" + strconv.Itoa(len(d.seen)) + " ")
		if v.CanInterface() {
			if dm, ok := v.Interface().(astcore.DeclMap); ok {
				d.declMap(dm, depth)
				return
			}
		}
		d.value(v.Elem(), depth)
	case reflect.Map:
		if v.CanInterface() {
			if dm, ok := v.Interface().(astcore.DeclMap); ok {
				d.declMap(dm, depth)
				return
			}
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		sb.WriteString(v.Type().String() + "{")
		for _, k := range keys {
			sb.WriteString(fmt.Sprint(k) + ": ")
			d.value(v.MapIndex(k), depth+1)
			sb.WriteString("\n")
		}
		sb.WriteString("}")
	case reflect.Struct:
		t := v.Type()
		sb.WriteString(t.String() + "{\n")
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			fv := v.Field(i)
			if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map) && fv.IsNil() {
				continue
			}
			for k := 0; k <= depth && k < 40; k++ {
				sb.WriteByte(' ')
			}
			sb.WriteString(f.Name + ": ")
			d.value(fv, depth+1)
			sb.WriteString("\n")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString(v.Type().String() + "[\n")
		for i := 0; i < v.Len(); i++ {
			for k := 0; k <= depth && k < 40; k++ {
				sb.WriteByte(' ')
			}
			d.value(v.Index(i), depth+1)
			sb.WriteString("\n")
		}
		sb.WriteString("]")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		sb.WriteString(v.Type().String())
	}
}

func (d *dumper) declMap(dm astcore.DeclMap, depth int) {
	d.sb.WriteString("declmap{\n")
	for _, n := range d.names {
		if decl := dm.Get(n); decl != nil {
			d.sb.WriteString(n + " => ")
			d.value(reflect.ValueOf(decl), depth+1)
			d.sb.WriteString("\n")
		}
	}
	d.sb.WriteString("}")
}

// ---- extraction of references

type extractor struct {
	ext    *scen.Ext
	mod    string
	seen   map[ptrKey]bool
	owner  map[*astcore.Ident]string
	refs   []pendRef
	unitIx map[*ast.Unit]int
	types  []*ast.TypeDecl
}

type pendRef struct {
	r    scen.Ref
	decl *astcore.Decl
}

var skipField = map[string]bool{"Ref": true, "Unit": true, "DeclMap": true, "Parent": true, "Actual": true}

func extract(prog *parser.Program, names []string) *scen.Ext {
	x := &extractor{ext: &scen.Ext{}, owner: map[*astcore.Ident]string{}, unitIx: map[*ast.Unit]int{}}
	x.ext.Prog = prog.Program.Path
	for i, u := range prog.Units {
		if u != nil {
			x.unitIx[u] = i
		}
	}
	x.module(prog.Program.Path, reflect.ValueOf(prog.Program))
	if prog.Program.ProgramBlock != nil {
		x.links(prog.Program.Path, "uses", prog.Program.ProgramBlock.UsesClause)
	}
	for _, u := range prog.Units {
		if u == nil {
			continue
		}
		x.module(u.Path, reflect.ValueOf(u))
		if u.InterfaceSection != nil {
			x.links(u.Path, "intf", u.InterfaceSection.UsesClause)
		}
		if u.ImplementationSection != nil {
			x.links(u.Path, "impl", u.ImplementationSection.UsesClause)
		}
	}
	for _, p := range x.refs {
		p.r.To, p.r.Node = x.target(p.decl)
		x.ext.Refs = append(x.ext.Refs, p.r)
	}
	x.classes()
	for _, u := range prog.Units {
		info := scen.UnitInfo{}
		if u != nil {
			info.Name, info.Path = u.Ident.Name, u.Path
			info.Decls = map[string]string{}
			if u.DeclMap != nil {
				for _, n := range names {
					if d := u.DeclMap.Get(n); d != nil {
						info.Decls[n], _ = x.target(d)
					}
				}
			}
		}
		x.ext.Units = append(x.ext.Units, info)
	}
	return x.ext
}

func (x *extractor) links(mod, section string, uses ast.UsesClause) {
	for _, it := range uses {
		l := scen.Link{Mod: mod, Section: section, Name: it.Ident.Name, Unit: -1}
		if it.Unit != nil {
			if i, ok := x.unitIx[it.Unit]; ok {
				l.Unit = i
			} else {
				l.Unit = -2
			}
		}
		x.ext.Links = append(x.ext.Links, l)
	}
}

func (x *extractor) target(d *astcore.Decl) (string, string) {
	if d == nil {
		return "", ""
	}
	node := fmt.Sprintf("%T", d.Node)
	if d.Ident == nil {
		return "?noident", node
	}
	if d.Ident.Location != nil && d.Ident.Location.Path == "embedded" {
		return "embedded:" + strings.ToLower(d.Ident.Name), node
	}
	if o, ok := x.owner[d.Ident]; ok {
		return o, node
	}
	if d.Ident.Location != nil && d.Ident.Location.Start != nil {
		return "?" + d.Ident.Location.Path + "#" + strconv.Itoa(d.Ident.Location.Start.Index), node
	}
	return "?" + d.Ident.Name, node
}

func (x *extractor) module(path string, v reflect.Value) {
	x.mod = path
	x.seen = map[ptrKey]bool{}
	x.walk(v)
}

func identIndex(i *astcore.Ident) int {
	if i == nil || i.Location == nil || i.Location.Start == nil {
		return -1
	}
	return i.Location.Start.Index
}

func (x *extractor) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			x.walk(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := ptrKey{v.Type(), v.Pointer()}
		if x.seen[k] {
			return
		}
		x.seen[k] = true
		if v.CanInterface() {
			switch n := v.Interface().(type) {
			case *astcore.Ident:
				if _, ok := x.owner[n]; !ok {
					x.owner[n] = x.mod + "#" + strconv.Itoa(identIndex(n))
				}
				return
			case *astcore.IdentRef:
				if n.Ident != nil {
					x.refs = append(x.refs, pendRef{scen.Ref{Mod: x.mod, Index: identIndex(n.Ident), Name: n.Ident.Name, Kind: "ident"}, n.Ref})
				}
			case *ast.TypeDecl:
				x.types = append(x.types, n)
			case *ast.TypeId:
				if n.Ident != nil {
					x.refs = append(x.refs, pendRef{scen.Ref{Mod: x.mod, Index: identIndex(n.Ident), Name: n.Ident.Name, Kind: "type"}, n.Ref})
				}
			}
		}
		x.walk(v.Elem())
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || skipField[f.Name] {
				continue
			}
			x.walk(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			x.walk(v.Index(i))
		}
	}
}

var memberNames = strings.Fields("fa FQ f1 F2 f3 f4 f5 f6 f1x f2X f3x f4x f5x f6x g1 G2 g3 g4 g5 g6 g7 g8 g9 pz1 PZ2 pz3 pw4 pw5 pw6 nomember")

func (x *extractor) classes() {
	at := map[*ast.CustomClassType]string{}
	for _, t := range x.types {
		if c, ok := t.Type.(*ast.CustomClassType); ok {
			at[c] = x.owner[t.Ident]
		}
	}
	for _, t := range x.types {
		c, ok := t.Type.(*ast.CustomClassType)
		if !ok {
			continue
		}
		r := scen.Class{At: at[c], Find: map[string][3]string{}}
		if p := c.GetParentClass(); p != nil {
			if r.Parent = at[p]; r.Parent == "" {
				r.Parent = "?"
			}
		}
		for _, n := range memberNames {
			a, _ := x.target(c.FindMemberDecl(n, true))
			b, _ := x.target(c.FindMemberDecl(n, false))
			d := ""
			if p := c.FindProperty(n, true); p != nil {
				d = x.owner[p.Ident]
			}
			if a != "" || b != "" || d != "" {
				r.Find[strings.ToLower(n)] = [3]string{a, b, d}
			}
		}
		for _, sec := range c.Members {
			for _, p := range sec.ClassPropertyList {
				q := scen.Property{At: x.owner[p.Ident], Name: p.Ident.Name, Own: x.specs(p), Comp: x.specs(p.ComputedProperty()), To: map[string]string{}}
				if p.Read != nil {
					q.To["read"], _ = x.target(p.Read.Ref)
				}
				if p.Write != nil {
					q.To["write"], _ = x.target(p.Write.Ref)
				}
				if p.Stored != nil && p.Stored.IdentRef != nil {
					q.To["stored"], _ = x.target(p.Stored.IdentRef.Ref)
				}
				r.Props = append(r.Props, q)
			}
		}
		x.ext.Classes = append(x.ext.Classes, r)
	}
}

func (x *extractor) specs(p *ast.ClassProperty) map[string]string {
	r := map[string]string{}
	if p.Interface != nil && p.Interface.Type != nil {
		r["type"] = x.owner[p.Interface.Type.Ident]
	}
	text := func(v interface{}) string {
		d := &dumper{seen: map[ptrKey]int{}}
		d.value(reflect.ValueOf(v), 0)
		return hash(d.sb.String())
	}
	if p.Index != nil {
		r["index"] = text(p.Index)
	}
	if p.Read != nil {
		r["read"] = x.owner[p.Read.Ident]
	}
	if p.Write != nil {
		r["write"] = x.owner[p.Write.Ident]
	}
	if p.Stored != nil {
		if p.Stored.IdentRef != nil {
			r["stored"] = x.owner[p.Stored.IdentRef.Ident]
		} else if p.Stored.Constant != nil {
			r["stored"] = fmt.Sprint(*p.Stored.Constant)
		}
	}
	if p.Default != nil {
		r["default"] = text(p.Default)
	}
	return r
}
