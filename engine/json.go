package main

// encoding/json over runtime values: the walk follows the types and tags, text
// goes through the interpreted helpers of the zzjson harness package.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

type jsonField struct {
	name      string
	index     int
	omitEmpty bool
	typ       types.Type
}

func jsonFields(s *types.Struct) (r []jsonField) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if f.Embedded() {
			panic(unsupported{"json: embedded field"})
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jsonField{name: f.Name(), index: i, typ: f.Type()}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o != "omitempty" {
				panic(unsupported{"json: option " + o})
			}
			jf.omitEmpty = true
		}
		r = append(r, jf)
	}
	// of fields with one name the tagged one wins, otherwise none
	count := map[string]int{}
	for _, f := range r {
		count[f.name]++
	}
	k := 0
	for _, f := range r {
		if count[f.name] > 1 {
			panic(unsupported{"json: repeated field name"})
		}
		r[k] = f
		k++
	}
	return r[:k]
}

type jsonWriter struct {
	m          *Machine
	fr         *frame
	out        []Value
	prefix, in string
	indent     bool
	html       bool
}

func (w *jsonWriter) text(s string) {
	for i := 0; i < len(s); i++ {
		w.out = append(w.out, mk(int64(s[i])))
	}
}

func (w *jsonWriter) nl(depth int) {
	if w.indent {
		w.text("\n" + w.prefix + strings.Repeat(w.in, depth))
	}
}

func (w *jsonWriter) str(v Value) {
	h := mk(0)
	if w.html {
		h = mk(1)
	}
	s := w.m.callHelper(w.fr, "zzjson", "Quote", v, h)
	w.out = append(w.out, strBytes(s)...)
}

func (m *Machine) callHelper(fr *frame, pkg, name string, args ...Value) Value {
	p := m.prog.ImportedPackage(strings.TrimSuffix(m.symPkg, "zzsym") + pkg)
	if p == nil {
		panic(unsupported{"helper package " + pkg + " is not loaded"})
	}
	m.initPkg(p)
	return m.call(m.getFunc(p.Func(name)), args, nil, fr)
}

func jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case int64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case Slice:
		return x.len == 0
	case *Value:
		return x == nil
	case *MapV:
		return x == nil || x.n == 0
	case Iface:
		return x.t == nil
	}
	return false
}

func (w *jsonWriter) value(v Value, t types.Type, depth int) {
	for _, meth := range []string{"MarshalJSON", "MarshalText"} {
		if w.m.methodByName(w.m.rt(t), meth) != nil || w.m.methodByName(w.m.rt(types.NewPointer(t)), meth) != nil {
			panic(unsupported{"json: type with its own " + meth})
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch ti.k {
		case kBool:
			w.text(fmt.Sprint(w.m.truth(v)))
		case kInt:
			n := w.m.concInt(v)
			if ti.signed {
				w.text(fmt.Sprint(n))
			} else {
				w.text(fmt.Sprint(uint64(n)))
			}
		case kString:
			w.str(v)
		default:
			panic(unsupported{"json: " + t.String()})
		}
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			w.text("null")
			return
		}
		w.value(*p, u.Elem(), depth)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			w.text("null")
			return
		}
		w.value(i.v, i.t.t, depth)
	case *types.Slice:
		s := v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			panic(unsupported{"json: byte slice"})
		}
		if s.a == nil && s.cap == 0 && s.len == 0 {
			w.text("null")
			return
		}
		w.list(s.vals(), u.Elem(), depth)
	case *types.Array:
		w.list(v.(*ArrayV).e, u.Elem(), depth)
	case *types.Struct:
		w.text("{")
		n := 0
		for _, f := range jsonFields(u) {
			fv := v.(*StructV).f[f.index]
			if t, ok := fv.(*Term); ok && f.omitEmpty {
				fv = mk(w.m.concInt(t))
			}
			if f.omitEmpty && jsonEmpty(fv) {
				continue
			}
			if n > 0 {
				w.text(",")
			}
			n++
			w.nl(depth + 1)
			w.text(`"` + f.name + `":`)
			if w.indent {
				w.text(" ")
			}
			w.value(fv, f.typ, depth+1)
		}
		if n > 0 {
			w.nl(depth)
		}
		w.text("}")
	default:
		panic(unsupported{"json: " + t.String()})
	}
}

func (w *jsonWriter) list(vs []Value, t types.Type, depth int) {
	w.text("[")
	for i, x := range vs {
		if i > 0 {
			w.text(",")
		}
		w.nl(depth + 1)
		w.value(x, t, depth+1)
	}
	if len(vs) > 0 {
		w.nl(depth)
	}
	w.text("]")
}

// jsonRead stores a parsed value in a cell of type t; false means a mismatch.
// The node is zzjson.Node{Kind, Text, Keys, Elems}.
func (m *Machine) jsonRead(fr *frame, node Value, cell *Value, t types.Type) bool {
	f := (*node.(*Value)).(*StructV).f
	k := m.concInt(f[0])
	if k == 'n' { // null
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			m.store(cell, m.zero(t))
		}
		return true
	}
	if m.methodByName(m.rt(types.NewPointer(t)), "UnmarshalJSON") != nil {
		panic(unsupported{"json: type with its own UnmarshalJSON"})
	}
	elems := f[3].(Slice).vals()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch {
		case ti.k == kBool && (k == 't' || k == 'f'):
			m.store(cell, k == 't')
			return true
		case ti.k == kString && k == '"':
			m.store(cell, f[1])
			return true
		case ti.k == kInt && k == '0':
			var n int64
			var u uint64
			s := m.concStr(f[1])
			if ti.signed {
				if _, e := fmt.Sscan(s, &n); e != nil || fmt.Sprint(n) != s || ti.norm(n) != n {
					return false
				}
			} else {
				if _, e := fmt.Sscan(s, &u); e != nil || fmt.Sprint(u) != s || uint64(ti.norm(int64(u))) != u {
					return false
				}
				n = int64(u)
			}
			m.store(cell, mk(n))
			return true
		}
		return false
	case *types.Pointer:
		c := new(Value)
		*c = m.zero(u.Elem())
		m.store(cell, c)
		return m.jsonRead(fr, node, c, u.Elem())
	case *types.Slice:
		if k != '[' {
			return false
		}
		a := make([]Value, len(elems))
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		s := sliceOf(a)
		if s.a == nil {
			s.a = &ArrayV{}
		}
		m.store(cell, s)
		ok := true
		for i, e := range elems {
			ok = m.jsonRead(fr, e, &s.a.e[s.off+i], u.Elem()) && ok
		}
		return ok
	case *types.Struct:
		if k != '{' {
			return false
		}
		ok := true
		fs := jsonFields(u)
		for i, kv := range f[2].(Slice).vals() {
			key := m.concStr(kv)
			var hit *jsonField
			for j := range fs {
				if fs[j].name == key || hit == nil && strings.EqualFold(fs[j].name, key) {
					hit = &fs[j]
				}
			}
			if hit != nil {
				ok = m.jsonRead(fr, elems[i], &(*cell).(*StructV).f[hit.index], hit.typ) && ok
			}
		}
		return ok
	}
	panic(unsupported{"json: decoding " + t.String()})
}

type jsonEncoder struct {
	w          Value
	prefix, in string
	indent     bool
	html       bool
}

func init() {
	bytesOf := func(w *jsonWriter) Value { return Tuple{sliceOf(w.out), Iface{}} }
	top := func(w *jsonWriter, v Value) {
		i := v.(Iface)
		if i.t == nil {
			w.text("null")
			return
		}
		w.value(i.v, i.t.t, 0)
	}
	intrinsics["encoding/json.Marshal"] = func(m *Machine, fr *frame, a []Value) Value {
		w := &jsonWriter{m: m, fr: fr, html: true}
		top(w, a[0])
		return bytesOf(w)
	}
	intrinsics["encoding/json.MarshalIndent"] = func(m *Machine, fr *frame, a []Value) Value {
		w := &jsonWriter{m: m, fr: fr, html: true, indent: true, prefix: m.concStr(a[1]), in: m.concStr(a[2])}
		top(w, a[0])
		return bytesOf(w)
	}
	intrinsics["encoding/json.NewEncoder"] = func(m *Machine, fr *frame, a []Value) Value {
		return native(&jsonEncoder{w: a[0], html: true})
	}
	intrinsics["(*encoding/json.Encoder).SetIndent"] = func(m *Machine, fr *frame, a []Value) Value {
		e := a[0].(*Native).v.(*jsonEncoder)
		e.prefix, e.in, e.indent = m.concStr(a[1]), m.concStr(a[2]), true
		return nil
	}
	intrinsics["(*encoding/json.Encoder).SetEscapeHTML"] = func(m *Machine, fr *frame, a []Value) Value {
		a[0].(*Native).v.(*jsonEncoder).html = m.truth(a[1])
		return nil
	}
	intrinsics["(*encoding/json.Encoder).Encode"] = func(m *Machine, fr *frame, a []Value) Value {
		e := a[0].(*Native).v.(*jsonEncoder)
		w := &jsonWriter{m: m, fr: fr, html: e.html, indent: e.indent, prefix: e.prefix, in: e.in}
		top(w, a[1])
		w.text("\n")
		r := m.writeTo(fr, e.w, mkStr(w.out))
		if t, ok := r.(Tuple); ok {
			return t[1]
		}
		return Iface{}
	}
	intrinsics["encoding/json.Unmarshal"] = func(m *Machine, fr *frame, a []Value) Value {
		t := m.callHelper(fr, "zzjson", "Parse", mkStr(append([]Value(nil), a[0].(Slice).vals()...))).(Tuple)
		if !m.truth(t[1]) {
			return m.errIface("invalid JSON")
		}
		tgt := a[1].(Iface)
		pt, ok := tgt.t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"json: Unmarshal to a non-pointer"})
		}
		if !m.jsonRead(fr, t[0], m.ptr(tgt.v), pt.Elem()) {
			return m.errIface("JSON value of a wrong type")
		}
		return Iface{}
	}
}
