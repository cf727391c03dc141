// Package dch checks generated DeepCopy methods (C19): the deepcopy generator of the current tree is run on the packages in dctypes, and the
// code it generates is executed symbolically.
package dch

import (
	"fmt"
	"reflect"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"

	"sigs.k8s.io/controller-tools/pkg/zzverif/dctypes"
	"sigs.k8s.io/controller-tools/pkg/zzverif/dctypes/ext"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// fill gives two values of the same type the same arbitrary content.
func fill(a, b reflect.Value, id string, depth int) {
	switch a.Kind() {
	case reflect.Int:
		n := sym.Int64(id + "#")
		a.SetInt(n)
		b.SetInt(n)
	case reflect.Bool:
		n := sym.Bool(id + "?")
		a.SetBool(n)
		b.SetBool(n)
	case reflect.String:
		s := sym.StringOf(id+"$", 1, 1, "abcdefghijklmnopqrstuvwxyz")
		a.SetString(s)
		b.SetString(s)
	case reflect.Ptr:
		if depth > 4 || sym.Choose(id+".ptr", 2) == 0 {
			return
		}
		a.Set(reflect.New(a.Type().Elem()))
		b.Set(reflect.New(a.Type().Elem()))
		fill(a.Elem(), b.Elem(), id+".", depth+1)
	case reflect.Slice:
		n := length(id, depth)
		if n < 0 {
			return
		}
		a.Set(reflect.MakeSlice(a.Type(), n, n+1))
		b.Set(reflect.MakeSlice(a.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(a.Index(i), b.Index(i), fmt.Sprint(id, i), depth+1)
		}
	case reflect.Map:
		n := length(id, depth)
		if n < 0 {
			return
		}
		a.Set(reflect.MakeMap(a.Type()))
		b.Set(reflect.MakeMap(a.Type()))
		for i := 0; i < n; i++ {
			k := key(a.Type().Key(), i)
			x, y := reflect.New(a.Type().Elem()).Elem(), reflect.New(a.Type().Elem()).Elem()
			if t := x.Type(); t == reflect.TypeOf(&dctypes.MVal{}) || t == reflect.TypeOf(&dctypes.MMap{}) { // nil is the matter of H_C19_nil_map_value
				x.Set(reflect.New(t.Elem()))
				y.Set(reflect.New(t.Elem()))
				fill(x.Elem(), y.Elem(), fmt.Sprint(id, i), depth+1)
			} else {
				fill(x, y, fmt.Sprint(id, i), depth+1)
			}
			a.SetMapIndex(k, x)
			b.SetMapIndex(k, y)
		}
	case reflect.Struct:
		if u, ok := a.Addr().Interface().(*dctypes.Unexp); ok {
			w := b.Addr().Interface().(*dctypes.Unexp)
			n := sym.Choose(id+".n", 3)
			u.Fill(n, func(f string) *int { return number(id + f) })
			w.Fill(n, func(f string) *int { return number(id + f) })
			return
		}
		if _, ok := a.Addr().Interface().(*metav1.TypeMeta); ok {
			return
		}
		many := a.NumField() > 3
		for i := 0; i < a.NumField(); i++ {
			d := depth
			if many && depth < 3 {
				d = 3
			}
			fill(a.Field(i), b.Field(i), id+"."+a.Type().Field(i).Name, d)
		}
	default:
		panic("kind " + a.Kind().String())
	}
}

var numbers map[string]int64

// number is a pointer to an arbitrary number, the same one for the same name.
func number(id string) *int {
	n, ok := numbers[id]
	if !ok {
		n = sym.Int64(id)
		numbers[id] = n
	}
	x := int(n)
	return &x
}

// length is -1 for nil.
func length(id string, depth int) int {
	switch {
	case depth == 0:
		return sym.Choose(id+".len", 4) - 1
	case depth == 1:
		return sym.Choose(id+".len", 3) - 1
	case depth == 2 || depth < 4 && sym.Tier() > 0:
		return sym.Choose(id+".len", 2)*2 - 1
	case depth == 3:
		return sym.Choose(id+".len", 2) - 1
	}
	return -1
}

func key(t reflect.Type, i int) reflect.Value {
	k := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int:
		k.SetInt(int64(i))
	case reflect.String:
		k.SetString(string(rune('a' + i)))
	case reflect.Bool:
		k.SetBool(i > 0)
	case reflect.Struct:
		k.Field(0).SetInt(int64(i))
	}
	return k
}

// addresses lists the memory that can be reached and changed through a value.
func addresses(v reflect.Value, into map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			into[v.Pointer()] = true
			addresses(v.Elem(), into)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			into[v.Pointer()] = true
		}
		for i := 0; i < v.Len(); i++ {
			addresses(v.Index(i), into)
		}
	case reflect.Map:
		if !v.IsNil() {
			into[v.Pointer()] = true
		}
		for _, k := range v.MapKeys() {
			addresses(v.MapIndex(k), into)
		}
	case reflect.Struct:
		if v.CanAddr() {
			if u, ok := v.Addr().Interface().(*dctypes.Unexp); ok {
				for _, p := range u.All() {
					addresses(reflect.ValueOf(p), into)
				}
				addresses(reflect.ValueOf(u.Map()), into)
				return
			}
		} else if u, ok := v.Interface().(dctypes.Unexp); ok {
			addresses(reflect.ValueOf(&u).Elem(), into)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			addresses(v.Field(i), into)
		}
	}
}

func disjoint(a, b reflect.Value) bool {
	in, out := map[uintptr]bool{}, map[uintptr]bool{}
	addresses(a, in)
	addresses(b, out)
	for p := range out {
		if in[p] {
			return false
		}
	}
	return true
}

// manual counts the values of types with their own methods that a copy has to go through.
func manual(v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n += manual(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += manual(v.Index(i))
		}
	case reflect.Map:
		if v.Type() == reflect.TypeOf(dctypes.MMap{}) {
			if v.IsNil() { // whether the method is called on nil is all the same
				return 0
			}
			return 1
		}
		for _, k := range v.MapKeys() {
			n += manual(v.MapIndex(k))
		}
	case reflect.Struct:
		switch v.Interface().(type) {
		case dctypes.MVal, dctypes.MPtr, dctypes.MInto, ext.Manual:
			return 1
		case dctypes.Unexp:
			return 0
		}
		for i := 0; i < v.NumField(); i++ {
			n += manual(v.Field(i))
		}
	}
	return n
}

// H_C19_copy: each of about 430 types, which combine up to 3 pointers, slices and maps over basic, named, embedded, recursive and external types
// and types with hand-written methods (of 5 forms), with arbitrary content: every pointer nil or not, every slice or map nil, empty or with
// elements (up to 2 outside, 1 inside; nothing below 4 levels), every number and letter arbitrary.
func H_C19_copy() {
	numbers = map[string]int64{}
	mk := dctypes.All[sym.Choose("type", len(dctypes.All))]
	a, b := reflect.ValueOf(mk()), reflect.ValueOf(mk())
	fill(a.Elem(), b.Elem(), "v", 0)
	name := a.Elem().Type().Name()
	asValue := false
	switch a.Elem().Kind() {
	case reflect.Slice, reflect.Map:
		asValue = true
	}
	if _, ok := a.Interface().(*dctypes.MVal); ok {
		asValue = true
	}
	dc := a.MethodByName("DeepCopy")
	sym.Assert(dc.IsValid(), name+" has no DeepCopy")
	want := manual(a.Elem())
	dctypes.Used, ext.Used = 0, 0
	c := dc.Call(nil)[0]
	cv := c
	if !asValue {
		sym.Assert(!c.IsNil(), "DeepCopy of something is nil: "+name)
		cv = c.Elem()
	} else {
		p := reflect.New(cv.Type())
		p.Elem().Set(cv)
		cv = p.Elem()
	}
	used := dctypes.Used + ext.Used
	sym.Assert(used >= want, "the copy does not go through the type's own methods: "+name)
	sym.Assert(sym.DeepEqual(a.Interface(), b.Interface()), "DeepCopy changes the original: "+name)
	sym.Assert(sym.DeepEqual(cv.Addr().Interface(), b.Interface()), "the copy differs from the original: "+name)
	sym.Assert(disjoint(a.Elem(), cv), "the copy shares memory with the original: "+name)
	sym.Reach("copied")
	if asValue && a.Elem().Kind() != reflect.Struct && a.Elem().IsNil() {
		return // "in must be non-nil"
	}
	// into something that shares memory with the original
	out := reflect.New(a.Elem().Type())
	out.Elem().Set(a.Elem())
	a.MethodByName("DeepCopyInto").Call([]reflect.Value{out})
	sym.Assert(sym.DeepEqual(a.Interface(), b.Interface()), "DeepCopyInto changes the original: "+name)
	sym.Assert(sym.DeepEqual(out.Interface(), b.Interface()), "what DeepCopyInto writes differs from the original: "+name)
	sym.Assert(disjoint(a.Elem(), out.Elem()), "what DeepCopyInto writes shares memory with the original: "+name)
}

// H_C19_nil: DeepCopy of nil is nil, for each type; DeepCopyObject as well.
func H_C19_nil() {
	v := reflect.ValueOf(dctypes.All[sym.Choose("type", len(dctypes.All))]())
	switch v.Elem().Kind() {
	case reflect.Slice, reflect.Map:
		if v.Elem().Type() == reflect.TypeOf(dctypes.MMap{}) {
			return
		}
		sym.Assert(v.Elem().MethodByName("DeepCopy").Call(nil)[0].IsNil(), "DeepCopy of nil is not nil")
	default:
		switch v.Interface().(type) {
		case *dctypes.MVal, *dctypes.MPtr:
			return // hand-written
		}
		n := reflect.Zero(v.Type())
		sym.Assert(n.MethodByName("DeepCopy").Call(nil)[0].IsNil(), "DeepCopy of nil is not nil")
	}
	sym.Reach("nil")
}

// H_C19_nil_map_value: a map with nil pointers, to a type whose hand-written methods have value receivers.
func H_C19_nil_map_value() {
	v := dctypes.MapPtrVal{F: map[string]*dctypes.MVal{"a": nil}}
	x := sym.Int("x")
	if sym.Bool("other") {
		v.F["b"] = &dctypes.MVal{P: &x}
	}
	c := v.DeepCopy()
	sym.Assert(sym.DeepEqual(&v, c), "the copy differs from the original")
	sym.Reach("copied")
}

// H_C19_object: types marked as objects also copy as runtime.Object.
func H_C19_object() {
	var r *dctypes.Root
	var l *dctypes.RootList
	object := func(x any) runtime.Object {
		o, ok := x.(interface{ DeepCopyObject() runtime.Object })
		sym.Assert(ok, "a type marked as object has no DeepCopyObject")
		return o.DeepCopyObject()
	}
	_, ok := any(&dctypes.Many{}).(interface{ DeepCopyObject() runtime.Object })
	sym.Assert(!ok, "a type not marked as object has DeepCopyObject")
	sym.Assert(object(r) == nil && object(l) == nil, "DeepCopyObject of nil is not nil")
	x := sym.Int("x")
	r = &dctypes.Root{P: &x}
	l = &dctypes.RootList{Items: []dctypes.Root{*r}}
	var o, p runtime.Object = object(r), object(l)
	r2, ok := o.(*dctypes.Root)
	sym.Assert(ok && r2 != r && r2.P != r.P && *r2.P == x, "DeepCopyObject does not copy")
	l2, ok := p.(*dctypes.RootList)
	sym.Assert(ok && len(l2.Items) == 1 && l2.Items[0].P != &x && *l2.Items[0].P == x, "DeepCopyObject does not copy")
	sym.Reach("object")
}
