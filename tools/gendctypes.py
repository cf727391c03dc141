#!/usr/bin/env python3
"""Writes the corpus of types for C19 (harness/pkg/zzverif/dctypes/types.go)."""
import itertools, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEAVES = ['int', 'string', 'bool', 'Flat', 'Deep', 'NInt', 'NPtr', 'NMap', 'NSlice', 'NNMap', 'NDeep', 'MVal', 'MPtr', 'MInto', 'MMap', 'Emb', 'Rec', 'ext.Manual', 'ext.Gen', 'Alias', 'Unexp', 'NPDeep', 'NPVal', 'NPPtr', 'AStr', 'ADeep', 'AFlat', 'APtr']
DEEP3 = ['int', 'Deep', 'NMap', 'MVal', 'MPtr']
CONS = {'P': '*%s', 'S': '[]%s', 'M': 'map[string]%s'}
FIXED = '''// Package dctypes holds types for which the deepcopy generator is run when the checks are built, see dch. Written by tools/gendctypes.py.
//
//gosym:generate object
//
// +kubebuilder:object:generate=true
package dctypes

import (
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"sigs.k8s.io/controller-tools/pkg/zzverif/dctypes/ext"
)

type Flat struct {
	A int
	B string
}
type Deep struct {
	A *int
	B []string
	C map[string]string
}
type NInt int
type NPtr *int
type NMap map[string][]int
type NSlice []*int
type NNMap NMap
type NDeep Deep
type Emb struct {
	Deep
	*Flat
	NMap
}
type Rec struct {
	Next *Rec
	Kids []Rec
	Map  map[string]Rec
	Ptrs []*Rec
}
type Alias = []*int
type NPDeep *Deep
type NPVal *MVal
type NPPtr *MPtr
type AStr = string
type ADeep = Deep
type AFlat = Flat
type APtr = *Deep

// Unexp has fields that only code of the package can set, with names that the generated code uses as well.
type Unexp struct {
	in, out, key, val *int
	x               map[string]*int
}

func (u *Unexp) Fill(n int, p func(string) *int) {
	u.in, u.val = p("in"), p("val")
	if n > 0 {
		u.out, u.key = p("out"), p("key")
		u.x = map[string]*int{}
	}
	if n > 1 {
		u.x["k"] = p("x")
	}
}

func (u *Unexp) All() []*int { return []*int{u.in, u.out, u.key, u.val, u.x["k"]} }

func (u *Unexp) Map() map[string]*int { return u.x }

// types with hand-written methods; they note that they were used

var Used int

type MVal struct{ P *int }

func (m MVal) DeepCopy() MVal {
	Used++
	return MVal{clone(m.P)}
}

type MPtr struct{ P *int }

func (m *MPtr) DeepCopy() *MPtr {
	Used++
	if m == nil {
		return nil
	}
	return &MPtr{clone(m.P)}
}

type MInto struct{ P *int }

func (m *MInto) DeepCopyInto(o *MInto) {
	Used++
	o.P = clone(m.P)
}

type MMap map[string]*int

func (m MMap) DeepCopy() MMap {
	Used++
	if m == nil {
		return nil
	}
	o := MMap{}
	for k, v := range m {
		o[k] = clone(v)
	}
	return o
}

func clone(p *int) *int {
	if p == nil {
		return nil
	}
	x := *p
	return &x
}

// +kubebuilder:object:root=true
type Root struct {
	metav1.TypeMeta
	P *int
}

// +kubebuilder:object:root=true
type RootList struct {
	metav1.TypeMeta
	Items []Root
}

type Keys struct {
	A map[int]*int
	B map[NInt][]int
	C map[Flat]*Flat
	D map[bool]bool
	E map[string]map[int]NMap
	F map[AStr]int
	G map[AFlat]bool
}

type Many struct {
	Deep Deep
	Ptr  *Deep
	List []Deep
	Map  map[string]Deep
	Flat Flat
	N    NInt
	M    MVal
	Q    *MPtr
}

type MapPtrVal struct{ F map[string]*MVal }

var _ ext.Gen

'''
def main():
    out, names, seen = [], ['Flat', 'Deep', 'NMap', 'NSlice', 'NNMap', 'NDeep', 'Emb', 'Rec', 'Unexp', 'MVal', 'MPtr', 'MInto', 'MMap', 'Root', 'RootList', 'Keys', 'Many'], set()
    def add(decl, n):
        out.append(decl)
        names.append(n)
    i = 0
    for d in range(4):
        for c in itertools.product('PSM', repeat=d):
            for l in (DEEP3 if d == 3 else LEAVES):
                t = l
                for x in reversed(c):
                    t = CONS[x] % t
                i += 1
                add('type F%d struct{ F %s }' % (i, t), 'F%d' % i)
                if d == 1 and c[0] != 'P' or d == 0 and l not in ('int', 'string', 'bool', 'NInt', 'NPtr', 'Alias', 'ext.Gen', 'ext.Manual', 'Unexp', 'NPDeep', 'NPVal', 'NPPtr', 'AStr', 'APtr', 'ADeep', 'AFlat'):
                    add('type T%d %s' % (i, t), 'T%d' % i)
                elif d == 1 or l in ('NPtr', 'NPDeep', 'NPVal', 'NPPtr'):
                    out.append('type T%d %s // a pointer has no methods' % (i, t))
    with open(root + '/harness/pkg/zzverif/dctypes/types.go', 'w') as f:
        f.write(FIXED + '\n'.join(out) + '\n\n// All has a pointer to a new value of each type.\nvar All = []func() any{\n')
        for n in names:
            f.write('\tfunc() any { return new(%s) }, // %s\n' % (n, n))
        f.write('}\n')
    os.system('gofmt -w %s/harness/pkg/zzverif/dctypes/types.go' % root)
main()
