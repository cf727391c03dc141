package crdh

import (
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// pkgPath is an arbitrary import path (the characters that matter: separators, `~`, digits and letters).
func pkgPath(id string, max int) string {
	return sym.StringOf(id, 0, max, "/~01ab.-")
}

func typeName(id string, max int) string { return sym.StringOf(id, 1, max, "A0_1") }

// H_C24_link: every import path of up to 6 (8) characters over separators, `~`, `0`, `1`, letters, and every type name of up to 3; also the
// empty path (a type of the same package).
func H_C24_link() {
	p, t := pkgPath("pkg", 6+2*sym.Tier()), typeName("type", 3)
	link := crd.TypeRefLink(p, t)
	gt, gp, err := crd.RefParts(link)
	sym.Assert(err == nil, "a link made for a type is read without error")
	sym.Assert(sym.StrEq(gt, t), "a link names the type it was made for")
	sym.Assert(sym.StrEq(gp, p), "a link names the package it was made for")
	sym.Reach("link")
}

// H_C24_distinct: two references with import paths of up to 4 characters and type names of up to 2.
func H_C24_distinct() {
	p1, t1 := pkgPath("pkg", 4), typeName("type", 2)
	p2, t2 := pkgPath("pkg'", 4), typeName("type'", 2)
	sym.Assume(!sym.And(sym.StrEq(p1, p2), sym.StrEq(t1, t2)))
	sym.Assert(!sym.StrEq(crd.TypeRefLink(p1, t1), crd.TypeRefLink(p2, t2)), "links of different types differ")
	sym.Reach("distinct")
}

// H_C24_foreign: every string of up to 5 bytes in front of the type name: what is not a definitions link is an error.
func H_C24_foreign() {
	pre := sym.StringOf("prefix", 0, 5, "#/def~0")
	ref := pre + "T"
	_, _, err := crd.RefParts(ref)
	sym.Assert((err != nil) == !strings.HasPrefix(ref, "#/definitions/"), "a reference that is no definitions link is an error")
	long := "#/definitions" + pre + "T"
	typ, pkg, err := crd.RefParts(long)
	if len(pre) > 0 && pre[0] == '/' {
		sym.Assert(err == nil && strings.HasSuffix(typ, "T") && strings.IndexByte(typ, '~') < 0, "a definitions link is read")
		_ = pkg
	} else {
		sym.Assert(err != nil, "a reference that is no definitions link is an error")
	}
	sym.Reach("foreign")
}

// H_C24_vendor: every path made of up to 3 parts joined by `/vendor/` or near misses of it.
func H_C24_vendor() {
	path, last := "", ""
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		part := sym.StringOf("part", 1, 3, "avr/o")
		sym.Assume(part[0] != '/' && part[len(part)-1] != '/')
		if i == 0 {
			path, last = part, part
			continue
		}
		switch sym.Choose("sep", 3) {
		case 0:
			path, last = path+"/vendor/"+part, part
		case 1:
			path, last = path+"/xvendor/"+part, last+"/xvendor/"+part
		case 2:
			path, last = path+"/vendored/"+part, last+"/vendored/"+part
		}
	}
	sym.Assert(sym.StrEq(loader.NonVendorPath(path), last), "the path of a vendored package is the one it is imported by")
	sym.Reach("vendor")
}
