#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for each planted bug described in tools/seeds/*.py.

Each spec file calls seed(id, property, needs, breaks, edits, demo, pkg=..., helper=...)
  edits: [(file, old, new)] against /repo's working tree
  demo:  body of a Go test file (without package clause/imports handling: a full file)
"""
import os, sys, json, subprocess, shutil, glob
REPO='/repo'; OUT='/verif/seeded'
HERE=os.path.dirname(os.path.abspath(__file__))
DEMO_SH='''#!/bin/bash
# Runs demo_test.go as a test of ./%(pkg)s: passes on the unchanged tree, fails with the change.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
overlay=$(mktemp /tmp/zzdemo.XXXXXX.json)
trap 'rm -f "$overlay"' EXIT
printf '{"Replace": {%%s}}' "$(for f in "$here"/*_test.go; do printf '%%s"%%s/%(pkg)s/zz_%%s": "%%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=", "; done)" >"$overlay"
go test -overlay "$overlay" -vet=off -count=1 -run '^TestZZDemo$' ./%(pkg)s
'''
RUNHELP='''package main

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/genall"
)

// zzrun runs the generators named by args over a scratch module with the given
// files, and returns what they wrote and whether the run succeeded.
func zzrun(t *testing.T, files map[string]string, args ...string) (map[string]string, bool) {
	t.Helper()
	dir, out := t.TempDir(), t.TempDir()
	here, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	root := filepath.Join(here, "..", "..")
	mod, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		t.Fatal(err)
	}
	sum, err := os.ReadFile(filepath.Join(root, "go.sum"))
	if err != nil {
		t.Fatal(err)
	}
	files["go.mod"] = strings.Replace(string(mod), "module sigs.k8s.io/controller-tools", "module demo.example/m", 1)
	files["go.sum"] = string(sum)
	for name, data := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	t.Setenv("GOFLAGS", "-mod=mod")
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(here)
	rt, err := genall.FromOptions(optionsRegistry, append(args, "paths=./...", "output:dir="+out))
	if err != nil {
		t.Logf("options: %v", err)
		return nil, false
	}
	failed := rt.Run()
	res := map[string]string{}
	filepath.Walk(out, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(out, p)
			res[rel] = string(b)
		}
		return nil
	})
	return res, !failed
}
'''
seen=set()
def seed(id, prop, needs, breaks, edits, demo, pkg='cmd/controller-gen'):
    assert id not in seen, id
    seen.add(id)
    if only and id not in only: return
    d=os.path.join(OUT,id)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    diff=''
    byfile={}
    for f,o,n in edits:
        s=byfile.get(f) or open(os.path.join(REPO,f)).read()
        if s.count(o)!=1: sys.exit('%s: %s: %d matches of %r'%(id,f,s.count(o),o))
        byfile[f]=s.replace(o,n)
    for f,s in byfile.items():
        p=subprocess.run(['diff','-u','--label','a/'+f,'--label','b/'+f,os.path.join(REPO,f),'-'],input=s,text=True,capture_output=True)
        diff+='diff --git a/%s b/%s\n'%(f,f)+p.stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO_SH%{'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(demo.lstrip())
    if pkg=='cmd/controller-gen': open(d+'/run_test.go','w').write(RUNHELP)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    print(id)
only=set(sys.argv[1:])
for f in sorted(glob.glob(HERE+'/seeds/*.py')):
    exec(compile(open(f).read(),f,'exec'))
