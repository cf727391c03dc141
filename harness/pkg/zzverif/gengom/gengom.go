// Package gengom stands for the parts of gengo that the engine cannot execute: the bodies of the generated files, which are made by
// text/template over gengo's model of the types.
package gengom

import (
	"os"
	"path/filepath"

	"k8s.io/gengo/v2/generator"
	"k8s.io/klog/v2"
)

// ModelV replaces klog.V in the engine.
func ModelV(klog.Level) klog.Verbose { return klog.Verbose{} }

// ModelExecuteTargets replaces (*generator.Context).ExecuteTargets in the engine: the files of the targets have their headers, package
// clauses and one import, and nothing else.
func ModelExecuteTargets(c *generator.Context, targets []generator.Target) error {
	for _, t := range targets {
		if err := os.MkdirAll(t.Dir(), 0o755); err != nil {
			return err
		}
		for _, g := range t.Generators(c) {
			data := append([]byte(nil), t.Header(g.Filename())...)
			data = append(data, "package "+t.Name()+"\n\nimport internal \""+t.Path()+"/internal\"\n"...)
			if err := os.WriteFile(filepath.Join(t.Dir(), g.Filename()), data, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}
