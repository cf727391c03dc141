// Package yml lets harnesses follow the YAML that the repository writes. In the engine the two functions of gopkg.in/yaml.v2 that the
// repository uses for output are replaced: Unmarshal reads JSON text (which is YAML) the way yaml.v2 does, Marshal writes JSON text.
// Natively everything is real.
package yml

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"

	rawyaml "gopkg.in/yaml.v2"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// ModelUnmarshal replaces yaml.Unmarshal for JSON objects.
func ModelUnmarshal(in []byte, out any) error {
	p, ok := out.(*map[string]any)
	if !ok {
		sym.Unsupported("yaml.Unmarshal into a typed value")
		return errors.New("unsupported")
	}
	x, err := sym.DecodeJSON(in)
	if err != nil {
		return err
	}
	m, ok := x.(map[string]any)
	if !ok {
		return errors.New("yaml: cannot unmarshal")
	}
	r := map[string]any{}
	for k, v := range m {
		r[k] = toYAML(v)
	}
	*p = r
	return nil
}

func toYAML(x any) any {
	switch v := x.(type) {
	case map[string]any:
		m := map[any]any{}
		for k, e := range v {
			m[k] = toYAML(e)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i := range v {
			l[i] = toYAML(v[i])
		}
		return l
	case int64:
		return int(v)
	}
	return x
}

// plain turns decoded YAML or JSON into maps, lists, strings, booleans, int64 and float64.
func plain(x any) any {
	switch v := x.(type) {
	case map[any]any:
		m := map[string]any{}
		for k, e := range v {
			s, ok := k.(string)
			if !ok {
				b, _ := json.Marshal(k)
				s = string(b)
			}
			m[s] = plain(e)
		}
		return m
	case map[string]any:
		m := map[string]any{}
		for k, e := range v {
			m[k] = plain(e)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i := range v {
			l[i] = plain(v[i])
		}
		return l
	case int:
		return int64(v)
	case uint64:
		return int64(v)
	}
	return x
}

// ModelMarshal replaces yaml.Marshal for what ModelUnmarshal returns.
func ModelMarshal(in any) ([]byte, error) {
	b, err := json.Marshal(plain(in))
	return append(b, '\n'), err
}

// Docs reads YAML documents that were each preceded by `---`.
func Docs(out []byte) ([]any, bool) {
	var docs []any
	if !sym.Symbolic() {
		d := rawyaml.NewDecoder(bytes.NewReader(out))
		for {
			var x any
			if err := d.Decode(&x); err == io.EOF {
				return docs, true
			} else if err != nil {
				return docs, false
			}
			docs = append(docs, plain(x))
		}
	}
	for len(out) > 0 {
		if len(out) < 4 || string(out[:4]) != "---\n" {
			return docs, false
		}
		out = out[4:]
		n := 0
		for n < len(out) && out[n] != '\n' {
			n++
		}
		if n == len(out) {
			return docs, false
		}
		x, err := sym.DecodeJSON(out[:n])
		if err != nil {
			return docs, false
		}
		docs = append(docs, plain(x))
		out = out[n+1:]
	}
	return docs, true
}

// Plain is what a value reads as after it was written as JSON or YAML.
func Plain(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	x, err := sym.DecodeJSON(b)
	if err != nil {
		return err
	}
	return plain(x)
}

// Recorder is an output rule that keeps what is written.
type Recorder struct{ Files []*File }

type File struct {
	Pkg    *loader.Package
	Name   string
	Data   []byte
	Closed int
}

func (r *Recorder) Open(pkg *loader.Package, name string) (io.WriteCloser, error) {
	f := &File{Pkg: pkg, Name: name}
	r.Files = append(r.Files, f)
	return f, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.Closed > 0 {
		return 0, errors.New("closed")
	}
	f.Data = append(f.Data, b...)
	return len(b), nil
}

func (f *File) Close() error {
	f.Closed++
	return nil
}

var _ genall.OutputRule = &Recorder{}
