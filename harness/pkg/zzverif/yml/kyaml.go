package yml

import (
	"errors"
	"reflect"
	"strconv"
	"strings"

	kyaml "sigs.k8s.io/yaml"
	goyaml "sigs.k8s.io/yaml/goyaml.v2"

	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

var errType = errors.New("error unmarshaling JSON")

// ModelKyamlUnmarshal replaces sigs.k8s.io/yaml.Unmarshal for targets made of structs, slices and strings: the YAML is read as there, only the
// detour over JSON is replaced.
func ModelKyamlUnmarshal(in []byte, out any, opts ...kyaml.JSONOpt) error {
	var x any
	if err := goyaml.Unmarshal(in, &x); err != nil {
		return err
	}
	if err := jsonable(x); err != nil {
		return err
	}
	return assign(reflect.ValueOf(out).Elem(), x)
}

func jsonable(x any) error {
	switch v := x.(type) {
	case map[any]any:
		for k, e := range v {
			if _, ok := k.(string); !ok {
				return errors.New("key that is no string") // true of neither int nor bool keys, which the harnesses do not use
			}
			if err := jsonable(e); err != nil {
				return err
			}
		}
	case []any:
		for _, e := range v {
			if err := jsonable(e); err != nil {
				return err
			}
		}
	}
	return nil
}

func assign(v reflect.Value, x any) error {
	if x == nil {
		return nil
	}
	switch v.Kind() {
	case reflect.Struct:
		m, ok := x.(map[any]any)
		if !ok {
			return errType
		}
		t := v.Type()
		var failed error
		for i := 0; i < t.NumField(); i++ {
			name := strings.SplitN(t.Field(i).Tag.Get("json"), ",", 2)[0]
			if name == "" || name == "-" {
				sym.Unsupported("json field without a name")
			}
			for k, e := range m {
				if s := k.(string); s != name && strings.EqualFold(s, name) {
					sym.Unsupported("json field in another case")
				} else if s == name {
					if err := assign(v.Field(i), e); err != nil {
						failed = err
					}
				}
			}
		}
		return failed
	case reflect.Slice:
		l, ok := x.([]any)
		if !ok {
			return errType
		}
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		var failed error
		for i := range l {
			if err := assign(s.Index(i), l[i]); err != nil {
				failed = err
			}
		}
		v.Set(s)
		return failed
	case reflect.String:
		switch y := x.(type) {
		case string:
			v.SetString(y)
		case int:
			v.SetString(strconv.Itoa(y))
		case bool:
			v.SetString(strconv.FormatBool(y))
		case float64:
			v.SetString(strconv.FormatFloat(y, 'g', -1, 32))
		default:
			return errType
		}
		return nil
	}
	sym.Unsupported("yaml.Unmarshal into " + v.Type().String())
	return errType
}
