package sym

import (
	"errors"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// Unsupported ends the path as one the engine cannot follow (it is then replayed natively instead).
func Unsupported(msg string) {}

// ModelJSONUnmarshal replaces encoding/json.Unmarshal in the engine. It only decodes into *interface{}.
func ModelJSONUnmarshal(data []byte, v any) error {
	p, ok := v.(*any)
	if !ok || p == nil {
		Unsupported("json.Unmarshal into a typed value")
		return errors.New("unsupported")
	}
	d := &jdec{b: data}
	x, err := d.value()
	if err != nil {
		return err
	}
	d.ws()
	if d.i < len(d.b) {
		return errJSON
	}
	*p = x
	return nil
}

var errJSON = errors.New("invalid JSON")

type jdec struct {
	b    []byte
	i    int
	ints bool // whole numbers are int64
}

// DecodeJSON reads JSON text; numbers without fraction and exponent become int64.
func DecodeJSON(data []byte) (any, error) {
	d := &jdec{b: data, ints: true}
	x, err := d.value()
	if err != nil {
		return nil, err
	}
	d.ws()
	if d.i < len(d.b) {
		return nil, errJSON
	}
	return x, nil
}

func (d *jdec) ws() {
	for d.i < len(d.b) && (d.b[d.i] == ' ' || d.b[d.i] == '\t' || d.b[d.i] == '\r' || d.b[d.i] == '\n') {
		d.i++
	}
}

func (d *jdec) lit(s string) bool {
	if len(d.b)-d.i < len(s) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if d.b[d.i+k] != s[k] {
			return false
		}
	}
	d.i += len(s)
	return true
}

func (d *jdec) value() (any, error) {
	d.ws()
	if d.i >= len(d.b) {
		return nil, errJSON
	}
	switch c := d.b[d.i]; {
	case c == '{':
		d.i++
		m := map[string]any{}
		d.ws()
		if d.i < len(d.b) && d.b[d.i] == '}' {
			d.i++
			return m, nil
		}
		for {
			d.ws()
			if d.i >= len(d.b) || d.b[d.i] != '"' {
				return nil, errJSON
			}
			k, err := d.str()
			if err != nil {
				return nil, err
			}
			d.ws()
			if d.i >= len(d.b) || d.b[d.i] != ':' {
				return nil, errJSON
			}
			d.i++
			x, err := d.value()
			if err != nil {
				return nil, err
			}
			m[k] = x
			d.ws()
			if d.i >= len(d.b) {
				return nil, errJSON
			}
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			if d.b[d.i] == '}' {
				d.i++
				return m, nil
			}
			return nil, errJSON
		}
	case c == '[':
		d.i++
		l := []any{}
		d.ws()
		if d.i < len(d.b) && d.b[d.i] == ']' {
			d.i++
			return l, nil
		}
		for {
			x, err := d.value()
			if err != nil {
				return nil, err
			}
			l = append(l, x)
			d.ws()
			if d.i >= len(d.b) {
				return nil, errJSON
			}
			if d.b[d.i] == ',' {
				d.i++
				continue
			}
			if d.b[d.i] == ']' {
				d.i++
				return l, nil
			}
			return nil, errJSON
		}
	case c == '"':
		return d.str()
	case c == 't':
		if d.lit("true") {
			return true, nil
		}
	case c == 'f':
		if d.lit("false") {
			return false, nil
		}
	case c == 'n':
		if d.lit("null") {
			return nil, nil
		}
	case c == '-' || c >= '0' && c <= '9':
		return d.num()
	}
	return nil, errJSON
}

func (d *jdec) digits() int {
	n := 0
	for d.i < len(d.b) && d.b[d.i] >= '0' && d.b[d.i] <= '9' {
		d.i++
		n++
	}
	return n
}

func (d *jdec) num() (any, error) {
	start := d.i
	if d.b[d.i] == '-' {
		d.i++
	}
	if d.i >= len(d.b) {
		return nil, errJSON
	}
	if d.b[d.i] == '0' {
		d.i++
	} else if d.digits() == 0 {
		return nil, errJSON
	}
	whole := true
	if d.i < len(d.b) && d.b[d.i] == '.' {
		d.i++
		whole = false
		if d.digits() == 0 {
			return nil, errJSON
		}
	}
	if d.i < len(d.b) && (d.b[d.i] == 'e' || d.b[d.i] == 'E') {
		d.i++
		whole = false
		if d.i < len(d.b) && (d.b[d.i] == '+' || d.b[d.i] == '-') {
			d.i++
		}
		if d.digits() == 0 {
			return nil, errJSON
		}
	}
	if whole && d.ints {
		if n, err := strconv.ParseInt(string(d.b[start:d.i]), 10, 64); err == nil {
			return n, nil
		}
	}
	f, err := strconv.ParseFloat(string(d.b[start:d.i]), 64)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d *jdec) hex4() (rune, bool) {
	if len(d.b)-d.i < 4 {
		return 0, false
	}
	var r rune
	for k := 0; k < 4; k++ {
		c := d.b[d.i+k]
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			return 0, false
		}
	}
	d.i += 4
	return r, true
}

func (d *jdec) str() (string, error) {
	d.i++
	var out []byte
	for d.i < len(d.b) {
		c := d.b[d.i]
		switch {
		case c == '"':
			d.i++
			return string(out), nil
		case c < ' ':
			return "", errJSON
		case c == '\\':
			d.i++
			if d.i >= len(d.b) {
				return "", errJSON
			}
			e := d.b[d.i]
			d.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := d.hex4()
				if !ok {
					return "", errJSON
				}
				if utf16.IsSurrogate(r) {
					if len(d.b)-d.i >= 6 && d.b[d.i] == '\\' && d.b[d.i+1] == 'u' {
						save := d.i
						d.i += 2
						r2, ok := d.hex4()
						if !ok {
							return "", errJSON
						}
						if dec := utf16.DecodeRune(r, r2); dec != utf8.RuneError {
							out = utf8.AppendRune(out, dec)
							continue
						}
						d.i = save
					}
					r = utf8.RuneError
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", errJSON
			}
		case c < 0x80:
			out = append(out, c)
			d.i++
		default:
			r, n := utf8.DecodeRune(d.b[d.i:])
			out = utf8.AppendRune(out, r)
			d.i += n
		}
	}
	return "", errJSON
}
