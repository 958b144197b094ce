package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// V is a JSON-like value: nil, bool, float64, string, []interface{}, M.
type V = interface{}

// M is an object.
type M = map[string]interface{}

func keysOf(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func cloneV(v V) V {
	switch x := v.(type) {
	case M:
		m := make(M, len(x))
		for k, y := range x {
			m[k] = cloneV(y)
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, y := range x {
			a[i] = cloneV(y)
		}
		return a
	}
	return v
}

func equalV(a, b V) bool { return reflect.DeepEqual(a, b) }

// Ordered is an object with the order of its keys.
type Ordered struct {
	Keys []string
	Vals map[string]interface{}
}

// parseJSON decodes strictly: one value, no duplicate keys, no trailing text.
// Top-level key order is returned.
func parseJSON(s string) (V, []string, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var top []string
	v, err := decodeTok(d, 0, &top)
	if err != nil {
		return nil, nil, err
	}
	if _, err := d.Token(); err == nil {
		return nil, nil, fmt.Errorf("more than one JSON value")
	}
	rest := new(bytes.Buffer)
	rest.ReadFrom(d.Buffered())
	if strings.TrimSpace(rest.String()) != "" {
		return nil, nil, fmt.Errorf("text after JSON value: %.40q", rest.String())
	}
	return v, top, nil
}

func decodeTok(d *json.Decoder, depth int, top *[]string) (V, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		switch x {
		case '{':
			m := M{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				ks, ok := k.(string)
				if !ok {
					return nil, fmt.Errorf("key is not a string")
				}
				if _, dup := m[ks]; dup {
					return nil, fmt.Errorf("duplicate key %q", ks)
				}
				if depth == 0 {
					*top = append(*top, ks)
				}
				v, err := decodeTok(d, depth+1, top)
				if err != nil {
					return nil, err
				}
				m[ks] = v
			}
			_, err := d.Token()
			return m, err
		case '[':
			a := []interface{}{}
			for d.More() {
				v, err := decodeTok(d, depth+1, top)
				if err != nil {
					return nil, err
				}
				a = append(a, v)
			}
			_, err := d.Token()
			return a, err
		}
		return nil, fmt.Errorf("unexpected %v", x)
	case json.Number:
		f, err := strconv.ParseFloat(x.String(), 64)
		if err != nil {
			return nil, err
		}
		return f, nil
	default:
		return t, nil
	}
}

func mustJSON(v V) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

// normYAML turns a decoded YAML value (v2 or v3) into V.
func normYAML(v interface{}) (V, error) {
	switch x := v.(type) {
	case nil, bool, string:
		return x, nil
	case int:
		return float64(x), nil
	case int64:
		return float64(x), nil
	case uint64:
		return float64(x), nil
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, fmt.Errorf("not a JSON number: %v", x)
		}
		return x, nil
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, y := range x {
			z, err := normYAML(y)
			if err != nil {
				return nil, err
			}
			a[i] = z
		}
		return a, nil
	case map[interface{}]interface{}:
		m := M{}
		for k, y := range x {
			ks, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("key %v is not a string", k)
			}
			z, err := normYAML(y)
			if err != nil {
				return nil, err
			}
			m[ks] = z
		}
		return m, nil
	case map[string]interface{}:
		m := M{}
		for k, y := range x {
			z, err := normYAML(y)
			if err != nil {
				return nil, err
			}
			m[k] = z
		}
		return m, nil
	}
	return nil, fmt.Errorf("unexpected YAML type %T", v)
}

// firstDiff describes the first difference of two values.
func firstDiff(path string, want, got V) string {
	switch w := want.(type) {
	case M:
		g, ok := got.(M)
		if !ok {
			return fmt.Sprintf("at %s: want object %s, got %s", path, short(want), short(got))
		}
		for _, k := range keysOf(w) {
			y, ok := g[k]
			if !ok {
				return fmt.Sprintf("at %s: key %q is missing (want %s)", path, k, short(w[k]))
			}
			if d := firstDiff(path+"/"+esc(k), w[k], y); d != "" {
				return d
			}
		}
		for _, k := range keysOf(g) {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("at %s: unexpected key %q = %s", path, k, short(g[k]))
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("at %s: want array %s, got %s", path, short(want), short(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("at %s: want %d elements %s, got %d %s", path, len(w), short(want), len(g), short(got))
		}
		for i := range w {
			if d := firstDiff(fmt.Sprintf("%s/%d", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if !equalV(want, got) {
		return fmt.Sprintf("at %s: want %s, got %s", path, short(want), short(got))
	}
	return ""
}

func esc(k string) string {
	return strings.Replace(strings.Replace(k, "~", "~0", -1), "/", "~1", -1)
}

func short(v V) string {
	s := mustJSON(v)
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}
