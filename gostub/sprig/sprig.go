// Package sprig: offline stand-in for github.com/Masterminds/sprig/v3 (v3.2.3 is
// not available in the sandbox). It implements, with the documented semantics,
// the text functions a metac template can reasonably use.
package sprig

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unicode"
)

func strval(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

func toInt64(v interface{}) int64 {
	if s, ok := v.(string); ok {
		iv, err := strconv.ParseInt(s, 0, 64)
		if err != nil {
			return 0
		}
		return iv
	}
	val := reflect.Indirect(reflect.ValueOf(v))
	switch val.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return val.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(val.Uint())
	case reflect.Float32, reflect.Float64:
		return int64(val.Float())
	case reflect.Bool:
		if val.Bool() {
			return 1
		}
	}
	return 0
}

func empty(given interface{}) bool {
	g := reflect.ValueOf(given)
	if !g.IsValid() {
		return true
	}
	switch g.Kind() {
	default:
		return g.IsNil()
	case reflect.Array, reflect.Slice, reflect.Map, reflect.String:
		return g.Len() == 0
	case reflect.Bool:
		return !g.Bool()
	case reflect.Complex64, reflect.Complex128:
		return g.Complex() == 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return g.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return g.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return g.Float() == 0
	case reflect.Struct:
		return false
	}
}

func list(v ...interface{}) []interface{} { return v }

func toSlice(l interface{}) []interface{} {
	v := reflect.ValueOf(l)
	r := make([]interface{}, v.Len())
	for i := range r {
		r[i] = v.Index(i).Interface()
	}
	return r
}

func dict(v ...interface{}) map[string]interface{} {
	d := map[string]interface{}{}
	for i := 0; i < len(v); i += 2 {
		key := strval(v[i])
		if i+1 >= len(v) {
			d[key] = ""
			continue
		}
		d[key] = v[i+1]
	}
	return d
}

// snakecase as xstrings.ToSnakeCase does for identifiers.
func SnakeCase(s string) string {
	rs := []rune(s)
	var b strings.Builder
	for i, r := range rs {
		switch {
		case r == ' ' || r == '-' || r == '_':
			b.WriteRune('_')
		case unicode.IsUpper(r):
			if i > 0 {
				p := rs[i-1]
				nextLower := i+1 < len(rs) && unicode.IsLower(rs[i+1])
				if p != '_' && p != ' ' && p != '-' && (unicode.IsLower(p) || unicode.IsDigit(p) || (unicode.IsUpper(p) && nextLower)) {
					b.WriteRune('_')
				}
			}
			b.WriteRune(unicode.ToLower(r))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func toJSON(v interface{}) string {
	o, _ := json.Marshal(v)
	return string(o)
}

func TxtFuncMap() template.FuncMap { return GenericFuncMap() }
func FuncMap() template.FuncMap    { return GenericFuncMap() }

func GenericFuncMap() template.FuncMap {
	m := template.FuncMap{}
	for k, v := range funcs {
		m[k] = v
	}
	return m
}

func sum(a ...interface{}) (r int64) {
	for _, v := range a {
		r += toInt64(v)
	}
	return
}

var funcs = map[string]interface{}{
	"toString":     strval,
	"toStrings":    func(l interface{}) (r []string) { for _, v := range toSlice(l) { r = append(r, strval(v)) }; return },
	"toJson":       toJSON,
	"mustToJson":   func(v interface{}) (string, error) { o, e := json.Marshal(v); return string(o), e },
	"toPrettyJson": func(v interface{}) string { o, _ := json.MarshalIndent(v, "", "  "); return string(o) },
	"toRawJson":    toJSON,
	"fromJson":     func(s string) interface{} { var r interface{}; _ = json.Unmarshal([]byte(s), &r); return r },
	"atoi":         func(a string) int { i, _ := strconv.Atoi(a); return i },
	"int":          func(v interface{}) int { return int(toInt64(v)) },
	"int64":        toInt64,
	"add":          func(i ...interface{}) int64 { return sum(i...) },
	"add1":         func(i interface{}) int64 { return toInt64(i) + 1 },
	"sub":          func(a, b interface{}) int64 { return toInt64(a) - toInt64(b) },
	"mul": func(a interface{}, v ...interface{}) int64 {
		r := toInt64(a)
		for _, b := range v {
			r *= toInt64(b)
		}
		return r
	},
	"div": func(a, b interface{}) int64 { return toInt64(a) / toInt64(b) },
	"mod": func(a, b interface{}) int64 { return toInt64(a) % toInt64(b) },
	"max": func(a interface{}, i ...interface{}) int64 {
		r := toInt64(a)
		for _, b := range i {
			if x := toInt64(b); x > r {
				r = x
			}
		}
		return r
	},
	"min": func(a interface{}, i ...interface{}) int64 {
		r := toInt64(a)
		for _, b := range i {
			if x := toInt64(b); x < r {
				r = x
			}
		}
		return r
	},
	"snakecase": SnakeCase,
	"upper":     strings.ToUpper, "lower": strings.ToLower,
	"trim":       strings.TrimSpace,
	"trimAll":    func(a, b string) string { return strings.Trim(b, a) },
	"trimPrefix": func(a, b string) string { return strings.TrimPrefix(b, a) },
	"trimSuffix": func(a, b string) string { return strings.TrimSuffix(b, a) },
	"hasPrefix":  func(a, b string) bool { return strings.HasPrefix(b, a) },
	"hasSuffix":  func(a, b string) bool { return strings.HasSuffix(b, a) },
	"contains":   func(a, b string) bool { return strings.Contains(b, a) },
	"replace":    func(o, n, s string) string { return strings.ReplaceAll(s, o, n) },
	"repeat":     func(c int, s string) string { return strings.Repeat(s, c) },
	"nospace":    func(s string) string { return strings.Join(strings.Fields(s), "") },
	"indent": func(spaces int, v string) string {
		pad := strings.Repeat(" ", spaces)
		return pad + strings.ReplaceAll(v, "\n", "\n"+pad)
	},
	"nindent": func(spaces int, v string) string {
		pad := strings.Repeat(" ", spaces)
		return "\n" + pad + strings.ReplaceAll(v, "\n", "\n"+pad)
	},
	"quote": func(str ...interface{}) string {
		out := make([]string, 0, len(str))
		for _, s := range str {
			if s != nil {
				out = append(out, fmt.Sprintf("%q", strval(s)))
			}
		}
		return strings.Join(out, " ")
	},
	"squote": func(str ...interface{}) string {
		out := make([]string, 0, len(str))
		for _, s := range str {
			if s != nil {
				out = append(out, fmt.Sprintf("'%v'", s))
			}
		}
		return strings.Join(out, " ")
	},
	"cat": func(v ...interface{}) string {
		var o []string
		for _, s := range v {
			if s != nil {
				o = append(o, strval(s))
			}
		}
		return strings.Join(o, " ")
	},
	"join": func(sep string, l interface{}) string {
		var o []string
		for _, v := range toSlice(l) {
			o = append(o, strval(v))
		}
		return strings.Join(o, sep)
	},
	"splitList": func(sep, orig string) []string { return strings.Split(orig, sep) },
	"split": func(sep, orig string) map[string]string {
		r := map[string]string{}
		for i, s := range strings.Split(orig, sep) {
			r["_"+strconv.Itoa(i)] = s
		}
		return r
	},
	"substr": func(start, end int, s string) string {
		if start < 0 {
			return s[:end]
		}
		if end < 0 || end > len(s) {
			return s[start:]
		}
		return s[start:end]
	},
	"trunc": func(c int, s string) string {
		if c < 0 && len(s)+c > 0 {
			return s[len(s)+c:]
		}
		if c >= 0 && len(s) > c {
			return s[:c]
		}
		return s
	},
	"regexMatch":             func(re, s string) bool { m, _ := regexp.MatchString(re, s); return m },
	"regexFind":              func(re, s string) string { return regexp.MustCompile(re).FindString(s) },
	"regexFindAll":           func(re, s string, n int) []string { return regexp.MustCompile(re).FindAllString(s, n) },
	"regexReplaceAll":        func(re, s, repl string) string { return regexp.MustCompile(re).ReplaceAllString(s, repl) },
	"regexReplaceAllLiteral": func(re, s, repl string) string { return regexp.MustCompile(re).ReplaceAllLiteralString(s, repl) },
	"regexSplit":             func(re, s string, n int) []string { return regexp.MustCompile(re).Split(s, n) },
	"list":                   list,
	"tuple":                  list,
	"dict":                   dict,
	"get": func(d map[string]interface{}, k string) interface{} {
		if v, ok := d[k]; ok {
			return v
		}
		return ""
	},
	"set":    func(d map[string]interface{}, k string, v interface{}) map[string]interface{} { d[k] = v; return d },
	"unset":  func(d map[string]interface{}, k string) map[string]interface{} { delete(d, k); return d },
	"hasKey": func(d map[string]interface{}, k string) bool { _, ok := d[k]; return ok },
	"keys": func(ds ...map[string]interface{}) []string {
		r := []string{}
		for _, d := range ds {
			for k := range d {
				r = append(r, k)
			}
		}
		return r
	},
	"values": func(d map[string]interface{}) []interface{} {
		r := []interface{}{}
		for _, v := range d {
			r = append(r, v)
		}
		return r
	},
	"sortAlpha": func(l interface{}) []string {
		r := []string{}
		for _, v := range toSlice(l) {
			r = append(r, strval(v))
		}
		sort.Strings(r)
		return r
	},
	"append":  func(l interface{}, v interface{}) []interface{} { return append(toSlice(l), v) },
	"push":    func(l interface{}, v interface{}) []interface{} { return append(toSlice(l), v) },
	"prepend": func(l interface{}, v interface{}) []interface{} { return append([]interface{}{v}, toSlice(l)...) },
	"concat": func(ls ...interface{}) []interface{} {
		var r []interface{}
		for _, l := range ls {
			r = append(r, toSlice(l)...)
		}
		return r
	},
	"first": func(l interface{}) interface{} {
		s := toSlice(l)
		if len(s) == 0 {
			return nil
		}
		return s[0]
	},
	"last": func(l interface{}) interface{} {
		s := toSlice(l)
		if len(s) == 0 {
			return nil
		}
		return s[len(s)-1]
	},
	"rest":    func(l interface{}) []interface{} { s := toSlice(l); if len(s) == 0 { return nil }; return s[1:] },
	"initial": func(l interface{}) []interface{} { s := toSlice(l); if len(s) == 0 { return nil }; return s[:len(s)-1] },
	"reverse": func(l interface{}) []interface{} {
		s := toSlice(l)
		r := make([]interface{}, len(s))
		for i := range s {
			r[len(s)-1-i] = s[i]
		}
		return r
	},
	"has": func(needle interface{}, l interface{}) bool {
		if l == nil {
			return false
		}
		for _, v := range toSlice(l) {
			if reflect.DeepEqual(needle, v) {
				return true
			}
		}
		return false
	},
	"uniq": func(l interface{}) []interface{} {
		var r []interface{}
	outer:
		for _, v := range toSlice(l) {
			for _, x := range r {
				if reflect.DeepEqual(v, x) {
					continue outer
				}
			}
			r = append(r, v)
		}
		return r
	},
	"empty": empty,
	"default": func(d interface{}, given ...interface{}) interface{} {
		if len(given) == 0 || empty(given[0]) {
			return d
		}
		return given[0]
	},
	"coalesce": func(v ...interface{}) interface{} {
		for _, x := range v {
			if !empty(x) {
				return x
			}
		}
		return nil
	},
	"ternary": func(vt, vf interface{}, v bool) interface{} {
		if v {
			return vt
		}
		return vf
	},
	"until": func(n int) []int {
		r := []int{}
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return r
	},
	"fail":     func(msg string) (string, error) { return "", errors.New(msg) },
	"kindOf":   func(v interface{}) string { return reflect.ValueOf(v).Kind().String() },
	"kindIs":   func(t string, v interface{}) bool { return reflect.ValueOf(v).Kind().String() == t },
	"typeOf":   func(v interface{}) string { return fmt.Sprintf("%T", v) },
	"deepEqual": reflect.DeepEqual,
	"env":      os.Getenv,
	"base":     path.Base, "dir": path.Dir, "clean": path.Clean, "ext": path.Ext, "isAbs": path.IsAbs,
	"osBase": filepath.Base, "osDir": filepath.Dir, "osClean": filepath.Clean, "osExt": filepath.Ext, "osIsAbs": filepath.IsAbs,
}
