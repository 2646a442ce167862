// Package xstrings: offline stand-in for github.com/huandu/xstrings (only the
// identifier-shaped inputs of ToSnakeCase are supported).
package xstrings

import (
	"strings"
	"unicode"
)

func ToSnakeCase(s string) string {
	rs := []rune(s)
	var b strings.Builder
	for i, r := range rs {
		switch {
		case r == ' ' || r == '-' || r == '_':
			b.WriteRune('_')
		case unicode.IsUpper(r):
			if i > 0 {
				p := rs[i-1]
				nextLower := i+1 < len(rs) && unicode.IsLower(rs[i+1])
				if p != '_' && p != ' ' && p != '-' && (unicode.IsLower(p) || unicode.IsDigit(p) || (unicode.IsUpper(p) && nextLower)) {
					b.WriteRune('_')
				}
			}
			b.WriteRune(unicode.ToLower(r))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}
