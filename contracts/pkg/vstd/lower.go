//go:build go1.21

package vstd

import "strings"

func strings_ToLower(s string) string { return strings.ToLower(s) }
