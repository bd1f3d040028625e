package checks

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif/mc/fw"
)

// Strings emits every concatenation of min..max pieces of the alphabet.
func Strings(alphabet []string, min, max int, emit func(string) bool) {
	var walk func(prefix string, left int) bool
	walk = func(prefix string, left int) bool {
		if left == 0 {
			return emit(prefix)
		}
		for _, a := range alphabet {
			if !walk(prefix+a, left-1) {
				return false
			}
		}
		return true
	}
	for n := min; n <= max; n++ {
		if !walk("", n) {
			return
		}
	}
}

// Chars splits a text into its characters.
func Chars(s string) []string {
	var l []string
	for _, r := range s {
		l = append(l, string(r))
	}
	return l
}

// AllStrings checks every string of an alphabet up to a length as a case.
func AllStrings(c *fw.Ctx, label string, alphabet []string, max int, check func(s string) string) {
	prefix := label + ":"
	fw.Parallel(c, func(emit func(string) bool) {
		if c.Filter != "" {
			if strings.HasPrefix(c.Filter, prefix) {
				var s string
				if _, err := fmt.Sscanf(c.Filter[len(prefix):], "%q", &s); err == nil {
					emit(s)
				}
			}
			return
		}
		Strings(alphabet, 0, max, emit)
	}, func(s string) {
		c.AddTraces(1)
		c.Case(prefix+fmt.Sprintf("%q", s), func() string { return check(s) })
		c.Sample(func() string { return fmt.Sprintf("%s %q", label, s) })
	})
	c.Bound("%s: every concatenation of at most %d of the pieces %q", label, max, alphabet)
}

// List checks every item of a list as a case.
func List(c *fw.Ctx, label string, items []string, check func(s string) string) {
	fw.Parallel(c, func(emit func(string) bool) {
		for _, s := range items {
			if !emit(s) {
				return
			}
		}
	}, func(s string) {
		key := label + ":" + s
		if c.Filter != "" && c.Filter != key {
			return
		}
		c.AddTraces(1)
		c.Case(key, func() string { return check(s) })
		c.Sample(func() string { return fmt.Sprintf("%s %s", label, s) })
	})
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-150:]
	}
	return s
}

// logLine appends to the file named by MC_LOG, for tuning bounds.
func logLine(a ...any) {
	name := os.Getenv("MC_LOG")
	if name == "" {
		return
	}
	if f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
		fmt.Fprintln(f, append([]any{time.Now().Format("15:04:05")}, a...)...)
		f.Close()
	}
}
