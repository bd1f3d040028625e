//go:build instrumented

package checks

import "github.com/KSpaceer/yamly/verifyield"

func init() { setHook = func(f func(entry bool)) { verifyield.Hook = f } }
