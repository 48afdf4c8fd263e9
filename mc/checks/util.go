package checks

import (
	"fmt"
	"hash/fnv"
	"strings"
)

func hashStr(args ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, args...)
	return h.Sum64()
}

func hexDump(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("% x ... (%d bytes)", b[:96], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.Join
