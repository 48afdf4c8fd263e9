ID = "c19-drain"
PROP = "C19"
EDITS = [("opentype/gtab/builder/parser.go", """			for range tokens {
				// drain the lexer
			}
			if e, ok := r.(*parseError); ok {
""", """			for t := range tokens {
				// drain the lexer
				if t.typ == itemEOL {
					break
				}
			}
			if e, ok := r.(*parseError); ok {
""")]
PKG = "opentype/gtab/builder"
TEST = """
package builder

import (
	"runtime"
	"testing"
	"time"

	"seehuhn.de/go/sfnt/internal/debug"
)

func TestSeedDemo(t *testing.T) {
	f := debug.MakeSimpleFont()
	before := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		Parse(f, "GSUB1: A -> ->\\nGSUB1: B -> C\\n")
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Errorf("%d goroutines left", n-before)
	}
}
"""
NEEDS = "a parse error which is followed by a line break and further text"
BREAKS = "the lexer is only drained up to the end of the line, its goroutine blocks forever"
