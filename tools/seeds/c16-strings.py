ID="c16-strings"; PROP="C16"; PKG="./cff"
EDITS=[("cff/strings.go", "	if ss.rev == nil {\n		ss.rev = make(map[string]int32)\n		for i, s := range stdStrings {\n			ss.rev[s] = int32(i)\n		}\n", "	if stdRev == nil {\n		stdRev = make(map[string]int32)\n		for i, s := range stdStrings {\n			stdRev[s] = int32(i)\n		}\n	}\n	if sid, ok := stdRev[s]; ok {\n		return sid\n	}\n	if ss.rev == nil {\n		ss.rev = make(map[string]int32)\n"),
("cff/strings.go", "func (ss *cffStrings) encode() []byte {", "// stdRev is the inverse of stdStrings.\nvar stdRev map[string]int32\n\nfunc (ss *cffStrings) encode() []byte {")]
NEEDS="two goroutines which both write a CFF font as the first thing in the process"
BREAKS="the global table is built by both goroutines at the same time (a data race)"
RACE=True
TEST='''
package cff

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ss := &cffStrings{}
			if ss.lookup("space") != 1 || ss.lookup("xyz") != nStdString {
				t.Error("wrong")
			}
		}()
	}
	wg.Wait()
}
'''
