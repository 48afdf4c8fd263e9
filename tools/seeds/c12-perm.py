ID="c12-perm"; PROP="C12"; PKG="os2"
EDITS=[("os2/os2.go", """	if permBits&8 != 0 {
		permUse = PermEdit
	} else if permBits&4 != 0 {
		permUse = PermView
	} else if permBits&2 != 0 {
		permUse = PermRestricted
	} else {
		permUse = PermInstall
	}
""", """	switch {
	case permBits&2 != 0:
		permUse = PermRestricted
	case permBits&4 != 0:
		permUse = PermView
	case permBits&8 != 0:
		permUse = PermEdit
	default:
		permUse = PermInstall
	}
""")]
NEEDS="an old OS/2 table with more than one embedding bit set"
BREAKS="the most restrictive instead of the least restrictive embedding permission is reported"
TEST='''
package os2

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	b := (&Info{PermUse: PermView, LastCharIndex: 100}).Encode()
	b[1] = 2
	b[9] |= 2 // restricted and preview&print
	info, err := Read(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	if info.PermUse != PermView {
		t.Fatalf("permission %v", info.PermUse)
	}
}
'''
