ID = "c20-alt"
PROP = "C20"
EDITS = [("cff/convert.go", """				if !glyphNameUsed[glyphName] {
					g.Name = glyphName
					glyphNameUsed[glyphName] = true
					break
				}
			}
		}
	}
""", """				if !glyphNameUsed[glyphName] {
					g.Name = glyphName
					glyphNameUsed[baseName] = true
					break
				}
			}
		}
	}
""")]
PKG = "cff"
TEST = """
package cff

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
)

func TestSeedDemo(t *testing.T) {
	o := &Outlines{}
	for i := 0; i < 4; i++ {
		o.Glyphs = append(o.Glyphs, NewGlyph("", 500))
	}
	o.MakeSimple(map[glyph.ID]string{1: "A", 2: "A", 3: "A"})
	seen := map[string]bool{}
	for i, g := range o.Glyphs {
		if g.Name == "" || seen[g.Name] {
			t.Errorf("glyph %d: bad name %q", i, g.Name)
		}
		seen[g.Name] = true
	}
}
"""
NEEDS = "converting a CID-keyed font in which three glyphs stand for the same text"
BREAKS = "names with an .altN suffix are not recorded as used and are given out twice"
