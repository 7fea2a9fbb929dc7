From 28377cdee8a5e7e4e8a71babac1a8eac8c4cd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 01/49] fix: accept a decimal point that fits when parsing
 numerals

The condition was inverted: a point after digits was reported as an error, so
decimals such as 1.5 were never joined.
---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 3e0288a..d25b5e6 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -202,7 +202,7 @@ func (p *numericParser) append(c rune) bool {
 			p.errorState = errComma
 			return false
 
-		} else if p.tmp.setPoint() {
+		} else if !p.tmp.setPoint() {
 			p.errorState = errPoint
 			return false
 		}
-- 
2.43.0


From 12d40def78eb6807f2f2a5355f388c9415e09ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 02/49] fix: add up the parts of a numeral without changing
 them first
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Formatting the added part filled its zeros in while its scale was kept, and
the sum did not take its own decimal point into account, so numerals such as
千百, 二千十九 or 1.5億3万 got wrong values.
---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index d25b5e6..f80a862 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -76,13 +76,13 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		return true
 	}
 
+	n.normalizeScale()
 	l := t.intLength()
 	if n.scale >= l {
 		n.fillZero(n.scale - l)
 		if t.point >= 0 {
 			n.point = len(n.significand) + t.point
 		}
-		_ = t.String()
 		n.significand = append(n.significand, t.significand...)
 		n.scale = t.scale
 		return true
-- 
2.43.0


From 641f2682d26e1baa7d0e423ef2d793ed1aafcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 03/49] fix: do not rescan numerals forever

A word made of numeric characters whose normalized form has a misplaced comma
or point was rescanned without end: rescan only when that turns the comma or
point into an ordinary character.
---
 joinnumericplugin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..ab54d5c 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -93,10 +93,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			for _, c := range s {
 				if !parser.append(c) {
 					if beginIndex >= 0 {
-						if parser.errorState == errComma {
+						if parser.errorState == errComma && commaAsDigit {
 							commaAsDigit = false
 							i = beginIndex - 1
-						} else if parser.errorState == errPoint {
+						} else if parser.errorState == errPoint && periodAsDigit {
 							periodAsDigit = false
 							i = beginIndex - 1
 						}
-- 
2.43.0


From 0316c5c5adc85c2b8d13de050e158b25a6991075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 04/49] fix: print parts of speech and split units

Both were appended after as many empty strings, so every word was printed with
an empty part of speech and every split with leading slashes.
---
 dictionary/dicprinter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..01ae3f6 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -32,7 +32,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 
 	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
+	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
@@ -86,7 +86,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From b44f1d881b569380b18b093a884a3fc14ddc0079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 05/49] fix: leave the system dictionary alone when printing a
 user dictionary

Printing appended the user dictionary's parts of speech to the grammar of the
caller's system dictionary, so a second user dictionary was printed with the
first one's parts of speech.
---
 dictionary/dicprinter.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 01ae3f6..aa3f678 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -13,7 +13,7 @@ import (
 )
 
 func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictionary, output io.Writer) error {
-	var grammar *Grammar
+	var posList [][]string
 
 	dic, err := NewBinaryDictionary(filename, utf16string)
 	if err != nil {
@@ -21,20 +21,19 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 	defer dic.Close()
 	if dic.Header.Version == SystemDictVersion {
-		grammar = dic.Grammar
+		posList = dic.Grammar.posList
 	} else if systemDict == nil {
 		return errors.New("the system dictionary is not specified")
 	} else {
-		grammar = systemDict.Grammar
+		posList = append(posList, systemDict.Grammar.posList...)
 		if dic.Header.Version == UserDictVersion2 {
-			grammar.AddPosList(dic.Grammar)
+			posList = append(posList, dic.Grammar.posList...)
 		}
 	}
 
-	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, 0, possize)
-	for pid := 0; pid < possize; pid++ {
-		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
+	posStrings := make([]string, 0, len(posList))
+	for _, pos := range posList {
+		posStrings = append(posStrings, strings.Join(pos, ","))
 	}
 
 	lexicon := dic.Lexicon
-- 
2.43.0


From c95bc6bbab9829aec2ed2f0e98f35adcee767222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 06/49] fix: print splits that the dictionary builder accepts

References from a user dictionary to its own words were printed as numbers
beyond the system dictionary, and words with B units only were printed as A
units: the builder refuses both.
---
 dictionary/dicprinter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index aa3f678..339900b 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -73,7 +73,7 @@ func wordIdToString(wid int) string {
 }
 
 func getUnitType(wi *WordInfo) string {
-	if len(wi.AUnitSplit) == 0 {
+	if len(wi.AUnitSplit) == 0 && len(wi.BUnitSplit) == 0 {
 		return "A"
 	} else if len(wi.BUnitSplit) == 0 {
 		return "B"
@@ -87,6 +87,11 @@ func splitToString(split []int32) string {
 	}
 	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
+		if uint32(i)>>28 > 0 {
+			// word of the user dictionary itself
+			splitstrs = append(splitstrs, "U"+strconv.Itoa(int(uint32(i)&0xfffffff)))
+			continue
+		}
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
 	return strings.Join(splitstrs, "/")
-- 
2.43.0


From 6666262affefcd3e1dce989c80b6104268ac6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 07/49] fix: escape commas, line ends and backslashes when
 printing a dictionary

A word such as "\u002c" was printed as a bare comma, so its line had the wrong
number of columns and could not be built again.
---
 dictionary/dicprinter.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 339900b..4e6b42b 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -33,7 +33,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 	posStrings := make([]string, 0, len(posList))
 	for _, pos := range posList {
-		posStrings = append(posStrings, strings.Join(pos, ","))
+		posStrings = append(posStrings, joinEscaped(pos))
 	}
 
 	lexicon := dic.Lexicon
@@ -47,14 +47,14 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 		fmt.Fprintf(output,
 			"%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n",
-			wi.Surface,
+			escapeField(wi.Surface),
 			leftId,
 			rightId,
 			cost,
-			wi.Surface,
+			escapeField(wi.Surface),
 			posStrings[int(wi.PosId)],
-			wi.ReadingForm,
-			wi.NormalizedForm,
+			escapeField(wi.ReadingForm),
+			escapeField(wi.NormalizedForm),
 			wordIdToString(int(wi.DictionaryFormWordId)),
 			unitType,
 			splitToString(wi.AUnitSplit),
@@ -65,6 +65,27 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	return nil
 }
 
+// escapeField writes the characters that would end or change a field of the
+// lexicon format as the escapes that the dictionary builder decodes.
+func escapeField(s string) string {
+	return fieldEscaper.Replace(s)
+}
+
+var fieldEscaper = strings.NewReplacer(
+	",", "\\u002c",
+	"\n", "\\u000a",
+	"\r", "\\u000d",
+	"\\", "\\u005c",
+)
+
+func joinEscaped(fields []string) string {
+	escaped := make([]string, 0, len(fields))
+	for _, f := range fields {
+		escaped = append(escaped, escapeField(f))
+	}
+	return strings.Join(escaped, ",")
+}
+
 func wordIdToString(wid int) string {
 	if wid < 0 {
 		return "*"
-- 
2.43.0


From 72616a6c12a0b56deb121ab28d216e2a9a9e6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 08/49] fix: treat an incomplete part of speech as unknown

A part of speech with fewer than six parts, such as an incomplete oovPOS in the
settings, made the lookup panic instead of being reported as invalid.
---
 dictionary/grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 66d88f0..d9a6c27 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -80,6 +80,9 @@ func (g *Grammar) GetPartOfSpeechString(posId int16) []string {
 }
 
 func (g *Grammar) GetPartOfSpeechId(pos []string) int16 {
+	if len(pos) < posDepth {
+		return int16(-1)
+	}
 L:
 	for i, p := range g.posList {
 		for j := 0; j < posDepth; j++ {
-- 
2.43.0


From 1d29a130de9be470112e879ecc0f04af0618260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 09/49] fix: find the system dictionary's parts of speech for
 user words

The user part-of-speech table passed all six parts joined to a lookup that
compares them one by one, so no part of speech of the system dictionary was
ever found: it was stored again as the user dictionary's own, and inline
references to system words failed.
---
 dictionary/dicbuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..0e9f46c 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -77,18 +77,14 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-- 
2.43.0


From bf290e01e7a71e4cbb6528aec884bead21ba3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 10/49] fix: load user dictionaries without a grammar

User dictionaries of the first format version have no part-of-speech table of
their own; loading one panicked.
---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..34acbad 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -131,7 +131,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil {
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From de9f94a856a4d743dac52d8281ea733e1ba34d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 11/49] fix: find shared suffixes in the right place when
 building a trie

Reading a bit of the intersection vector shifted by the bit's parity only, and
the rank did not count the bit itself, so tries with repeated values lost keys
or could not be built.
---
 dartsclone/bitvector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dartsclone/bitvector.go b/dartsclone/bitvector.go
index 8159da4..e979796 100644
--- a/dartsclone/bitvector.go
+++ b/dartsclone/bitvector.go
@@ -16,14 +16,14 @@ func newBitVector() *bitVector {
 }
 
 func (v *bitVector) get(id int) bool {
-	return v.units[id/unitLength]>>((uint(id)%unitLength)&1) == 1
+	return (v.units[id/unitLength]>>(uint(id)%unitLength))&1 == 1
 }
 
 func (v *bitVector) rank(id int) int {
 	const mask = uint32(0xffffffff)
 	unitId := id / unitLength
 	offset := uint(id % unitLength)
-	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<offset))
+	return v.ranks[unitId] + popCount(v.units[unitId]&(mask>>(unitLength-1-offset)))
 }
 
 func (v *bitVector) set(id int, bit bool) {
-- 
2.43.0


From 1544fcc66a03f5125baa5b52eeac5478811c9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 12/49] fix: report a key that is a prefix of the preceding one

Building a trie from keys in the wrong order read past the end of such a key
and panicked instead of returning an error.
---
 dartsclone/dawgbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 81a9d0b..2940fce 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -168,7 +168,7 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		}
 
 		var keyLabel byte
-		if keyPos <= keylen {
+		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
 		if keyPos < keylen && keyLabel == 0 {
-- 
2.43.0


From 54ee62103c69b67f7c41b81837f2c6de729f4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 13/49] fix: refuse null characters and empty keys wherever
 they occur

A null character was noticed only in the part of a key shared with the
preceding one, and an empty key only when values were given; otherwise a wrong
trie was built.
---
 dartsclone/dabuilder.go   | 5 +++++
 dartsclone/dawgbuilder.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dartsclone/dabuilder.go b/dartsclone/dabuilder.go
index b9fa608..bbbb9b8 100644
--- a/dartsclone/dabuilder.go
+++ b/dartsclone/dabuilder.go
@@ -109,6 +109,11 @@ func (dab *doubleArrayBuilder) build(ks *keySet) ([]uint32, error) {
 		dab.buildFromDAWGHeader(dawgBuilder)
 		dawgBuilder.clear()
 	} else {
+		for i := 0; i < ks.length(); i++ {
+			if len(ks.getKey(i)) == 0 {
+				return []uint32{}, fmt.Errorf("zero-length key")
+			}
+		}
 		err := dab.buildFromKeySetHeader(ks)
 		if err != nil {
 			return []uint32{}, err
diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 2940fce..1ee811e 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -157,6 +157,11 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 	if keylen == 0 {
 		return fmt.Errorf("zero-length key")
 	}
+	for _, k := range key {
+		if k == 0 {
+			return fmt.Errorf("invalid null character")
+		}
+	}
 
 	var id int
 	var keyPos int
-- 
2.43.0


From 2cde24259ba4ccc11a9cee5b3b1b194c6639769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 14/49] fix: continue a traversal from the given node

Traverse always started from the root's offset, so resuming from an earlier
result failed or answered for another key.
---
 dartsclone/da.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 9e7ca7f..6492519 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -233,7 +233,7 @@ type TraverseResult struct {
 func (da *DoubleArray) Traverse(key []byte, offset int, length int, nodePosition int) *TraverseResult {
 	nodePos := uint32(nodePosition)
 	id := nodePos
-	u := daunit(da.array[0])
+	u := daunit(da.array[int(id)])
 
 	for i := offset; i < length; i++ {
 		k := uint32(key[i])
-- 
2.43.0


From bde6fb580f2304a97526e6dfed8f92468aa2dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 15/49] fix: connect nodes whatever the cost of the path so far

The total cost was compared with the largest 32-bit number, so long texts of
costly words were reported as not connected.
---
 lattice.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lattice.go b/lattice.go
index 2568770..9ad8900 100644
--- a/lattice.go
+++ b/lattice.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"math"
 	"strings"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
@@ -228,7 +227,7 @@ func (l *Lattice) HasPreviousNode(index int) bool {
 
 func (l *Lattice) connectNode(rNode *LatticeNode) {
 	begin := rNode.Begin
-	rNode.totalCost = math.MaxInt32
+	rNode.bestPreviousNode = nil
 	for _, lNode := range l.endLists[begin] {
 		if !lNode.isConnectedToBOS {
 			continue
@@ -238,7 +237,7 @@ func (l *Lattice) connectNode(rNode *LatticeNode) {
 			continue // this connection is not allowed
 		}
 		cost := lNode.totalCost + int(connectCost)
-		if cost < rNode.totalCost {
+		if rNode.bestPreviousNode == nil || cost < rNode.totalCost {
 			rNode.totalCost = cost
 			rNode.bestPreviousNode = lNode
 		}
-- 
2.43.0


From b47fb877f5efa64af8fb49af492dcc122bd352dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 16/49] fix: keep the length of OOV words beyond 32767 bytes

The end of an OOV word was computed from its 16-bit headword length, so a long
run of characters of one category gave a wrong or negative end and a panic.
---
 mecaboovproviderplugin.go | 7 ++++---
 plugin.go                 | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..c28b56f 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -103,7 +103,7 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 			if cinfo.isGroup && (cinfo.isInvoke || !hasOtherWords) {
 				s := inputText.GetSubstring(offset, offset+length)
 				for _, oov := range *oovs {
-					nodes = append(nodes, p.getOovNode(s, oov, length))
+					nodes = append(nodes, p.getOovNode(s, oov, offset, length))
 				}
 				llength -= 1
 			}
@@ -115,7 +115,7 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 					}
 					s := inputText.GetSubstring(offset, offset+sublength)
 					for _, oov := range *oovs {
-						nodes = append(nodes, p.getOovNode(s, oov, sublength))
+						nodes = append(nodes, p.getOovNode(s, oov, offset, sublength))
 					}
 				}
 			}
@@ -124,9 +124,10 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 	return nodes, nil
 }
 
-func (p *MeCabOovProviderPlugin) getOovNode(text string, oov *oov, length int) *LatticeNode {
+func (p *MeCabOovProviderPlugin) getOovNode(text string, oov *oov, offset int, length int) *LatticeNode {
 	node := CreateNodeOfOOV()
 	node.SetParameter(oov.leftId, oov.rightId, oov.cost)
+	node.SetRange(offset, offset+length)
 	wi := &dictionary.WordInfo{
 		Surface:        text,
 		HeadwordLength: int16(length),
diff --git a/plugin.go b/plugin.go
index bfc0167..8c83254 100644
--- a/plugin.go
+++ b/plugin.go
@@ -230,6 +230,11 @@ func GetOOV(p OovProviderPlugin, inputText *InputText, offset int, hasOtherWords
 		return []*LatticeNode{}, err
 	}
 	for _, node := range nodes {
+		if node.Begin == offset && node.End > offset {
+			// The provider has set the range, which may be too long
+			// for the headword length.
+			continue
+		}
 		wi := node.GetWordInfo()
 		node.Begin = offset
 		node.End = offset + int(wi.HeadwordLength)
-- 
2.43.0


From 652d4f2b32cfe9cf3114e168d653cc06572abc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 17/49] fix: start each lattice empty

When a text could not be tokenized, its nodes stayed in the lattice and mixed
with those of the next text.
---
 tokenizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..dc1bcdc 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -97,6 +97,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 
 func (t *JapaneseTokenizer) buildLattice(input *InputText) error {
 	bytea := input.Bytea
+	t.lattice.clear()
 	t.lattice.resize(len(bytea))
 	for i, _ := range bytea {
 		if !input.CanBow(i) || !t.lattice.HasPreviousNode(i) {
-- 
2.43.0


From 22c149714752be2cbf51a726c775d1424870dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 18/49] fix: resolve paths against the default directory

The default was used only when an earlier document had set a path, which it
then overrode, and was ignored otherwise.
---
 settingsjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/settingsjson.go b/settingsjson.go
index 0c287da..75362e7 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,7 +42,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
-	if internalBaseConfig.Path == nil && settings.path != "" {
+	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
 		settings.path = *internalBaseConfig.Path
-- 
2.43.0


From e0cf02578759f47005045280a080980a8b232d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 19/49] fix: name each plugin by its own settings

The name and class read for one plugin were kept for the following ones, so a
plugin given by class after one given by name became the latter again.
---
 settingsjson.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 75362e7..42924f8 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -86,11 +86,11 @@ func (settings *SettingsJSON) getPath(path string) string {
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
 	ret := []InputTextPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.inputTextPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -117,11 +117,11 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 
 func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProviderPluginFunc) ([]OovProviderPlugin, error) {
 	ret := []OovProviderPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.oovProviderPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -148,11 +148,11 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 
 func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEditConnectionCostPluginFunc) ([]EditConnectionCostPlugin, error) {
 	ret := []EditConnectionCostPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.editConnectionCostPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -179,11 +179,11 @@ func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEdit
 
 func (settings *SettingsJSON) GetPathRewritePluginArray(makeproc MakePathRewritePluginFunc) ([]PathRewritePlugin, error) {
 	ret := []PathRewritePlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.pathRewritePlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
-- 
2.43.0


From 9d3d3a062e0c4948215c190339258f877f17bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 20/49] fix: read the inhibited pairs from the settings

The field was not exported, so the settings' inhibitedPair was never read.
---
 inhibitconnectioncostplugin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index e720e52..ac8c5d4 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -5,12 +5,12 @@ import (
 )
 
 type InhibitConnectionPlugin struct {
-	inhibitedPair []*[]int
+	InhibitedPair []*[]int
 }
 
 func NewInhibitConnectionPlugin(inhibitedPair []*[]int) *InhibitConnectionPlugin {
 	return &InhibitConnectionPlugin{
-		inhibitedPair: inhibitedPair,
+		InhibitedPair: inhibitedPair,
 	}
 }
 
@@ -23,8 +23,8 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 }
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
-	for _, pair := range p.inhibitedPair {
-		if len(*pair) < 2 {
+	for _, pair := range p.InhibitedPair {
+		if pair == nil || len(*pair) < 2 {
 			continue
 		}
 		InhibitConnection(grammar, int16((*pair)[0]), int16((*pair)[1]))
-- 
2.43.0


From fa0b9c8cb956769dc874880e45763e4fc0cd5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 21/49] fix: refuse inhibited pairs outside the connection
 matrix

Such a pair panicked or inhibited the connection of other ids.
---
 dictionary/grammar.go          | 6 ++++++
 inhibitconnectioncostplugin.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index d9a6c27..23da2f3 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -99,6 +99,12 @@ func (g *Grammar) GetPosId(posstrings ...string) int16 {
 	return g.GetPartOfSpeechId(posstrings)
 }
 
+// HasConnection tells whether the connection matrix has the pair of ids.
+func (g *Grammar) HasConnection(leftId int, rightId int) bool {
+	return leftId >= 0 && leftId < int(g.leftIdSize) &&
+		rightId >= 0 && rightId < int(g.rightIdSize)
+}
+
 func (g *Grammar) GetConnectCost(leftId int16, rightId int16) int16 {
 	s := g.connectTableOffset + int(leftId)*2 + 2*int(g.leftIdSize)*int(rightId)
 	_, cost := bufferToInt16(g.connectTableBytes, s)
diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index ac8c5d4..d0d29ac 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -1,6 +1,8 @@
 package gosudachi
 
 import (
+	"fmt"
+
 	"github.com/msnoigrs/gosudachi/dictionary"
 )
 
@@ -27,6 +29,9 @@ func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
 		if pair == nil || len(*pair) < 2 {
 			continue
 		}
+		if !grammar.HasConnection((*pair)[0], (*pair)[1]) {
+			return fmt.Errorf("InhibitConnectionPlugin: invalid inhibitedPair: %v", *pair)
+		}
 		InhibitConnection(grammar, int16((*pair)[0]), int16((*pair)[1]))
 	}
 	return nil
-- 
2.43.0


From fcd0e65856a0c1c7392833ac047da9141ec694e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 22/49] fix: replace prolonged sound marks by symbols of any
 length

The positions of later runs were computed as if the symbol were one character.
---
 prolongedsoundmarkinputtextplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prolongedsoundmarkinputtextplugin.go b/prolongedsoundmarkinputtextplugin.go
index cf1ccfb..c785a40 100644
--- a/prolongedsoundmarkinputtextplugin.go
+++ b/prolongedsoundmarkinputtextplugin.go
@@ -68,7 +68,7 @@ func (p *ProlongedSoundMarkInputTextPlugin) Rewrite(builder *InputTextBuilder) e
 		} else if isProlongedSoundMark && !ok {
 			if (i - markStartIndex) > 1 {
 				builder.Replace(markStartIndex-offset, i-offset, p.replacementSymbol)
-				offset += i - markStartIndex - 1
+				offset += i - markStartIndex - len(p.replacementSymbol)
 			}
 			isProlongedSoundMark = false
 		}
-- 
2.43.0


From acf88bd65c4de36efd8a97a520a4eac7898591ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 23/49] fix: refuse more words of one headword than can be
 stored

Their number is stored in one byte; with more than 255 the word-ID table was
corrupt.
---
 dictionary/dicbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 0e9f46c..eb0611e 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -658,6 +659,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		wordIds, _ := v.([]int32)
 		keys[i] = bkey
 		values[i] = position
+		if len(wordIds) > math.MaxUint8 {
+			return fmt.Errorf("too many words for one headword: %s", bkey)
+		}
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
 		if err != nil {
 			return err
-- 
2.43.0


From 7a1aa8bf54e26740c161d124b3d77cd5612811ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 24/49] fix: refuse strings whose length cannot be stored

Headwords of a UTF-16 dictionary were only limited in UTF-16 units although
their length is stored in bytes, parts of speech were not limited at all, and
converting a dictionary to UTF-8 truncated the length of long strings.
---
 dictionary/dicbuilder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index eb0611e..68bb704 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -307,7 +307,7 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			return fmt.Errorf("invalid format at line: columns length must be %d: at line %d", NumberOfColumns, r.numLine)
 		}
 
-		if dicbuilder.stringLen(cols[0]) {
+		if dicbuilder.stringLen(cols[0]) || utf8CountInString(cols[0]) {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
 		if dicbuilder.stringLen(cols[4]) {
@@ -421,6 +421,9 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
+	if utf8CountInString(s) {
+		return errors.New("string is too long")
+	}
 	err := writeStringLength(buffer, int16(len(s)))
 	if err != nil {
 		return err
@@ -435,6 +438,9 @@ func writeString(buffer *bytes.Buffer, s string) error {
 func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 	// java compatible
 	javainternal := utf16.Encode([]rune(s))
+	if len(javainternal) > StringUtf16MaxLength {
+		return errors.New("string is too long")
+	}
 
 	err := writeStringLength(buffer, int16(len(javainternal)))
 	if err != nil {
-- 
2.43.0


From 1fbb3070dac0ca2ef9eebef1e51c967d7290c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 25/49] fix: read code points with an odd number of hex digits

Ranges such as 0x20000..0x2A6DF were refused, and the upper bound of a range
lost its first two characters when it did not start with 0x.
---
 dictionary/charcategory.go | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 3714640..0f7136c 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -1,9 +1,9 @@
 package dictionary
 
 import (
-	"encoding/hex"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 	"unicode/utf8"
 
@@ -172,25 +172,12 @@ func decodeHexStrToInt32(s string) (int32, error) {
 	if len(s) < 3 {
 		return 0, fmt.Errorf("invalid hex string: too short")
 	}
-	src := []byte(s[2:])
-	dst := make([]byte, hex.DecodedLen(len(src)))
-	n, err := hex.Decode(dst, src)
+	if !strings.HasPrefix(s, "0x") {
+		return 0, fmt.Errorf("invalid hex string: %s", s)
+	}
+	ret, err := strconv.ParseUint(s[2:], 16, 31)
 	if err != nil {
 		return 0, err
 	}
-	if n > 4 {
-		return 0, fmt.Errorf("invalid hex string: too long")
-	}
-	var ret int32
-	switch n {
-	case 4:
-		ret = int32(dst[0])*16777216 + int32(dst[1])*65536 + int32(dst[2])*256 + int32(dst[3])
-	case 3:
-		ret = int32(dst[0])*65536 + int32(dst[1])*256 + int32(dst[2])
-	case 2:
-		ret = int32(dst[0])*256 + int32(dst[1])
-	case 1:
-		ret = int32(dst[0])
-	}
-	return ret, nil
+	return int32(ret), nil
 }
-- 
2.43.0


From 6e8560c6c4da1c71d96281fd66d0b4988602b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 26/49] fix: end a run of characters that have no category in
 common
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Each character was compared with the first one only, so a run could mix
characters that share no category, such as ーあア.
---
 inputtext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputtext.go b/inputtext.go
index 98ea4ad..e0c9e96 100644
--- a/inputtext.go
+++ b/inputtext.go
@@ -236,8 +236,8 @@ func getCharCategoryContinuousLength(charCategories []uint32, offset int) int {
 	continuousCategory := charCategories[offset]
 	var length int
 	for length = 1; length < len(charCategories)-offset; length++ {
-		cc := continuousCategory & charCategories[offset+length]
-		if cc == 0 {
+		continuousCategory &= charCategories[offset+length]
+		if continuousCategory == 0 {
 			return length
 		}
 	}
-- 
2.43.0


From 41f44f82002e32272c50a1d50f831763bd5219e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 27/49] fix: report files too short for a dictionary header

Reading the header of such a file panicked; a file without a valid header also
stayed open and mapped.
---
 dictionary/binarydict.go | 2 ++
 dictionary/dicheader.go  | 3 +++
 dictionary/dicprinter.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index f0c0953..25d130b 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -34,6 +34,8 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
 		return nil, fmt.Errorf("invalid header: %s", filename)
 	}
 
diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..43162d1 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -26,6 +26,9 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 }
 
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if len(input)-offset < HeaderStorageSize {
+		return nil
+	}
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 4e6b42b..8c4c5b6 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -137,6 +137,9 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
-- 
2.43.0


From 2f238a1de1ada1571e257d6cbaffa8d96dd0815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 28/49] fix: stop converting when the dictionary cannot be
 opened

The error was printed, and the converter then used the missing dictionary.
---
 dicconv/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..3ed2d09 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -65,6 +65,7 @@ Options:
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
-- 
2.43.0


From 2254f16ac8188d4a1ed2f5e0d624258f2ef280b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 29/49] fix: close the dictionaries when opening fails

When a user dictionary, a definition file or a plugin could not be set up, the
dictionaries read so far stayed open and mapped.
---
 dictionary.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 34acbad..7a51c96 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -25,7 +25,7 @@ type JapaneseDictionary struct {
 	dictionaries       []*dictionary.BinaryDictionary
 }
 
-func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugin, oovProviderPlugins []OovProviderPlugin, pathRewritePlugins []PathRewritePlugin, editConnectionCostPlugins []EditConnectionCostPlugin) (*JapaneseDictionary, error) {
+func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugin, oovProviderPlugins []OovProviderPlugin, pathRewritePlugins []PathRewritePlugin, editConnectionCostPlugins []EditConnectionCostPlugin) (_ *JapaneseDictionary, err error) {
 	if len(oovProviderPlugins) == 0 {
 		return nil, fmt.Errorf("no OOV provider")
 	}
@@ -36,7 +36,13 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 		pathRewritePlugins: pathRewritePlugins,
 	}
 
-	err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
+	defer func() {
+		if err != nil {
+			d.Close()
+		}
+	}()
+
+	err = d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
 	if err != nil {
 		return nil, fmt.Errorf("fail to read a system dictionary: %s", err)
 	}
-- 
2.43.0


From b922193448f75fd94be9e325eef95f5ff7046db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 30/49] fix: keep track of line ends across reads

After the LF of a CRLF at the end of a read, the byte behind the data read was
taken for the last character; when it was a CR left there by an earlier read,
an empty line at the start of the next read was lost.
---
 gosudachicli/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 9476437..538f53c 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -160,8 +160,8 @@ func (norm *normalizer) Read(p []byte) (n int, err error) {
 	for i := 0; i < n; i++ {
 		switch {
 		case p[i] == '\n' && norm.lastChar == '\r':
-			copy(p[i:n], p[i+1:])
-			norm.lastChar = p[i]
+			copy(p[i:n], p[i+1:n])
+			norm.lastChar = '\n'
 			n--
 			i--
 		case p[i] == '\r':
-- 
2.43.0


From a2b90886ef63b9a970209223a59bd93a7e8a7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 31/49] fix: write the output file completely

Exiting on an error lost what was still buffered for the -o file, and errors
of writing it were not reported at all.
---
 gosudachicli/main.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 538f53c..eabbee4 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -313,6 +313,7 @@ Options:
 	}
 
 	var output io.Writer
+	closeOutput := func() {}
 	if outputfile != "" {
 		if !filepath.IsAbs(outputfile) {
 			var err error
@@ -327,9 +328,17 @@ Options:
 			fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
 			os.Exit(1)
 		}
-		defer outputfd.Close()
 		bufiooutput := bufio.NewWriter(outputfd)
-		defer bufiooutput.Flush()
+		closeOutput = func() {
+			err := bufiooutput.Flush()
+			if err == nil {
+				err = outputfd.Close()
+			}
+			if err != nil {
+				fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
+				os.Exit(1)
+			}
+		}
 		output = bufiooutput
 	} else {
 		output = os.Stdout
@@ -389,12 +398,14 @@ Options:
 			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
+				closeOutput()
 				os.Exit(1)
 			}
 			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
 			input.Close()
 			if err != nil {
 				fmt.Fprintln(os.Stderr, err)
+				closeOutput()
 				os.Exit(1)
 			}
 		}
@@ -402,9 +413,11 @@ Options:
 		err = runFromReader(tokenizer, mode, os.Stdin, output, printall, ignoreerr)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
+			closeOutput()
 			os.Exit(1)
 		}
 	}
+	closeOutput()
 }
 
 func parseSettings(basePath string, settingfile string, mergeString string) (gosudachi.Settings, gosudachi.PluginMaker, error) {
-- 
2.43.0


From cd922875f6dca3841f1eaca933bc3358252eedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 32/49] fix: calculate the costs of all user words or report
 why not

The error of a word that cannot be segmented was dropped together with the
remaining words, which kept the lowest possible cost, and a word without a
surface form panicked.
---
 dictionary.go | 5 ++++-
 morpheme.go   | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 7a51c96..10051a2 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -123,7 +123,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -136,6 +136,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return fmt.Errorf("fail to calculate costs: %s: %s", filename, err)
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil {
 		d.grammar.AddPosList(dict.Grammar)
diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From 166cf25060079d2da4adf87659c4eaac73757dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 33/49] fix: check the size and the ids of the connection
 matrix

Ids beyond the size overwrote other connections or panicked, and so did a
negative size.
---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 68bb704..f0cba73 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -516,6 +516,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 	}
+	if leftSize <= 0 || rightSize <= 0 {
+		return fmt.Errorf("invalid matrix size at line %d", r.NumLine)
+	}
 	err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(leftSize))
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
@@ -559,6 +562,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("id is out of range: invalid format at line %d", r.NumLine)
+		}
 		cost, err := strconv.ParseInt(cols[2], 10, 16)
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
-- 
2.43.0


From 7f2b5d6e1d7ce392db86ff3bd92fa0a2326a9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 34/49] fix: check and follow dictionary-form references safely

A reference beyond the lexicon was accepted by the builder and panicked when
the word was read, and words referring to each other overflowed the stack.
---
 dictionary/dalexicon.go  | 3 +--
 dictionary/dicbuilder.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..614f214 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f0cba73..cfcccd0 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -820,6 +820,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 		if err != nil {
 			return err
 		}
+		if wi.DictionaryFormWordId >= int32(len(dicbuilder.wordEntries)) {
+			return fmt.Errorf("invalid word ID of the dictionary form: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint32(wi.DictionaryFormWordId))
 		if err != nil {
 			return err
-- 
2.43.0


From 9586f900641a6c793e245632a33b2f6f7f8979d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 35/49] fix: refuse parts of speech that cannot be stored

An escaped comma split a part of speech into too many strings, which shifted
everything behind it in the dictionary, and ids beyond 32767 overflowed.
---
 dictionary/dicbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index cfcccd0..4288398 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -345,7 +345,15 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		entry.Parameters[2] = int16(cols3)
 
 		// part of speech
+		for i := 5; i <= 10; i++ {
+			if strings.Contains(cols[i], ",") {
+				return fmt.Errorf("part of speech contains a comma: column %d at line %d", i, r.numLine)
+			}
+		}
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
+		}
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
-- 
2.43.0


From b57034de1e4df15d4be86c1d0fabac22a4f9ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 36/49] fix: decode an escape that follows an incomplete one

The backslash that ended an incomplete escape was not taken for the start of
the next one.
---
 dictionary/dicbuilder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 4288398..0a4fccb 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -179,13 +179,10 @@ func (r *lexiconReader) decode(s []byte) []byte {
 		i += width
 		switch rc {
 		case '\\':
-			if nmark >= 0 {
-				nmark = -1
-			} else {
-				r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
-				last = i - width
-				umark = runecount
-			}
+			nmark = -1
+			r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
+			last = i - width
+			umark = runecount
 		case 'u':
 			if nmark >= 0 {
 				nmark = -1
-- 
2.43.0


From f2282d77cdb57ea354430189e565315c91df2da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 37/49] fix: refuse negative dictionary-form references

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 0a4fccb..d3a6e83 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -376,6 +376,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			if err != nil {
 				return fmt.Errorf("%s: column 13 at line %d", err, r.numLine)
 			}
+			if cols13 < -1 {
+				return fmt.Errorf("invalid word ID of the dictionary form: column 13 at line %d", r.numLine)
+			}
 			dicFormWordId = int32(cols13)
 		}
 
-- 
2.43.0


From e92d92c75f33278f9d413d62b92c37d2354fb2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 38/49] fix: write the number of words of an empty lexicon

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index d3a6e83..2ab3800 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -754,6 +754,12 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 	if err != nil {
 		return err
 	}
+	n, err = dicbuilder.buffer.WriteTo(bwriter)
+	if err != nil {
+		return err
+	}
+	dicbuilder.position += n
+	dicbuilder.buffer.Reset()
 	for _, entry := range dicbuilder.wordEntries {
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(entry.Parameters[0]))
 		if err != nil {
-- 
2.43.0


From 94e801d474bb3fce8cf99044b0f60d258b2f7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 39/49] fix: do not take a comma after the decimal point as a
 separator

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index f80a862..faf61c6 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -183,7 +183,7 @@ func (p *numericParser) clear() {
 }
 
 func (p *numericParser) checkComma() bool {
-	if p.isFirstDigit {
+	if p.isFirstDigit || p.tmp.point >= 0 {
 		return false
 	} else if !p.hasComma {
 		return p.digitLength <= 3 && !p.tmp.isZero() && !p.tmp.IsAllZero
-- 
2.43.0


From c8d0c56838eb2a844afdf878b3631b538987dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 40/49] fix: check separators and points before numeral units

---
 numericparser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/numericparser.go b/numericparser.go
index faf61c6..4d5f31d 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -222,6 +222,15 @@ func (p *numericParser) append(c rune) bool {
 	if !ok {
 		return false
 	}
+	if n < 0 {
+		if p.hasHangingPoint {
+			p.errorState = errPoint
+			return false
+		} else if p.hasComma && !p.checkComma() {
+			p.errorState = errComma
+			return false
+		}
+	}
 	if n < 0 && n >= -3 { // isSmallUnit
 		p.tmp.shiftScale(-n)
 		if !p.subtotal.add(p.tmp) {
-- 
2.43.0


From eb63fefc2affa045b02ee1817c7b2eb59da0ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 41/49] fix: do not join a numeral that does not add up before
 a hanging separator

---
 numericparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numericparser.go b/numericparser.go
index 4d5f31d..b3b1bb4 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -264,7 +264,9 @@ func (p *numericParser) append(c rune) bool {
 }
 
 func (p *numericParser) done() bool {
-	ret := p.subtotal.add(p.tmp) && p.total.add(p.subtotal)
+	if !p.subtotal.add(p.tmp) || !p.total.add(p.subtotal) {
+		return false
+	}
 	if p.hasHangingPoint {
 		p.errorState = errPoint
 		return false
@@ -272,7 +274,7 @@ func (p *numericParser) done() bool {
 		p.errorState = errComma
 		return false
 	}
-	return ret
+	return true
 }
 
 func (p *numericParser) getNormalized() string {
-- 
2.43.0


From b0e6cb4b0e8e7780552ce839e2cc1b457bff3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 42/49] fix: refuse OOV words with ids outside the connection
 matrix

---
 mecaboovproviderplugin.go  | 3 +++
 simpleoovproviderplugin.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index c28b56f..cdf9d3b 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -248,6 +248,9 @@ func (p *MeCabOovProviderPlugin) readOov(unkDef string, grammar *dictionary.Gram
 		if err != nil {
 			return fmt.Errorf("unk.def: %s is invalid number at line %d", cols[2], r.NumLine)
 		}
+		if !grammar.HasConnection(int(rightId), int(leftId)) {
+			return fmt.Errorf("unk.def: the connection matrix does not have the ids at line %d", r.NumLine)
+		}
 		cost, err := strconv.ParseInt(cols[3], 10, 16)
 		if err != nil {
 			return fmt.Errorf("unk.def: %s is invalid number at line %d", cols[3], r.NumLine)
diff --git a/simpleoovproviderplugin.go b/simpleoovproviderplugin.go
index 5de2b48..347a1bc 100644
--- a/simpleoovproviderplugin.go
+++ b/simpleoovproviderplugin.go
@@ -57,6 +57,9 @@ func (p *SimpleOovProviderPlugin) SetUp(grammar *dictionary.Grammar) error {
 	if oovPosId < 0 {
 		return fmt.Errorf("SimpleOovProviderPlugin: oovPOS is invalid")
 	}
+	if !grammar.HasConnection(int(*p.config.RightId), int(*p.config.LeftId)) {
+		return fmt.Errorf("SimpleOovProviderPlugin: leftId or rightId is invalid")
+	}
 	p.oovPosId = oovPosId
 	p.leftId = *p.config.LeftId
 	p.rightId = *p.config.RightId
-- 
2.43.0


From d966541b85ee657e945d6b5f13cea92302dac45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 43/49] fix: treat an overlong part of speech as unknown

---
 dictionary/grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 23da2f3..51bcf9b 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -80,7 +80,7 @@ func (g *Grammar) GetPartOfSpeechString(posId int16) []string {
 }
 
 func (g *Grammar) GetPartOfSpeechId(pos []string) int16 {
-	if len(pos) < posDepth {
+	if len(pos) != posDepth {
 		return int16(-1)
 	}
 L:
-- 
2.43.0


From 1383e63c9d74e30dedb6e94d60c7589b4d8658ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 44/49] fix: report failed writes to standard output

---
 gosudachicli/main.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index eabbee4..dbc45c2 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -225,6 +225,21 @@ func (s *lineScanner) Text() string {
 	return string(s.line)
 }
 
+// errWriter remembers the first error of its writer.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errWriter) Write(p []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	n, err := e.w.Write(p)
+	e.err = err
+	return n, err
+}
+
 func runFromReader(tokenizer *gosudachi.JapaneseTokenizer, mode string, input io.Reader, output io.Writer, printAll bool, ignoreError bool) error {
 	s := newLineScanner(input)
 	for s.Scan() {
@@ -341,7 +356,14 @@ Options:
 		}
 		output = bufiooutput
 	} else {
-		output = os.Stdout
+		stdout := &errWriter{w: os.Stdout}
+		closeOutput = func() {
+			if stdout.err != nil {
+				fmt.Fprintln(os.Stderr, stdout.err)
+				os.Exit(1)
+			}
+		}
+		output = stdout
 	}
 
 	settings, pluginmaker, err := parseSettings(resourcesdir, settingfile, mergesettings)
-- 
2.43.0


From 88a335785fdf5958ea196f3d88f44205f7823580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 45/49] fix: trie without keys has no nodes below its root

Unused units are labelled with an offset that no node uses. In a trie
without keys that was the offset of the root, so that a stepwise traversal
found nodes below it.
---
 dartsclone/dabuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dartsclone/dabuilder.go b/dartsclone/dabuilder.go
index bbbb9b8..cc75f99 100644
--- a/dartsclone/dabuilder.go
+++ b/dartsclone/dabuilder.go
@@ -182,6 +182,8 @@ func (dab *doubleArrayBuilder) buildFromDAWGHeader(db *dawgBuilder) {
 
 	if db.child(dawgRoot) != 0 {
 		dab.buildFromDAWGInsert(db, dawgRoot, 0)
+	} else {
+		dab.getExtras(1).isUsed = true
 	}
 
 	dab.fixAllBlocks()
@@ -279,6 +281,8 @@ func (dab *doubleArrayBuilder) buildFromKeySetHeader(ks *keySet) error {
 		if err != nil {
 			return err
 		}
+	} else {
+		dab.getExtras(1).isUsed = true
 	}
 
 	dab.fixAllBlocks()
-- 
2.43.0


From 6e74ea205abe500855c4915c92811c00f63d9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 46/49] fix: user dictionaries with too many parts of speech in
 total are refused

---
 dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 10051a2..bdf1a96 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/msnoigrs/gosudachi/data"
@@ -115,6 +116,10 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 
 	d.dictionaries = append(d.dictionaries, dict)
 
+	if dict.Grammar != nil && d.grammar.GetPartOfSpeechSize()+dict.Grammar.GetPartOfSpeechSize() > math.MaxInt16+1 {
+		return fmt.Errorf("too many parts of speech: %s", filename)
+	}
+
 	userLexicon := dict.Lexicon
 	tokenizer := NewJapaneseTokenizer(
 		d.grammar,
-- 
2.43.0


From 222d7c2b3f8143420374e9c0321afc3bf914cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 47/49] fix: a failed write of word infos is reported

---
 dictionary/dalexicon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 614f214..9d4249d 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -351,6 +351,9 @@ func (lexicon *DoubleArrayLexicon) WriteWordInfos(writer io.Writer, offset int64
 			return 0, offsets, err
 		}
 		n, err := buffer.WriteTo(writer)
+		if err != nil {
+			return 0, offsets, err
+		}
 		buffer.Reset()
 		position += n
 	}
-- 
2.43.0


From 01b009b93ca085abd43eda6e867f33f71a498dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 48/49] fix: failed writes of printed dictionaries and headers
 are reported

---
 dictionary/dicprinter.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 8c4c5b6..c9b4710 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -12,8 +12,25 @@ import (
 	"github.com/msnoigrs/gosudachi/internal/mmap"
 )
 
+// errorWriter remembers the first error of its writer.
+type errorWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errorWriter) Write(p []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	n, err := e.w.Write(p)
+	e.err = err
+	return n, err
+}
+
 func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictionary, output io.Writer) error {
 	var posList [][]string
+	ew := &errorWriter{w: output}
+	output = ew
 
 	dic, err := NewBinaryDictionary(filename, utf16string)
 	if err != nil {
@@ -61,6 +78,9 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 			splitToString(wi.BUnitSplit),
 			splitToString(wi.WordStructure),
 		)
+		if ew.err != nil {
+			return ew.err
+		}
 	}
 	return nil
 }
@@ -141,6 +161,8 @@ func PrintHeader(dictfile string, output io.Writer) error {
 		return fmt.Errorf("invalid header: %s", dictfile)
 	}
 
+	ew := &errorWriter{w: output}
+	output = ew
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
 	switch dh.Version {
@@ -158,5 +180,5 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
 	fmt.Fprintf(output, "description: %s\n", dh.Description)
 
-	return nil
+	return ew.err
 }
-- 
2.43.0


From ab8f28b0d4d8587593c536440372b5a979823b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 49/49] fix: a failure to read the size line of a matrix is
 reported

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 2ab3800..cbea57c 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -509,6 +509,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err == io.EOF {
 		return fmt.Errorf("invalid format at line %d", r.NumLine)
 	}
+	if err != nil {
+		return err
+	}
 
 	fmt.Fprint(os.Stderr, "writing the connection matrix...")
 
-- 
2.43.0

