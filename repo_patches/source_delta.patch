From 79f91dcd9242a7c39b4aff7d45111f611f37cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 01/70] fix: compute header string offsets without uint8
 wrap-around

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..6b8c88e 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := uint32(self.Data[28])
+	familyLen := uint32(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := uint32(self.Data[28])
+	familyLen := uint32(self.Data[29 + nameLen])
+	authorLen := uint32(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := uint32(self.Data[28])
+	familyLen := uint32(self.Data[29 + nameLen])
+	authorLen := uint32(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 29f48b2385acc758d995ea6a6a53fa3ac69b4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 02/70] fix: compare glyph names lexicographically in name
 searches

---
 font.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/font.go b/font.go
index 6b8c88e..18ede8e 100644
--- a/font.go
+++ b/font.go
@@ -495,12 +495,7 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 }
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
-	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
-		if bytes[i] > str[i] { return false }
-	}
-	if len(bytes) == len(str) { return false } // equal
-	return true // smaller
+	return string(bytes) < str // no allocation, compiler optimized comparison
 }
 
 func bytesEqStr(bytes []byte, str string) bool {
-- 
2.43.0


From d11ba474180590194dcffffb472c76feb7438d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 03/70] fix: read mapping group glyphs and animation flags at
 their encoded positions

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 18ede8e..73907db 100644
--- a/font.go
+++ b/font.go
@@ -702,7 +702,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
@@ -728,7 +728,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From 772776a625a9c59420c1e8aa37fe91642d0748ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 04/70] fix: test the range flag on the group info byte when
 skipping switch cases

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 73907db..acb4ee6 100644
--- a/font.go
+++ b/font.go
@@ -830,7 +830,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -901,7 +901,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From 7a19fa041db9054f4c4306543bc4f8d4a3dc6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 05/70] fix: index rewrite condition end offsets as uint16
 entries

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index acb4ee6..f880c71 100644
--- a/font.go
+++ b/font.go
@@ -954,9 +954,9 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1) : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey - 1) << 1) : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
 	endOffset -= 1 // we will evaluate from last to first
-- 
2.43.0


From fa37fdc4a5c8601b3a38768322bb7fb11164195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 06/70] fix: let rewrite conditions end at their last byte and
 short-circuit over the remaining terms only

---
 font.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/font.go b/font.go
index f880c71..6d3e72c 100644
--- a/font.go
+++ b/font.go
@@ -966,7 +966,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-	if endDataIndex != maxDataIndex { panic(brokenCode) }
+	if endDataIndex != maxDataIndex + 1 { panic(invalidFontData) }
 	return satisfied
 
 	// - 0b000X_XXXX: `OR` condition group. The X's indicate the number of terms in the expression (can't be < 2).
@@ -985,12 +985,10 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		for i := uint8(0); i < numTerms; i++ {
 			var satisfied bool
 			dataIndex, satisfied = self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1002,12 +1000,10 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		for i := uint8(0); i < numTerms; i++ {
 			var satisfied bool
 			dataIndex, satisfied = self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
@@ -1066,7 +1062,6 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		numTerms := (ctrl & 0b0001_1111)
 		for i := uint8(0); i < numTerms; i++ {
 			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 		}
 		return dataIndex
 	case 0b0010_0000: // AND
@@ -1074,7 +1069,6 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		numTerms := (ctrl & 0b0001_1111)
 		for i := uint8(0); i < numTerms; i++ {
 			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-- 
2.43.0


From 769eb27812acfc477a226fa539266a5370519d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 07/70] fix: compare the setting value, not its index, in
 rewrite condition comparisons

---
 font.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/font.go b/font.go
index 6d3e72c..15ec7d6 100644
--- a/font.go
+++ b/font.go
@@ -1017,13 +1017,14 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
+		value := settings[setting]
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, value == operand
+		case 0b001: return dataIndex + 3, value != operand
+		case 0b010: return dataIndex + 3, value  < operand
+		case 0b011: return dataIndex + 3, value  > operand
+		case 0b100: return dataIndex + 3, value <= operand
+		case 0b101: return dataIndex + 3, value >= operand
 		default:
 			panic(invalidFontData)
 		}
-- 
2.43.0


From 6632ec127c8766381d4c1c0cc8f5c1b6ef1f2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 08/70] fix: reject out of range settings in rewrite conditions

---
 font.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/font.go b/font.go
index 15ec7d6..1d41061 100644
--- a/font.go
+++ b/font.go
@@ -1011,10 +1011,10 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		return dataIndex, true
 	case 0b0100_0000: // comparison
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
 		value := settings[setting]
@@ -1031,22 +1031,22 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
@@ -1073,9 +1073,9 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if self.Data[dataIndex + 2] > numSettings { panic(invalidFontData) } // discretionary assertion
+			if self.Data[dataIndex + 2] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		}
 		switch (ctrl & 0b0000_1111) {
 		case 0b000: return dataIndex + 3
@@ -1088,16 +1088,16 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1000_0000: // quick comparison `setting != const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1010_0000: // quick comparison `setting < const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1100_0000: // quick comparison `setting > const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From 1c658e8fdc30af46f075d6414539bbaa95016695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 09/70] fix: iterate the whole output sequence of rewrite rules

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 1d41061..c6771b3 100644
--- a/font.go
+++ b/font.go
@@ -1114,7 +1114,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1152,7 +1152,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From 3602ff1e809e97ab86d1a100c4b7ee44c3bbb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 10/70] fix: iterate every utf8 set range with its actual size
 byte

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index c6771b3..2fa7d13 100644
--- a/font.go
+++ b/font.go
@@ -1232,9 +1232,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From c20b0b1a0aa0c22488e26740f6ed5e44c39fa64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 11/70] fix: include the rewrite rules section in font
 validation

---
 font.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/font.go b/font.go
index 2fa7d13..0ed672d 100644
--- a/font.go
+++ b/font.go
@@ -68,6 +68,8 @@ func (self *Font) Validate(mode FmtValidation) error {
 	if err != nil { return err }
 	err = self.Mapping().Validate(mode)
 	if err != nil { return err }
+	err = self.Rewrites().Validate(mode)
+	if err != nil { return err }
 	err = self.Kerning().Validate(mode)
 	if err != nil { return err }
 
-- 
2.43.0


From ac7e0a1a6fbc0e74690bccdefe27469badd06575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 12/70] fix: check read errors of rewrite rule sizes and
 kerning pair counts while parsing

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 37537b5..2649747 100644
--- a/parse.go
+++ b/parse.go
@@ -384,6 +384,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -404,6 +405,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -426,6 +428,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -438,6 +441,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From 06e687944aee67417cbc3f34589f1a8c36976dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 13/70] fix: detect any data beyond the expected end of the
 file

---
 internal/parsing_buffer.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..ad0df36 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,15 +38,14 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
-		return errors.New("file continues beyond the expected end")
+	for {
+		if len(self.Bytes) > self.Index {
+			return errors.New("file continues beyond the expected end")
+		}
+		if self.eof { return nil }
+		err := self.readMore()
+		if err != nil { return err }
 	}
-	if !self.eof { panic("broken code") }
-	return nil
 }
 
 // utility function called to read more data
-- 
2.43.0


From f8a1a794afb98f4b9ddb8a9f61654b674af9a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 14/70] fix: read the whole file signature even if the reader
 returns it in chunks

---
 builder/font_builder.go | 2 +-
 parse.go                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..8dd8bbe 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -696,7 +696,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		return parser.NewError("failed to read file signature")
 	}
diff --git a/parse.go b/parse.go
index 2649747..7ce1c3f 100644
--- a/parse.go
+++ b/parse.go
@@ -52,7 +52,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
-- 
2.43.0


From 9ace6bea1d6d751dd55e9c3223a8991644f0c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 15/70] fix: close the font file when it can't be inspected or
 is too big

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 7ce1c3f..3b4d006 100644
--- a/parse.go
+++ b/parse.go
@@ -16,8 +16,12 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
-- 
2.43.0


From 4737cda54c93046a2c450d86e2286979aa67e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:19 +0000
Subject: [PATCH 16/70] fix: accept fonts with exactly 254 mapping switches

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 3b4d006..b895c61 100644
--- a/parse.go
+++ b/parse.go
@@ -277,7 +277,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From 0f6951efe7dc3721f68bb6e3234eea7a236813ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 17/70] fix: don't reject fonts with complex glyph masks

---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index b895c61..73017e0 100644
--- a/parse.go
+++ b/parse.go
@@ -200,9 +200,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
+	// note: no upper bound check, mask sizes are only limited by the max font size
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 8e843f865aac82dedc516c51a4d5328bb542a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 18/70] fix: don't reject fonts with small rewrite sets

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 73017e0..587939b 100644
--- a/parse.go
+++ b/parse.go
@@ -351,7 +351,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -369,7 +369,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From 28028f0867f4ec400194aab94e108e7550652fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 19/70] fix: accept rewrite rules of any size allowed by the
 format

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 587939b..8868c39 100644
--- a/parse.go
+++ b/parse.go
@@ -390,7 +390,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*(8 + 255*4 + 255*5) {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -411,7 +411,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*(8 + 255*2 + 255*3) {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From b6668800d527ea3d74f52f87076792f8ab55a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 20/70] fix: reject fonts exceeding the maximum number of
 glyphs

---
 font.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/font.go b/font.go
index 0ed672d..283c197 100644
--- a/font.go
+++ b/font.go
@@ -3,6 +3,7 @@ package ggfnt
 import "io"
 import "fmt"
 import "errors"
+import "strconv"
 import "image"
 import "image/color"
 import "compress/gzip"
@@ -219,6 +220,7 @@ func (self *FontMetrics) VertLineGap() uint8 {
 func (self *FontMetrics) Validate(mode FmtValidation) error {
 	// default checks
 	if self.NumGlyphs() == 0 { return errors.New("font must define at least one glyph") }
+	if self.NumGlyphs() > MaxGlyphs { return errors.New("font can't define more than " + strconv.Itoa(MaxGlyphs) + " glyphs") }
 	err := internal.BoolErrCheck(self.Data[self.OffsetToMetrics + 2])
 	if err != nil { return err }
 	if self.Ascent() == 0 { return errors.New("Ascent can't be zero") }
-- 
2.43.0


From a82eb74d197e8be17dd7be2647003c15ddc71942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 21/70] fix: don't panic when validating dates without a month

---
 date.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/date.go b/date.go
index 3d631b0..b3c3d1a 100644
--- a/date.go
+++ b/date.go
@@ -26,6 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
+	if self.Month == 0 { return true } // (no day either, already checked)
 	if self.Day > self.monthDays() { return false }
 	return true
 }
-- 
2.43.0


From 1b106f34e619b7e41f6edba250fe30eb4a6ebc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 22/70] fix: build vertical kerning values from the vertical
 kerning pairs

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 8dd8bbe..efb2c26 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -652,7 +652,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From 3c3dca0e09783b08d55725c98a9eae30ba9a9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 23/70] fix: encode setting words in a consistent,
 deterministic order

---
 builder/font_builder.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index efb2c26..dc5c921 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -372,21 +372,25 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	font.OffsetToWords = uint32(len(data))
 	data = append(data, numWords)
 	if len(words) > 0 {
-		wordsList := make([]string, len(words))
-		for word, index := range words {
-			wordsList[index] = word
+		// sort words and update their indices accordingly
+		wordsList := make([]string, 0, len(words))
+		for word, _ := range words {
+			wordsList = append(wordsList, word)
 		}
 		slices.Sort(wordsList)
+		for index, word := range wordsList {
+			words[word] = int16(index)
+		}
 
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
-- 
2.43.0


From 73b39ef624382e6e15cbd2c1ec2bbda42ef2d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 24/70] fix: don't let dye and palette name offsets overflow on
 build

---
 builder/font_builder.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index dc5c921..85124ca 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -254,10 +254,11 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		data = append(data, uint8(clrIndex))
 	}
 	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
-	var clrSectionNameOffset uint16
+	var clrSectionNameOffset int
 	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
-		data = internal.AppendUint16LE(data, clrSectionNameOffset)
+		clrSectionNameOffset += len(self.dyes[i].name)
+		if clrSectionNameOffset > 65535 { return nil, errors.New("dye names exceed 65535 bytes") }
+		data = internal.AppendUint16LE(data, uint16(clrSectionNameOffset))
 	}
 	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
 
@@ -276,8 +277,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		}
 	}
 	for i, _ := range self.palettes { // PaletteNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.palettes[i].name))
-		data = internal.AppendUint16LE(data, clrSectionNameOffset)
+		clrSectionNameOffset += len(self.palettes[i].name)
+		if clrSectionNameOffset > 65535 { return nil, errors.New("palette names exceed 65535 bytes") }
+		data = internal.AppendUint16LE(data, uint16(clrSectionNameOffset))
 	}
 	for i, _ := range self.palettes { // PaletteNames
 		data = append(data, self.palettes[i].name...)
-- 
2.43.0


From d3d5435d05c4a8e8eebbd2ab4f3a896496253b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 25/70] fix: don't let glyph mask and mapping offsets overflow
 on build

---
 builder/font_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 85124ca..02a14a1 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -351,6 +351,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 { return nil, errors.New("glyph masks exceed maximum allowed size of 16MiB") }
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
@@ -488,6 +489,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			data, scratchBuffer, err = mapping.AppendTo(data, self.tempGlyphIndexLookup, scratchBuffer)
 			if err != nil { return nil, err }
 			offset += len(data) - preLen
+			if offset > 16777215 { return nil, errors.New("mappings exceed maximum allowed size of 16MiB") }
 
 			// append offset
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
-- 
2.43.0


From cf75ba24fb35368a541994e196e0f4a8c0a1f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 26/70] fix: reject empty font names, as they can't be parsed
 back

---
 builder/font_builder_props.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..bccc5a8 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -69,6 +69,7 @@ func (self *Font) SetVersion(major, minor uint16) {
 func (self *Font) GetName() string { return self.fontName }
 func (self *Font) SetName(name string) error {
 	if len(name) > 255 { return errors.New("font name can't exceed 255 bytes") }
+	if name == "" { return errors.New("font name can't be empty") }
 	err := checkStringValidity(name)
 	if err != nil { return err }
 	self.fontName = name
-- 
2.43.0


From c9454436cbfb0f573c81f1ebcf095d3fe5453100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 27/70] fix: report vert interspacing without vert layout as a
 metrics error

---
 builder/font_builder_props.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index bccc5a8..1235db3 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -113,6 +113,7 @@ func (self *Font) GetMetricsStatus() error {
 	if self.ascent < self.midlineAscent { return errors.New("ascent must be equal or greater than midline ascent") }
 	if self.ascent < self.uppercaseAscent { return errors.New("ascent must be equal or greater than uppercase ascent") }
 	if self.midlineAscent > self.uppercaseAscent { return errors.New("midline ascent must be equal or greater than uppercase ascent") }
+	if self.vertInterspacing != 0 && !self.hasVertLayout { return errors.New("vert interspacing can't be set without vert layout") }
 	return nil
 }
 
-- 
2.43.0


From 396e1e5a6bcffabd50eb401e406669bd546910ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 28/70] fix: reject empty dyes and palettes, as they can't be
 parsed back

---
 builder/font_builder_color.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..c20930e 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -31,6 +31,9 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 }
 
 func (self *Font) AddDye(name string, alphas ...uint8) error {
+	if name == "" { return errors.New("dye name can't be empty") }
+	if len(alphas) == 0 { return errors.New("dye must have at least one alpha value") }
+
 	// ensure no name collisions
 	err := self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
@@ -80,6 +83,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 }
 
 func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
+	if name == "" { return errors.New("palette name can't be empty") }
+	if len(colors) == 0 { return errors.New("palette must have at least one color") }
+
 	// ensure no name collisions
 	err := self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
-- 
2.43.0


From 54c961fe495a1f1be5adf531e883bfba701d0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 29/70] fix: reject settings without options, as they can't be
 parsed back

---
 builder/font_builder_settings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..0b1ac6d 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -86,6 +86,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) == 0 {
+		return 0, errors.New("setting must have at least one option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
-- 
2.43.0


From c445a046963c5d1884390ab900767bb8820fed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 30/70] fix: reject mapping switches with more cases than
 allowed

---
 builder/font_builder_mapping.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..7a4a815 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -33,6 +33,14 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 		newSettings = append(newSettings, uint8(setting))
 	}
 
+	numCases := 1
+	for _, setting := range newSettings {
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
+	}
+
 	key := uint8(len(self.mappingSwitches))
 	self.mappingSwitches = append(self.mappingSwitches, mappingSwitchEntry{ Settings: newSettings })
 	return key, nil
-- 
2.43.0


From 353b3e11134a3ba5301c98eb4182a51f29153fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 31/70] fix: validate glyphs and align animation flags when
 mapping with switches

---
 builder/font_builder_mapping.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 7a4a815..c5b10a5 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -195,6 +195,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
@@ -226,7 +229,13 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
-		if len(group) == 1 { continue }
+		if len(group) > 127 { return errors.New("glyph groups can't exceed 127 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
+		if len(group) == 1 {
+			finalAnimFlags = append(finalAnimFlags, 0)
+			continue
+		}
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
 		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
 		animFlagIndex += 1
-- 
2.43.0


From 519ef43278e6b08ec68b696e48c13ab7c366dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 32/70] fix: preserve the glyph order of mapping groups on
 build

---
 builder/font_builder_mapping.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index c5b10a5..3f16844 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,6 +1,5 @@
 package builder
 
-import "slices"
 import "errors"
 import "fmt"
 
@@ -107,8 +106,6 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0


From 462abf90cde6292d6971ffda6163a80c54a1bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 33/70] fix: don't retain caller slices in the font builder

---
 builder/font_builder_mapping.go       | 5 +++--
 builder/font_builder_rewrite_rules.go | 5 +++--
 builder/font_builder_settings.go      | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 3f16844..ee04d4e 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,5 +1,6 @@
 package builder
 
+import "slices"
 import "errors"
 import "fmt"
 
@@ -161,7 +162,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -243,7 +244,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..2dd8380 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,5 +1,6 @@
 package builder
 
+import "slices"
 import "errors"
 
 import "github.com/tinne26/ggfnt/internal"
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -273,7 +274,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 0b1ac6d..63eed3a 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,5 +1,6 @@
 package builder
 
+import "slices"
 import "errors"
 
 import "github.com/tinne26/ggfnt"
@@ -104,6 +105,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From 121791f3f1f9b0b579b2fd4752577a62b022819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 34/70] fix: actually remove set ranges and elements on removal

---
 builder/font_builder_rewrite_sets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..cfb2ae7 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -110,7 +110,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -150,7 +150,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -220,7 +220,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -257,7 +257,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From 3c5d1b141720137c44ea4c7ab3f719268f66bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 35/70] fix: keep the glyph sets order consistent on set
 removal

---
 builder/font_builder_rewrite_sets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index cfb2ae7..3ccfdf1 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -78,6 +78,7 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	self.glyphSetsOrder = slices.DeleteFunc(self.glyphSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
-- 
2.43.0


From 22f36063e969d8d3241f3fff04154c12ec845893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 36/70] fix: create and remove rune sets consistently

---
 builder/font_builder_rewrite_sets.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 3ccfdf1..43da3c0 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -179,11 +179,13 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
+	self.runeSetsOrder = append(self.runeSetsOrder, uid)
 	return uid, nil
 }
 
@@ -191,6 +193,7 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 	_, found := self.rewriteRuneSets[setUID]
 	if !found { return false }
 	delete(self.rewriteRuneSets, setUID)
+	self.runeSetsOrder = slices.DeleteFunc(self.runeSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
-- 
2.43.0


From d6e5b08bdcd11c3d76a196cd3d7bfd6b9255f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 37/70] fix: reject glyph rewrite rules with an empty body

---
 builder/font_builder_rewrite_rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 2dd8380..b79ffb2 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -233,7 +233,7 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	headBodyLen := headLen + bodyLen
 	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
 		return errors.New("rewrite rule exceeds 255 input elements")
-- 
2.43.0


From b07b349765637adebdb56c899ae4e80e62f398fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 38/70] fix: reject basic names with consecutive hyphens

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index ad0df36..4370a0c 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -198,7 +198,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From d58cb57a092757ca6fafde07479682e4d48184b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 39/70] fix: allow building glyph sets with exactly 255 ranges
 or elements

---
 builder/font_builder_rewrite_sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 43da3c0..d4f2e34 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
-- 
2.43.0


From 7eef343217c51d5b6e152b8d5abbee1cc2209506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 40/70] fix: iterate builder dye and palette sections without
 spurious errors or panics

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index c20930e..ba6093c 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -23,6 +23,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -75,8 +76,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From 4fd9bb5bbfcc690c34938f5367a2e7b31b18302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 41/70] fix: reject edition data with out of range kerning
 glyphs or classes

---
 builder/font_builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 02a14a1..be8ca05 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -765,7 +765,13 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair references undefined kerning class")
+		}
 		
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair references undefined glyph")
+		}
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
 		kerningPair, found := self.horzKerningPairs[[2]uint64{first, second}]
@@ -788,7 +794,13 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair references undefined kerning class")
+		}
 		
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair references undefined glyph")
+		}
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
 		kerningPair, found := self.vertKerningPairs[[2]uint64{first, second}]
-- 
2.43.0


From f153b017c6c1ee102088edf2bed638acdb9c19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 42/70] fix: remove class-only kerning pairs when clearing
 edition data

---
 builder/font_builder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index be8ca05..e3686f3 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -843,11 +843,13 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
+	for key, kerningPair := range self.horzKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { delete(self.horzKerningPairs, key) } // only existed due to its class
 	}
-	for _, kerningPair := range self.vertKerningPairs {
+	for key, kerningPair := range self.vertKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { delete(self.vertKerningPairs, key) } // only existed due to its class
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0


From e26dde254d4b188cf14f4ea09d957087491304b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 43/70] fix: don't retain caller glyph masks in the font
 builder

---
 builder/font_builder_props.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 1235db3..40204cf 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -3,6 +3,7 @@ package builder
 import "fmt"
 import "image"
 import "errors"
+import "slices"
 import "unicode/utf8"
 
 import "github.com/tinne26/ggfnt"
@@ -211,7 +212,11 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 					BottomAdvance: self.descent,
 					HorzCenter: uint8(min(255, glyphMask.Bounds().Dx()/2)),
 				},
-				Mask: glyphMask,
+				Mask: &image.Alpha{
+					Pix: slices.Clone(glyphMask.Pix),
+					Stride: glyphMask.Stride,
+					Rect: glyphMask.Rect,
+				},
 			}
 			self.glyphOrder = append(self.glyphOrder, glyphUID)
 			return glyphUID, nil
-- 
2.43.0


From bde980444ef56baf2d5930bf63eed369efefaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 44/70] fix: don't leave rewrite testers operating when a
 sequence can't begin

---
 internal/rerules/glyphrule/tester.go | 2 +-
 internal/rerules/utf8rule/tester.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..498a36b 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -98,11 +98,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..1b8c7e8 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -99,11 +99,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
-- 
2.43.0


From 40a98c4cebe282febcbfdb7d0d59e20e3eaca46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 45/70] fix: finish decision tree compilations even if a
 rewrite rule is invalid

---
 internal/rerules/glyphrule/tester.go | 5 ++++-
 internal/rerules/utf8rule/tester.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 498a36b..4958b17 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 1b8c7e8..cea1c4d 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
-- 
2.43.0


From 144bfce1d564af8f11069f44ff26fff6378a2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 46/70] fix: let rewrite testers without rules pass everything
 through

---
 internal/rerules/glyphrule/tester.go | 6 ++++++
 internal/rerules/utf8rule/tester.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 4958b17..ccd02a7 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -116,6 +116,12 @@ func (self *Tester) Feed(glyphIndex ggfnt.GlyphIndex, fn GlyphConfirmationFunc)
 		return errors.New("unxpected control glyph index '" + strconv.Itoa(int(glyphIndex)) + "'")
 	}
 	
+	// no rules, nothing to detect
+	if len(self.rules) == 0 {
+		fn(glyphIndex)
+		return nil
+	}
+	
 	// feed glyph and see if we stopped running
 	self.accumulator.Push(glyphIndex)
 	detectionRunning := self.treesFeedUnrestrictedGlyph(glyphIndex)
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index cea1c4d..f8c4dcd 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -116,6 +116,12 @@ func (self *Tester) Feed(codePoint rune, fn Utf8ConfirmationFunc) error {
 		return errors.New("invalid rune " + strconv.Itoa(int(codePoint)) + "")
 	}
 	
+	// no rules, nothing to detect
+	if len(self.rules) == 0 {
+		fn(codePoint)
+		return nil
+	}
+	
 	// feed code point and see if we stopped running
 	self.accumulator.Push(codePoint)
 	detectionRunning := self.treesFeedUnrestrictedRune(codePoint)
-- 
2.43.0


From 497e1ca11aae2473eb4b2f36e48d16b1aab479aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 47/70] fix: don't leak rewrite rule tails into the next tester
 sequence

---
 internal/rerules/glyphrule/tester.go | 2 ++
 internal/rerules/utf8rule/tester.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index ccd02a7..e831d2f 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -154,6 +154,8 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
 	self.Break(fn)
+	self.accumulator.Clear() // already reported tail
+	self.unflushedTail = 0
 	self.isOperating = false
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index f8c4dcd..bb9802a 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -154,6 +154,8 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
 	self.Break(fn)
+	self.accumulator.Clear() // already reported tail
+	self.unflushedTail = 0
 	self.isOperating = false
 }
 
-- 
2.43.0


From f874c6555e1cde542435dd9fa76f07c68b2e8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 48/70] fix: don't apply rewrite rules with unsatisfied
 conditions

---
 internal/rerules/glyphrule/tester.go | 3 +++
 internal/rerules/utf8rule/tester.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index e831d2f..2bef43c 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -340,6 +340,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index bb9802a..2f13041 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -340,6 +340,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
-- 
2.43.0


From c8ca7df8f0688d02a8c36977b062bafb5525982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 49/70] fix: detect invalid first fragments and truncated data
 on rewrite rules

---
 internal/rerules/glyphrule/rule_scanner.go | 5 ++---
 internal/rerules/utf8rule/rule_scanner.go  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..b2557ed 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -54,9 +54,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -139,6 +137,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.ErrInvalidReRule }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..ecb08ad 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -53,9 +53,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -137,6 +135,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.InvalidUtf8RuleErr(self.rule) }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
-- 
2.43.0


From 76f4f9f7df1fbe8aba8d5e49ac9aa63cd7db3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 50/70] fix: report data after an empty rule fragment as an
 error instead of panicking

---
 internal/rerules/glyphrule/rule_scanner.go | 2 +-
 internal/rerules/utf8rule/rule_scanner.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index b2557ed..334ec4e 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -115,7 +115,7 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 	}
 
 	if !self.HasNext() { panic("precondition violation") }
-	panic(BrokenCode)
+	return GlyphNone, GlyphSetNone, rerules.ErrInvalidReRule
 }
 
 func (self *RuleScanner) advanceControl() error {
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index ecb08ad..13da72e 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -113,7 +113,7 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 	}
 
 	if !self.HasNext() { panic("precondition violation") }
-	panic(BrokenCode)
+	return RuneError, Utf8SetNone, rerules.InvalidUtf8RuleErr(self.rule)
 }
 
 func (self *RuleScanner) advanceControl() error {
-- 
2.43.0


From f5117350a16ccf0d4531850920b9ea082898de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 51/70] fix: split partially overlapping decision tree
 transitions at the right positions

---
 internal/rerules/glyphrule/decision_tree_state.go | 6 +++---
 internal/rerules/utf8rule/decision_tree_state.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..70aab85 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,7 +85,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..47db3c4 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,7 +84,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From db772604a27d4e73457bf0eb481270921e80104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 52/70] fix: keep circular buffer indices in range on big or
 shrunk buffers

---
 internal/circular_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index b03fd91..78a949a 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -121,7 +121,7 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 		if self.numElements > (self.capacity - self.headIndex) {
 			copy(self.buffer[self.headIndex - lenReduction : ], self.buffer[self.headIndex : ])
 			self.headIndex -= lenReduction
-		} else if self.headIndex > capacity - self.numElements {
+		} else if self.headIndex >= capacity - self.numElements {
 			copy(self.buffer[ : self.numElements], self.buffer[self.headIndex : self.headIndex + self.numElements])
 			self.headIndex = 0
 		}
@@ -148,7 +148,7 @@ func (self *CircularBufferU16[T]) unsafeLastElemIndex() uint16 {
 	index := self.headIndex + self.numElements - 1
 	
 	if index < self.headIndex { // overflow case
-		return self.numElements - (self.capacity - self.headIndex)
+		return self.numElements - (self.capacity - self.headIndex) - 1
 	} else if index < self.capacity { // simple case
 		return index
 	} else { // wrap case
-- 
2.43.0


From 07221dfbeb809592dcc2a1587657f4ad617e3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 53/70] fix: restore full mapping groups and evict the actual
 LRU entry on mapping caches

---
 mapping_cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mapping_cache.go b/mapping_cache.go
index 7891259..6ecb696 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -25,6 +25,7 @@ func (self *mappingEntry) ToMappingGroup(font *Font) GlyphMappingGroup {
 		offset: self.mappingOffset,
 		caseBranch: self.caseBranch,
 		directMapping: self.directMapping,
+		switchType: self.switchType,
 	}
 }
 
@@ -59,7 +60,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 
 	cache := &MappingCache{
 		font: font, 
-		mruIndex: noEntry,
+		mruIndex: uint16(size) - 1,
 		lruIndex: 0,
 		cachedMappings: make(map[rune]uint16, size),
 		mappingEntries: make([]mappingEntry, size),
@@ -71,7 +72,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 // Resets the mapping cache completely, with only the size being preserved.
 func (self *MappingCache) Reset(font *Font) {
 	self.font = font
-	self.mruIndex = noEntry
+	self.mruIndex = uint16(len(self.mappingEntries)) - 1
 	self.lruIndex = 0
 	clear(self.mappingEntries)
 	clear(self.cachedMappings)
-- 
2.43.0


From 3eb6473eb1074eb594a864feb0b80496e69cffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 54/70] fix: allow splitting decision tree transitions that
 have no next state

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 1 -
 internal/rerules/utf8rule/decision_tree_compiler.go  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..a7005e2 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -196,7 +196,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
 		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
 		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..70f161d 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -197,7 +197,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
 		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
 		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-- 
2.43.0


From 1db9829f70f570f8366d326976c42507ce9b0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 55/70] fix: don't add the default dye to the font being built,
 only to the built font

---
 builder/font_builder.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index e3686f3..5e26e02 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -239,28 +239,28 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// --- colors ---
 	numColorSections := len(self.dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
-	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+	dyes := self.dyes
+	if numColorSections == 0 { // use main dye if nothing else exists
+		dyes = []dyeSection{{ name: "main", alphas: []uint8{ 255 } }}
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset int
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += len(self.dyes[i].name)
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += len(dyes[i].name)
 		if clrSectionNameOffset > 65535 { return nil, errors.New("dye names exceed 65535 bytes") }
 		data = internal.AppendUint16LE(data, uint16(clrSectionNameOffset))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From ff4c2b7f36c08357e83c7b6efb8f5b9e7c19858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 56/70] fix: RasterizeMask returned unrelated data for glyph
 indices outside the font

---
 font.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/font.go b/font.go
index 283c197..a2e73b8 100644
--- a/font.go
+++ b/font.go
@@ -511,6 +511,8 @@ func bytesEqStr(bytes []byte, str string) bool {
 }
 
 func (self *FontGlyphs) RasterizeMask(glyphIndex GlyphIndex) *image.Alpha {
+	if uint16(glyphIndex) >= self.Count() { panic("glyphIndex out of range") } // discretionary assertion
+
 	startOffset, endOffset := self.getGlyphDataOffsets(glyphIndex)
 	if self.hasVertLayout() { startOffset += 4 } else { startOffset += 1 }
 	numGlyphs := uint32(self.Count())
-- 
2.43.0


From 975cd8991ebfdcbb305c75b4fae3f6d0ba9654ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:45 +0000
Subject: [PATCH 57/70] fix: reject rewrite rules that end right after a
 fragment control with elements

---
 internal/rerules/glyphrule/rule_scanner.go | 5 +++++
 internal/rerules/utf8rule/rule_scanner.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index 334ec4e..d7c7e85 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -162,6 +162,11 @@ func (self *RuleScanner) parseFragmentControl() error {
 	}
 	
 	self.remainingBlockElements -= numElems
+
+	// if there's no more data, the rule must end here
+	if int(self.dataIndex) >= len(self.rule.Data) {
+		return self.checkTermination()
+	}
 	return nil
 }
 
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 13da72e..42599d8 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -160,6 +160,11 @@ func (self *RuleScanner) parseFragmentControl() error {
 	}
 	
 	self.remainingBlockElements -= numElems
+
+	// if there's no more data, the rule must end here
+	if int(self.dataIndex) >= len(self.rule.Data) {
+		return self.checkTermination()
+	}
 	return nil
 }
 
-- 
2.43.0


From e7d94d5db4562338990e0e02fcfa1f48ea4dc100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 58/70] fix: reject rewrite rules with elements in the head
 control of an empty head

---
 internal/rerules/glyphrule/rule_scanner.go | 3 +++
 internal/rerules/utf8rule/rule_scanner.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index d7c7e85..c03701b 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 42599d8..c41fd4c 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
-- 
2.43.0


From 0f2e6a51df1c64bd4161466eba342867460fbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 59/70] fix: reject rewrite rules that use the reserved set
 index

---
 internal/rerules/glyphrule/rule_scanner.go | 1 +
 internal/rerules/utf8rule/rule_scanner.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index c03701b..4d4fd26 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -82,6 +82,7 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 		}
 
 		set := GlyphSetIndex(self.rule.Data[self.dataIndex])
+		if set == GlyphSetNone { return GlyphNone, GlyphSetNone, rerules.ErrInvalidReRule }
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index c41fd4c..5a6e314 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -80,6 +80,7 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 		}
 
 		set := Utf8SetIndex(self.rule.Data[self.dataIndex])
+		if set == Utf8SetNone { return RuneError, Utf8SetNone, rerules.InvalidUtf8RuleErr(self.rule) }
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
-- 
2.43.0


From a58781c1ad6ce53ffe68bb8742ee782d831b7fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 60/70] fix: reject rewrite rules that use sets that the font
 doesn't have

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 2 ++
 internal/rerules/utf8rule/decision_tree_compiler.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index a7005e2..005d510 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -118,6 +119,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
+				if uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets() { return rerules.ErrInvalidReRule }
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
 					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 70f161d..287923a 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -118,6 +119,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
+				if uint8(utf8Set) >= self.run.Font.Rewrites().NumUTF8Sets() { return rerules.InvalidUtf8RuleErr(rule) }
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-- 
2.43.0


From 511889879d9ff2cfb0cf26b0f51ca81d39360989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 61/70] fix: return errors when there are too many mapping
 entries, rewrite rules or kerning pairs to build

---
 builder/font_builder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 5e26e02..c2bfcf1 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -451,7 +451,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 	
 	// main mapping
-	if len(self.runeMapping) > ggfnt.MaxGlyphs { panic(invalidInternalState) }
+	if len(self.runeMapping) > ggfnt.MaxGlyphs { return nil, errors.New("font has too many mapping entries") }
 	font.OffsetToMapping = uint32(len(data))
 	numMappingEntries := uint16(len(self.runeMapping))
 	data = internal.AppendUint16LE(data, numMappingEntries)
@@ -559,7 +559,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 	
 	// utf8 rules
-	if len(self.utf8Rules) > 65535 { panic(invalidInternalState) }
+	if len(self.utf8Rules) > 65535 { return nil, errors.New("font can't have more than 65535 utf8 rewrite rules") }
 	font.OffsetToUtf8Rewrites = uint32(len(data))
 	numUtf8Rules := uint16(len(self.utf8Rules))
 	data = internal.AppendUint16LE(data, numUtf8Rules) // NumUTF8Rules
@@ -583,7 +583,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 
 	// glyph rules
-	if len(self.glyphRules) > 65535 { panic(invalidInternalState) }
+	if len(self.glyphRules) > 65535 { return nil, errors.New("font can't have more than 65535 glyph rewrite rules") }
 	font.OffsetToGlyphRewrites = uint32(len(data))
 	numGlyphRules := uint16(len(self.glyphRules))
 	data = internal.AppendUint16LE(data, numGlyphRules) // NumGlyphRules
@@ -607,8 +607,8 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 
 	// --- kernings ---
-	if len(self.horzKerningPairs) > 16777215 { panic(invalidInternalState) }
-	if len(self.vertKerningPairs) > 16777215 { panic(invalidInternalState) }
+	if len(self.horzKerningPairs) > 16777215 { return nil, errors.New("font can't have more than 16777215 horizontal kerning pairs") }
+	if len(self.vertKerningPairs) > 16777215 { return nil, errors.New("font can't have more than 16777215 vertical kerning pairs") }
 	font.OffsetToHorzKernings = uint32(len(data))
 	data = internal.AppendUint24LE(data, uint32(len(self.horzKerningPairs)))
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
-- 
2.43.0


From 3faae2a0d365d9a6a2f56c4faa7d6dd9688230e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 62/70] fix: refuse glyph rewrite rules with more than 255
 output glyphs

---
 builder/font_builder_rewrite_rules.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index b79ffb2..6b172d4 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -243,6 +243,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	}
 	
 	// validate output glyphs
+	if len(out) > 255 { return errors.New("rewrite rule output can't exceed 255 glyphs") }
 	for _, glyphUID := range out {
 		_, found := self.glyphData[glyphUID]
 		if !found { return errors.New("invalid rewrite rule output glyph UID") }
-- 
2.43.0


From c51fe1af58d31a20c06937fab980f0f2863f4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:43 +0000
Subject: [PATCH 63/70] fix: report the tail of a rewrite rule from the start
 of the pending elements

A detection that was halted leaves peeks in progress; reporting the tail then
started from the wrong element and could panic.
---
 internal/rerules/glyphrule/tester.go | 2 +-
 internal/rerules/utf8rule/tester.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 2bef43c..0d69db8 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -320,13 +320,13 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks() // detection may have been halted with peeks in progress
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			glyphIndex, found := self.accumulator.PeekAhead()
 			if !found { panic(BrokenCode) }
 			fn(glyphIndex)
 		}
-		//self.accumulator.DiscardPeeks()
 	}
 	
 	// notice that we are not feeding any possible remaining accumulated glyphs,
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 2f13041..498e8f3 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -320,13 +320,13 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks() // detection may have been halted with peeks in progress
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			codePoint, found := self.accumulator.PeekAhead()
 			if !found { panic(BrokenCode) }
 			fn(codePoint)
 		}
-		//self.accumulator.DiscardPeeks()
 	}
 	
 	// notice that we are not feeding any possible remaining accumulated runes,
-- 
2.43.0


From ee4d6d1baf20d9da2b6e7e316e67465a18dcc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:43 +0000
Subject: [PATCH 64/70] fix: remove the head of an applied rewrite rule from
 the pending elements

Head elements that had been reported as the tail of a previous rewrite stayed
in the accumulator, so that replaced elements were reported and others twice.
---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 0d69db8..ef82893 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -298,6 +298,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
 		if self.unflushedTail > 0 {
+			_ = self.accumulator.PopHead() // already reported as part of a tail
 			self.unflushedTail -= 1
 		} else {
 			fn(self.accumulator.PopHead())
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 498e8f3..da21d0a 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -298,6 +298,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
 		if self.unflushedTail > 0 {
+			_ = self.accumulator.PopHead() // already reported as part of a tail
 			self.unflushedTail -= 1
 		} else {
 			fn(self.accumulator.PopHead())
-- 
2.43.0


From f2544d6d51727a8d2aaec28c53b781a1df42328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 65/70] fix: don't lose transitions while compiling rewrite
 rules with sets

Creating states can reallocate the slice of states while a range is being
appended to one of its elements, whose later transitions were then lost.
---
 .../rerules/glyphrule/decision_tree_compiler.go   | 15 ++++++++++++---
 .../rerules/utf8rule/decision_tree_compiler.go    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 005d510..f1b4769 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -114,7 +114,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := self.appendRange(state, glyphRange, matchRule)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -122,12 +122,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets() { return rerules.ErrInvalidReRule }
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -146,6 +146,15 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 
 // ---- unexported ----
 
+// While appending a range new states might be created, which can reallocate
+// the slice of states, so we have to operate on a copy of the state.
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange ggfnt.GlyphRange, matchRule RuleIndex) error {
+	state := self.states[stateIndex]
+	err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 287923a..65030d3 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -114,7 +114,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+				err := self.appendRange(state, runeRange, matchRule)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -123,12 +123,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -147,6 +147,15 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 
 // ---- unexported ----
 
+// While appending a range new states might be created, which can reallocate
+// the slice of states, so we have to operate on a copy of the state.
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange RuneRange, matchRule RuleIndex) error {
+	state := self.states[stateIndex]
+	err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
-- 
2.43.0


From a80a29c186dbc4cfaa67c0c38b16efb577106463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 66/70] fix: count the uses of decision tree states exactly

Transitions split for a match, and transitions copied to new states, weren't
counted. States still in use were freed and overwritten, so wrong rules
matched, or the count became negative or too big and the compilation panicked.
---
 .../glyphrule/decision_tree_compiler.go       | 26 +++++++++++++++----
 .../rerules/glyphrule/decision_tree_state.go  |  2 +-
 .../glyphrule/decision_tree_transition.go     | 10 +++----
 .../utf8rule/decision_tree_compiler.go        | 26 +++++++++++++++----
 .../rerules/utf8rule/decision_tree_state.go   |  2 +-
 .../utf8rule/decision_tree_transition.go      | 10 +++----
 6 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index f1b4769..6bf9153 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -33,7 +33,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -168,6 +168,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
+			self.adjustNextStatesUseCount(state, -1)
 			// note: could optimize if it's the last state, but whatever
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
@@ -184,8 +185,14 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+type StateLinkerFn = func(StateIndex, RuleIndex, int) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, matchRule RuleIndex, numSplits int) (StateIndex, error) {
+	// on rule match no state is added, but the splits also lead to the reference state
+	if matchRule != RuleNone {
+		if referenceStateIndex != StateNone { self.adjustStateUseCount(referenceStateIndex, numSplits) }
+		return referenceStateIndex, nil
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -196,6 +203,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if err != nil { return StateNone, err }
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
+			self.adjustNextStatesUseCount(resultStateIndex, 1)
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
 		} else {
 			self.states[resultStateIndex].Reset()
@@ -305,8 +313,16 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
+}
+
+func (self *DecisionTreeCompiler) adjustNextStatesUseCount(stateIndex StateIndex, delta int) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState != StateNone {
+			self.adjustStateUseCount(transition.NextState, delta)
+		}
+	}
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 70aab85..5d4230b 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -151,7 +151,7 @@ func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchInd
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone, RuleNone, numSplits)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 337a14a..64757b0 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -18,12 +18,12 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
-		return nil
-	} else { // add next state
-		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
-		return err
 	}
+
+	// add or update next state
+	var err error
+	self.NextState, err = stateLinker(self.NextState, ruleMatchIndex, numSplits)
+	return err
 }
 
 // Shorten the transition by moving the Range.Last more towards the beginning.
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 65030d3..d851bca 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -33,7 +33,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -169,6 +169,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
+			self.adjustNextStatesUseCount(state, -1)
 			// note: could optimize if it's the last state, but whatever
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
@@ -185,8 +186,14 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+type StateLinkerFn = func(StateIndex, RuleIndex, int) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, matchRule RuleIndex, numSplits int) (StateIndex, error) {
+	// on rule match no state is added, but the splits also lead to the reference state
+	if matchRule != RuleNone {
+		if referenceStateIndex != StateNone { self.adjustStateUseCount(referenceStateIndex, numSplits) }
+		return referenceStateIndex, nil
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -197,6 +204,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if err != nil { return StateNone, err }
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
+			self.adjustNextStatesUseCount(resultStateIndex, 1)
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
 		} else {
 			self.states[resultStateIndex].Reset()
@@ -306,8 +314,16 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
+}
+
+func (self *DecisionTreeCompiler) adjustNextStatesUseCount(stateIndex StateIndex, delta int) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState != StateNone {
+			self.adjustStateUseCount(transition.NextState, delta)
+		}
+	}
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 47db3c4..33969a0 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -150,7 +150,7 @@ func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleI
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone, RuleNone, numSplits)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index b4b472d..4dedd28 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -16,12 +16,12 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
-		return nil
-	} else { // add next state
-		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
-		return err
 	}
+
+	// add or update next state
+	var err error
+	self.NextState, err = stateLinker(self.NextState, ruleMatchIndex, numSplits)
+	return err
 }
 
 // Shorten the transition by moving the Range.Last more towards the beginning.
-- 
2.43.0


From 432fb1ecf2b466aeda4a7882f91762edb67a67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 67/70] fix: don't panic on rewrite rules that use empty sets

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 3 ++-
 internal/rerules/utf8rule/decision_tree_compiler.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 6bf9153..3f7e8d5 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -164,7 +164,8 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
 	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
+	if int(depth) >= len(self.run.TrackerStatesByDepth) { return } // possible with empty sets
+
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index d851bca..0c84982 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -165,7 +165,8 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
 	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
+	if int(depth) >= len(self.run.TrackerStatesByDepth) { return } // possible with empty sets
+
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
-- 
2.43.0


From d947c401d8afc9639836d428f9018f4b6ab5b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 68/70] fix: ignore matches that would rewrite the tail of a
 previous rewrite

The tail has already been reported; a match whose head doesn't cover it made
the tester panic.
---
 internal/rerules/glyphrule/tester.go | 13 +++++++++++++
 internal/rerules/utf8rule/tester.go  | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index ef82893..325f49c 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -262,7 +262,9 @@ func (self *Tester) treesFeedHeadGlyph(glyphIndex ggfnt.GlyphIndex) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(glyphIndex, minRequiredHeadLen)
+		self.treeDiscardShortHeadMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -274,7 +276,9 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(glyphIndex)
+		self.treeDiscardShortHeadMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -282,6 +286,15 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	return running
 }
 
+// The tail of a previous rewrite has already been reported, so matches can only
+// include its elements in their head. Other matches must not take effect.
+func (self *Tester) treeDiscardShortHeadMatch(treeIndex int, prevMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != RuleNone && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index da21d0a..ca2403c 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -262,7 +262,9 @@ func (self *Tester) treesFeedHeadRune(codePoint rune) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(codePoint, minRequiredHeadLen)
+		self.treeDiscardShortHeadMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -274,7 +276,9 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(codePoint)
+		self.treeDiscardShortHeadMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -282,6 +286,15 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	return running
 }
 
+// The tail of a previous rewrite has already been reported, so matches can only
+// include its elements in their head. Other matches must not take effect.
+func (self *Tester) treeDiscardShortHeadMatch(treeIndex int, prevMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != RuleNone && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
-- 
2.43.0


From f92e782989c50fab10d24af8decba59a68c8103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 69/70] fix: allow heads longer than the tail of a previous
 rewrite

Rules weren't detected after a tail if all of them had longer heads.
---
 internal/rerules/glyphrule/decision_tree_state.go | 2 +-
 internal/rerules/utf8rule/decision_tree_state.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 5d4230b..2877a7f 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -46,7 +46,7 @@ func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 33969a0..0d762c3 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -45,7 +45,7 @@ func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
-- 
2.43.0


From 610dc5eb462c3b4024db3c46d5c37b4c9013c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:27 +0000
Subject: [PATCH 70/70] fix: don't panic on rewrite sets whose ranges overlap

The compilation of decision trees panicked when a range of a set led to states
already linked by another range of the same set.
---
 internal/rerules/glyphrule/decision_tree_compiler.go | 4 ++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 3f7e8d5..d8806b2 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -246,8 +246,8 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			// already linked by a previous range of the same set, if ranges overlap
+			if rules[i] == self.run.RuleIndex { return referenceStateIndex }
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 0c84982..3a0043c 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -247,8 +247,8 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			// already linked by a previous range of the same set, if ranges overlap
+			if rules[i] == self.run.RuleIndex { return referenceStateIndex }
 		}
 	}
 
-- 
2.43.0

