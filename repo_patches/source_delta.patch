From a1aba6f5bc501deb1cac186660b324afd2aad27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 01/52] fix: reflect2 map iteration crashes since go 1.18
 (mapiterinit takes the iterator)

---
 reflect2/go_above_118.go | 38 ++++++++++++++++++++++++++++++++++++++
 reflect2/go_below_118.go | 24 ++++++++++++++++++++++++
 reflect2/unsafe_link.go  | 15 ---------------
 reflect2/unsafe_map.go   |  2 +-
 4 files changed, 63 insertions(+), 16 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..c855ac5
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,38 @@
+//+build go1.18
+
+package reflect2
+
+import "unsafe"
+
+// since go 1.18 the caller provides the iterator,
+// m escapes into the iterator, but the caller of mapiterinit
+// doesn't let the iterator outlive the map.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+// hiter has the same layout as the hiter of reflect
+type hiter struct {
+	key         unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
+	value       unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    *[]unsafe.Pointer
+	oldoverflow *[]unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
+	clearSeq    uint64
+}
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	it := &hiter{}
+	mapiterinit(rtype, m, it)
+	return it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..868e592
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,24 @@
+//+build !go1.18
+
+package reflect2
+
+import "unsafe"
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
+
+// A hash iteration structure.
+// If you modify hiter, also change cmd/internal/gc/reflect.go to indicate
+// the layout of this structure.
+type hiter struct {
+	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
+	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
+	// rest fields are ignored
+}
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	return mapiterinit(rtype, m)
+}
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..f6de0d2 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -38,15 +32,6 @@ func mapiternext(it *hiter)
 //go:linkname ifaceE2I reflect.ifaceE2I
 func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 
-// A hash iteration structure.
-// If you modify hiter, also change cmd/internal/gc/reflect.go to indicate
-// the layout of this structure.
-type hiter struct {
-	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
-	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
-}
-
 // add returns p+x.
 //
 // The whySafe string is ignored, so that the function still inlines
diff --git a/reflect2/unsafe_map.go b/reflect2/unsafe_map.go
index f2e76e6..449c304 100644
--- a/reflect2/unsafe_map.go
+++ b/reflect2/unsafe_map.go
@@ -109,7 +109,7 @@ func (type2 *UnsafeMapType) Iterate(obj interface{}) MapIterator {
 
 func (type2 *UnsafeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 	return &UnsafeMapIterator{
-		hiter:      mapiterinit(type2.rtype, *(*unsafe.Pointer)(obj)),
+		hiter:      newMapIter(type2.rtype, *(*unsafe.Pointer)(obj)),
 		pKeyRType:  type2.pKeyRType,
 		pElemRType: type2.pElemRType,
 	}
-- 
2.43.0


From 37bdfc3084f3ab9b9c40bee299926c9487be9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 02/52] fix: PeekN past the end of a reader leaves an empty
 chunk behind, the next Peek()[0] panics

---
 parse/parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..c5b8466 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -104,9 +104,11 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 	for {
 		buf := make([]byte, len(src.buf))
 		read, err := src.reader.Read(buf)
-		next := buf[:read]
-		peeked = append(peeked, next...)
-		src.nextList = append(src.nextList, next)
+		if read > 0 {
+			next := buf[:read]
+			peeked = append(peeked, next...)
+			src.nextList = append(src.nextList, next)
+		}
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-- 
2.43.0


From ae4d6cca80a5790f1520781d75bd7561a28388a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 03/52] fix: ConsumeN never returns when asked for more than
 what is left

---
 parse/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index c5b8466..19798f0 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -122,11 +122,19 @@ func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
 		n -= len(src.current)
 		src.Consume()
+		if src.Error() != nil && len(src.current) == 0 {
+			// nothing left to consume
+			return
+		}
 	}
 	src.current = src.current[n:]
 }
 
 func (src *Source) Consume1(b1 byte) {
+	if len(src.current) == 0 {
+		src.ReportError(io.EOF)
+		return
+	}
 	if b1 != src.current[0] {
 		src.ReportError(errors.New(
 			"expect " + string([]byte{b1}) +
-- 
2.43.0


From 986da821e171bf0dcc7f3edbbf2309666f40c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 04/52] fix: Consume drops the last chunk when the reader
 returns it together with io.EOF

---
 parse/parse.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 19798f0..3ba4163 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -154,11 +154,18 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
-	n, err := src.reader.Read(src.buf)
-	if err != nil {
-		src.ReportError(err)
+	for {
+		n, err := src.reader.Read(src.buf)
+		src.current = src.buf[:n]
+		if n > 0 {
+			// the reader will report the error again when there is no more data
+			return
+		}
+		if err != nil {
+			src.ReportError(err)
+			return
+		}
 	}
-	src.current = src.buf[:n]
 }
 
 func (src *Source) PeekRune() (rune, int) {
-- 
2.43.0


From c7f321d6d6fd5aba1f3770e44ba5379e55d63f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:31 +0000
Subject: [PATCH 05/52] fix: reading or skipping unicode ranges never stops at
 the end of the source, and stops after one rune when given includes

---
 parse/read/range.go | 17 ++++++++---------
 parse/skip/range.go | 17 ++++++++---------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..d4adeca 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,7 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,10 +15,11 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -30,13 +31,11 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 			space = append(space, r)
 			continue
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				space = append(space, r)
-				continue
-			}
+		if !unicode.IsOneOf(includes, r) {
+			return space
 		}
-		return space
+		src.ConsumeN(n)
+		space = append(space, r)
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..1c3d6d4 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,7 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,24 +16,23 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
 				return count
 			}
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				count += n
-				continue
-			}
+		if !unicode.IsOneOf(includes, r) {
+			return count
 		}
-		return count
+		src.ConsumeN(n)
+		count += n
 	}
+	return count
 }
-- 
2.43.0


From 6a9c0db824d6892c7f09d4b87c3dff1204e21855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:31 +0000
Subject: [PATCH 06/52] fix: an empty string source is not at EOF, readers
 return a rune that is not there

---
 parse/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 3ba4163..4d39836 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -70,9 +70,13 @@ func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 }
 
 func NewSourceString(src string) *Source {
-	return &Source{
+	source := &Source{
 		current: []byte(src),
 	}
+	if len(src) == 0 {
+		source.ReportError(io.EOF)
+	}
+	return source
 }
 
 func (src *Source) SetBuffer(buf []byte) {
@@ -171,7 +175,7 @@ func (src *Source) Consume() {
 func (src *Source) PeekRune() (rune, int) {
 	n := len(src.current)
 	if n < 1 {
-		return utf8.RuneError, 1
+		return utf8.RuneError, 0
 	}
 	p0 := src.current[0]
 	x := first[p0]
-- 
2.43.0


From 6bbbc7173192493855fc2b40c031bcbf519fc2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:31 +0000
Subject: [PATCH 07/52] fix: reading an integer of 20 digits or more can wrap
 around without an overflow error

---
 parse/read/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..1a336a5 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -79,7 +79,7 @@ func Uint64(src *parse.Source) uint64 {
 			}
 			if value > uint64SafeToMultiple10 {
 				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
+				if value > math.MaxUint64/10 || value2 < value {
 					src.ReportError(errors.New("uint64: overflow"))
 					return 0
 				}
-- 
2.43.0


From 9bbc39db1a710606f68249bb02aa8d7a10dcc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 08/52] fix: msgfmt panics on formats that do not compile
 (missing key, unclosed brace, empty format)

---
 msgfmt/formatter.go | 34 +++++++++++++++++++++++++---------
 msgfmt/parse.go     |  6 +++++-
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..e39d88f 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -67,6 +67,10 @@ var toFormatter = newLexer(func(l *lexer) {
 		return fixedFormatter(literal)
 	}
 	l.merge = func(left interface{}, right interface{}) interface{} {
+		if right == nil {
+			// error already reported
+			return nil
+		}
 		formatters, isFormatters := left.(Formatters)
 		if isFormatters {
 			return formatters.Append(right.(Formatter))
@@ -76,24 +80,36 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == target {
 			return i + 1
 		}
 	}
 	return -1
 }
 
-func compile(format string, sample []interface{}) Formatter {
+func compile(format string, sample []interface{}) (ret Formatter) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			ret = invalidFormatter(fmt.Sprintf("format can not be compiled: %v", recovered))
+		}
+	}()
+	if format == "" {
+		return fixedFormatter("")
+	}
 	src := parse.NewSourceString(format)
 	src.Attachment = sample
 	formatter := toFormatter.Parse(src, 0)
-	if src.Error() != nil {
-		if src.Error() == io.EOF {
-			return formatter.(Formatter)
-		}
+	if src.Error() == nil {
+		return invalidFormatter("format not parsed completely")
+	}
+	if src.Error() != io.EOF {
 		return invalidFormatter(src.Error().Error())
 	}
-	return invalidFormatter("format not parsed completely")
+	if formatter == nil {
+		return invalidFormatter("unexpected end of format")
+	}
+	return formatter.(Formatter)
 }
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..bd112dc 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -72,7 +72,11 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
-	rightFormatter := obj.(Formatter)
+	rightFormatter, isFormatter := obj.(Formatter)
+	if !isFormatter {
+		// error already reported
+		return nil
+	}
 	src.Consume1('}')
 	return rightFormatter
 }
-- 
2.43.0


From 650c6275ac0316acce40d6daa4722abf08e8efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 09/52] fix: msgfmt reuses a compiled format for args of
 different keys or types (wrong output, type confusion, panic)

---
 msgfmt/msgfmt.go | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..fd7d99b 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -3,6 +3,7 @@ package msgfmt
 import (
 	"io"
 	"os"
+	"reflect"
 	"sync"
 	"unsafe"
 	"fmt"
@@ -69,12 +70,42 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 
 var formatterCache = concurrent.NewMap()
 
+// compiledFormat is only valid for the args having the same keys and types
+type compiledFormat struct {
+	keys      []string
+	types     []reflect.Type
+	formatter Formatter
+}
+
+func (compiled *compiledFormat) match(sample []interface{}) bool {
+	if len(compiled.types) != len(sample) {
+		return false
+	}
+	for i, obj := range sample {
+		if reflect.TypeOf(obj) != compiled.types[i] {
+			return false
+		}
+		if key, isString := obj.(string); isString && i%2 == 0 && key != compiled.keys[i/2] {
+			return false
+		}
+	}
+	return true
+}
+
 func FormatterOf(format string, sample []interface{}) Formatter {
-	formatterObj, found := formatterCache.Load(format)
-	if found {
-		return formatterObj.(Formatter)
+	cached, found := formatterCache.Load(format)
+	if found && cached.(*compiledFormat).match(sample) {
+		return cached.(*compiledFormat).formatter
 	}
-	formatter := compile(format, sample)
-	formatterCache.Store(format, formatter)
-	return formatter
-}
\ No newline at end of file
+	compiled := &compiledFormat{formatter: compile(format, sample)}
+	for i, obj := range sample {
+		compiled.types = append(compiled.types, reflect.TypeOf(obj))
+		if i%2 == 0 {
+			key, _ := obj.(string)
+			// sample might be allocated on the stack of the caller
+			compiled.keys = append(compiled.keys, string(append([]byte(nil), key...)))
+		}
+	}
+	formatterCache.Store(format, compiled)
+	return compiled.formatter
+}
-- 
2.43.0


From 5987b6311c7e16918f4d66207c5fd5c1947e1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 10/52] fix: last byte of a string or bytes is lost when it
 needs escaping, and bytes before a high byte are lost

---
 msgfmt/formatter_bytes.go       | 17 ++++++-----------
 msgfmt/jsonfmt/encoder_bytes.go | 18 ++++++------------
 msgfmt/jsonfmt/encoder_str.go   | 17 +++++------------
 3 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..1e4e395 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -117,19 +117,13 @@ var hex = "0123456789abcdef"
 
 func writeBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
-		if c < utf8.RuneSelf && safeSet[c] {
-			space = append(space, c)
-		} else {
-			break
+	for i, c := range s {
+		if c >= utf8.RuneSelf || !safeSet[c] {
+			return writeBytesSlowPath(space, s[i:])
 		}
+		space = append(space, c)
 	}
-	if i == len(s)-1 {
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return space
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
@@ -139,6 +133,7 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			space = append(space, s[start:i]...)
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..58817e2 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -16,20 +16,13 @@ func (encoder *bytesEncoder) Encode(ctx context.Context, space []byte, ptr unsaf
 func WriteBytes(space []byte, s []byte) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
-		if c < utf8.RuneSelf && safeSet[c] {
-			space = append(space, c)
-		} else {
-			break
+	for i, c := range s {
+		if c >= utf8.RuneSelf || !safeSet[c] {
+			return writeBytesSlowPath(space, s[i:])
 		}
+		space = append(space, c)
 	}
-	if i == len(s)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return append(space, '"')
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
@@ -39,6 +32,7 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			space = append(space, s[start:i]...)
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..b478b8a 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -123,20 +123,13 @@ func (encoder *stringEncoder) Encode(ctx context.Context, space []byte, ptr unsa
 func WriteString(space []byte, str string) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range []byte(str) {
-		if c > 31 && c != '"' && c != '\\' {
-			space = append(space, c)
-		} else {
-			break
+	for i, c := range []byte(str) {
+		if c <= 31 || c == '"' || c == '\\' {
+			return writeStringSlowPath(space, []byte(str[i:]))
 		}
+		space = append(space, c)
 	}
-	if i == len(str)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeStringSlowPath(space, []byte(str[i:]))
+	return append(space, '"')
 }
 
 func writeStringSlowPath(space []byte, s []byte) []byte {
-- 
2.43.0


From 17011c431988203feabb5884cd854965dfbea3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 11/52] fix: uint32 and int32 of 10 digits are written with 4
 digits

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From 7240c180b3f44dfefd241b0208bab322220e6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 12/52] fix: NaN and Inf are written as garbage numbers or
 invalid json

---
 msgfmt/jsonfmt/encoder_float.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..4f018cb 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -29,6 +29,9 @@ func (encoder *lossyFloat32Encoder) Encode(ctx context.Context, space []byte, pt
 
 // WriteFloat64 write float64 to stream
 func WriteFloat64(space []byte, val float64) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return writeNotNumber(space, float64(val))
+	}
 	abs := math.Abs(val)
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -41,6 +44,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return writeNotNumber(space, float64(val))
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -69,6 +75,9 @@ func WriteFloat64Lossy(space []byte, val float64) []byte {
 
 // WriteFloat32 write float32 to stream
 func WriteFloat32(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return writeNotNumber(space, float64(val))
+	}
 	abs := math.Abs(float64(val))
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -82,6 +91,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return writeNotNumber(space, float64(val))
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -106,4 +118,11 @@ func WriteFloat32Lossy(space []byte, val float32) []byte {
 		space = space[:len(space) - 1]
 	}
 	return space
-}
\ No newline at end of file
+}
+
+// writeNotNumber write NaN and Inf as string, there is no json number for them
+func writeNotNumber(space []byte, val float64) []byte {
+	space = append(space, '"')
+	space = strconv.AppendFloat(space, val, 'f', -1, 64)
+	return append(space, '"')
+}
-- 
2.43.0


From f44a10c8d914a66c6a338ae946b4624f65d13aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 13/52] fix: error messages are not escaped in json, nil error
 or marshaler panics

---
 msgfmt/jsonfmt/encoder.go                |  3 ++-
 msgfmt/jsonfmt/encoder_error.go          | 13 +++++++++----
 msgfmt/jsonfmt/encoder_json_marshaler.go |  8 ++++----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..cd419f5 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -172,7 +172,8 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	msg := fmt.Sprintf("can not encode %s %s to json", valType.String(), prefix)
+	return &unsupportedEncoder{string(WriteString(nil, msg))}
 }
 
 type unsupportedEncoder struct {
diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..18c2f99 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -2,6 +2,7 @@ package jsonfmt
 
 import (
 	"unsafe"
+	"reflect"
 	"context"
 	"github.com/v2pro/plz/reflect2"
 )
@@ -12,8 +13,12 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	if isNilPtr(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
+	return WriteString(space, obj.(error).Error())
+}
+
+func isNilPtr(obj interface{}) bool {
+	return obj == nil || (reflect.TypeOf(obj).Kind() == reflect.Ptr && reflect2.IsNil(obj))
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..5332b8d 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,12 +13,12 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if isNilPtr(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From ae3b9e99431b01dffb93108400c4203965ab5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 14/52] fix: TypeOf(nil) panics, so does formatting or
 marshalling nil

---
 msgfmt/jsonfmt/encoder.go | 14 ++++++++++++++
 reflect2/reflect2.go      |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index cd419f5..4f340f4 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -54,6 +54,9 @@ func (cfg Config) Froze() API {
 }
 
 func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
+	if obj == nil {
+		return &nullEncoder{}
+	}
 	cacheKey := reflect2.RTypeOf(obj)
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -63,6 +66,9 @@ func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
 }
 
 func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
+	if valType == nil {
+		return &nullEncoder{}
+	}
 	cacheKey := valType.RType()
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -176,6 +182,14 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{string(WriteString(nil, msg))}
 }
 
+// nullEncoder encodes the interface{} without type
+type nullEncoder struct {
+}
+
+func (encoder *nullEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..49eada2 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -150,6 +150,9 @@ func (cfg *frozenConfig) TypeOf(obj interface{}) Type {
 }
 
 func (cfg *frozenConfig) Type2(type1 reflect.Type) Type {
+	if type1 == nil {
+		return nil
+	}
 	cacheKey := uintptr(unpackEFace(type1).data)
 	typeObj, found := cfg.cache.Load(cacheKey)
 	if found {
-- 
2.43.0


From 725f7dbaebacb3f71921c69b2664d1ed5cd886a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 15/52] fix: marshalling a type that refers to itself overflows
 the stack

---
 msgfmt/jsonfmt/encoder.go | 42 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 4f340f4..c8d1519 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -4,6 +4,7 @@ import (
 	"unsafe"
 	"reflect"
 	"strings"
+	"sync"
 	"unicode"
 	"fmt"
 	"encoding/json"
@@ -42,6 +43,7 @@ type frozenConfig struct {
 	extensions         []Extension
 	encoderCache       *concurrent.Map
 	mapKeyEncoderCache *concurrent.Map
+	lazyEncoderCache   *concurrent.Map
 }
 
 func (cfg Config) Froze() API {
@@ -50,6 +52,7 @@ func (cfg Config) Froze() API {
 		extensions:         cfg.Extensions,
 		encoderCache:       concurrent.NewMap(),
 		mapKeyEncoderCache: concurrent.NewMap(),
+		lazyEncoderCache:   concurrent.NewMap(),
 	}
 }
 
@@ -153,11 +156,11 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		return &stringEncoder{}
 	case reflect.Ptr:
 		pointerType := valType.(reflect2.PtrType)
-		elemEncoder := encoderOf(cfg, prefix+" [ptrElem]", pointerType.Elem())
+		elemEncoder := lazyEncoderOf(cfg, prefix+" [ptrElem]", pointerType.Elem())
 		return &pointerEncoder{elemEncoder: elemEncoder}
 	case reflect.Slice:
 		sliceType := valType.(reflect2.SliceType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", sliceType.Elem())
+		elemEncoder := lazyEncoderOf(cfg, prefix+" [sliceElem]", sliceType.Elem())
 		return &sliceEncoder{
 			elemEncoder: elemEncoder,
 			sliceType:   sliceType.(*reflect2.UnsafeSliceType),
@@ -182,6 +185,39 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{string(WriteString(nil, msg))}
 }
 
+// lazyEncoderOf defers building the encoder of a composite type until it is used,
+// the type might refer to itself through pointer, slice or map
+func lazyEncoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
+	switch valType.Kind() {
+	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Struct, reflect.Map:
+	default:
+		return encoderOf(cfg, prefix, valType)
+	}
+	cacheKey := valType.RType()
+	encoderObj, found := cfg.lazyEncoderCache.Load(cacheKey)
+	if found {
+		return encoderObj.(Encoder)
+	}
+	encoder := &lazyEncoder{cfg: cfg, prefix: prefix, valType: valType}
+	cfg.lazyEncoderCache.Store(cacheKey, encoder)
+	return encoder
+}
+
+type lazyEncoder struct {
+	once    sync.Once
+	cfg     *frozenConfig
+	prefix  string
+	valType reflect2.Type
+	encoder Encoder
+}
+
+func (encoder *lazyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	encoder.once.Do(func() {
+		encoder.encoder = encoderOf(encoder.cfg, encoder.prefix, encoder.valType)
+	})
+	return encoder.encoder.Encode(ctx, space, ptr)
+}
+
 // nullEncoder encodes the interface{} without type
 type nullEncoder struct {
 }
@@ -201,7 +237,7 @@ func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr
 func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
 	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
 	elemType := valType.Elem()
-	elemEncoder := encoderOf(cfg, prefix+" [mapElem]", elemType)
+	elemEncoder := lazyEncoderOf(cfg, prefix+" [mapElem]", elemType)
 	return &mapEncoder{
 		keyEncoder:  keyEncoder,
 		elemEncoder: elemEncoder,
-- 
2.43.0


From c7a627449348475d6e08c08a409397d250d3a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:19 +0000
Subject: [PATCH 16/52] fix: events of same name but different properties are
 rendered with the formatter of the first one (wrong values, type confusion),
 a panic in the handler makes the next call panic

---
 countlog/countlog.go |  12 +++--
 countlog/root.go     | 112 ++++++++++++++++++++++++++++++-------------
 2 files changed, 86 insertions(+), 38 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 05abc1f..1feab1d 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -196,9 +196,13 @@ func castString(ptr uintptr) string {
 }
 
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
-	handler, found := handlerCache.Load(event)
+	handlers, found := handlerCache.Load(event)
 	if found {
-		return handler.(spi.EventHandler)
+		for _, handler := range handlers.([]*siteHandler) {
+			if handler.match(agg, ctx, properties) {
+				return handler
+			}
+		}
 	}
 	return newHandler(event, agg, ctx, properties)
 }
@@ -214,7 +218,5 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Line:   callerLine,
 		Sample: properties,
 	}
-	handler := newRootHandler(site, nomalModeOnPanic)
-	handlerCache.Store(eventName, handler)
-	return handler
+	return addSiteHandler(site, ctx)
 }
diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..d653b63 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -2,9 +2,10 @@ package countlog
 
 import (
 	"github.com/v2pro/plz/countlog/spi"
-	"runtime"
 	"fmt"
+	"reflect"
 	"runtime/debug"
+	"sync"
 	"github.com/v2pro/plz/countlog/loglog"
 )
 
@@ -71,18 +72,6 @@ func (handler *statsAndOutput) LogSite() *spi.LogSite {
 	return handler.site
 }
 
-func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
-	redirector := &redirector{
-		site:            *site,
-	}
-	handlerCache.Store(site.Event, redirector)
-	newSite := *site
-	newSite.File = "unknown"
-	newSite.Line = 0
-	newSite.Sample = event.Properties
-	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
-}
-
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
 	loglog.Error(fmt.Errorf("%v", recovered))
 	if spi.MinLevel <= spi.LevelDebug {
@@ -90,29 +79,86 @@ func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogS
 	}
 }
 
-type redirector struct {
-	site spi.LogSite
+// siteHandler can only handle the events having the same keys and types as the sample it was created from
+type siteHandler struct {
+	spi.EventHandler
+	agg        string
+	properties shape
+	ctx        shape
+}
+
+func (handler *siteHandler) match(agg string, ctx *Context, properties []interface{}) bool {
+	return handler.agg == agg && handler.properties.match(properties) && handler.ctx.match(ctxProperties(ctx))
+}
+
+func ctxProperties(ctx *Context) []interface{} {
+	if ctx == nil {
+		return nil
+	}
+	return ctx.logContext.Properties
+}
+
+// shape is the keys and types of properties, and the value of agg and dim
+type shape []shapeElem
+
+type shapeElem struct {
+	typ      reflect.Type
+	value    string
+	hasValue bool
 }
 
-func (redirector *redirector) Handle(event *spi.Event) {
-	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
-	handlerObj, found := handlerCache.Load(key)
-	if found {
-		handlerObj.(spi.EventHandler).Handle(event)
-		return
+func shapeOf(properties []interface{}) shape {
+	var elems shape
+	for i, obj := range properties {
+		elem := shapeElem{typ: reflect.TypeOf(obj)}
+		str, isString := obj.(string)
+		if isString && (i%2 == 0 || properties[i-1] == "agg" || properties[i-1] == "dim") {
+			elem.hasValue = true
+			// properties might be allocated on the stack of the caller
+			elem.value = string(append([]byte(nil), str...))
+		}
+		elems = append(elems, elem)
 	}
-	site := redirector.site
-	site.File = callerFile
-	site.Line = callerLine
-	site.Sample = event.Properties
-	handler := newRootHandler(&site, fallbackModeOnPanic)
-	handlerCache.Store(key, handler)
-	handler.Handle(event)
-	return
+	return elems
 }
 
-type accurateHandlerKey struct {
-	File string
-	Line int
+func (elems shape) match(properties []interface{}) bool {
+	if len(elems) != len(properties) {
+		return false
+	}
+	for i := range elems {
+		if reflect.TypeOf(properties[i]) != elems[i].typ {
+			return false
+		}
+		if elems[i].hasValue && properties[i].(string) != elems[i].value {
+			return false
+		}
+	}
+	return true
+}
+
+var handlersLock sync.Mutex
+
+func addSiteHandler(site *spi.LogSite, ctx *Context) spi.EventHandler {
+	newHandler := &siteHandler{
+		EventHandler: newRootHandler(site, fallbackModeOnPanic),
+		agg:          site.Agg,
+		properties:   shapeOf(site.Sample),
+		ctx:          shapeOf(ctxProperties(ctx)),
+	}
+	handlersLock.Lock()
+	defer handlersLock.Unlock()
+	var handlers []*siteHandler
+	if existing, found := handlerCache.Load(site.Event); found {
+		handlers = existing.([]*siteHandler)
+	}
+	for _, handler := range handlers {
+		if handler.match(site.Agg, ctx, site.Sample) {
+			return handler
+		}
+	}
+	// sample might be allocated on the stack of the caller
+	site.Sample = nil
+	handlerCache.Store(site.Event, append(handlers[:len(handlers):len(handlers)], newHandler))
+	return newHandler
 }
-- 
2.43.0


From d24611ab00d8443a7190d58ce1a6f80c2678fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 17/52] fix: a call with properties no handler can be created
 for (key is not string, odd number of properties) panics

---
 countlog/root.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index d653b63..69ed9af 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -139,7 +139,14 @@ func (elems shape) match(properties []interface{}) bool {
 
 var handlersLock sync.Mutex
 
-func addSiteHandler(site *spi.LogSite, ctx *Context) spi.EventHandler {
+func addSiteHandler(site *spi.LogSite, ctx *Context) (handler spi.EventHandler) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("can not handle event %v: %v", site.Event, recovered))
+			handler = &spi.DummyEventHandler{Site: site}
+		}
+	}()
 	newHandler := &siteHandler{
 		EventHandler: newRootHandler(site, fallbackModeOnPanic),
 		agg:          site.Agg,
-- 
2.43.0


From 7d598e0984dfb074bae96e2f785ba95e7ae8696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 18/52] fix: counting an event with a dimension that is not
 string leaves the window locked

---
 countlog/stats/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..a2de0a5 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,9 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
-- 
2.43.0


From f9a3e11b19c1bb62e08a442efdd5b2bd1c3e655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 19/52] fix: stats are exported once instead of every second

---
 countlog/stats/window.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..f9abc8e 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -39,10 +39,11 @@ func newWindow(executor Executor, collector Collector, dimensionElemCount int) *
 }
 
 func (window *Window) exportEverySecond(ctx context.Context) {
-	timer := time.NewTimer(time.Second)
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
 	for {
 		select {
-		case <-timer.C:
+		case <-ticker.C:
 			window.Export(time.Now())
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 325bdc83dabb2e11a3ef7b31fabeecc9d05b053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:02 +0000
Subject: [PATCH 20/52] fix: exported points do not tell which event they are
 counting

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index f9abc8e..3fd1d43 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,9 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
 		collector:          collector,
+		event:              event,
 		dimensionElemCount: dimensionElemCount,
 	}
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 9bb505edf43e3e0965948f933094750405d22d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:23 +0000
Subject: [PATCH 21/52] fix: json log is not valid json (unquoted and unescaped
 keys)

---
 countlog/output/json/json.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..0267b57 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -12,12 +12,12 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
+		prefix:           `{"event":` + quote(site.Event),
+		suffix:           `,"location":` + quote(site.Location()) + "}\n",
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
+		prefix := quote(site.Sample[i].(string)) + ":"
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
@@ -27,6 +27,10 @@ func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	return formatter
 }
 
+func quote(str string) string {
+	return string(jsonfmt.WriteString(nil, str))
+}
+
 type jsonFormatter struct {
 	prefix           string
 	suffix           string
@@ -47,7 +51,7 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 		space = append(space, prop.prefix...)
 		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
 	}
-	space = append(space, ",timestamp:"...)
+	space = append(space, `,"timestamp":`...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
 	space = append(space, formatter.suffix...)
 	return space
-- 
2.43.0


From 918f929c11cd04d832405aabb01d38e828d76d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 22/52] fix: lumberjack BackupTimeFormat is set by mill
 goroutine and Write at the same time

---
 countlog/output/lumberjack/lumberjack.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..c273769 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -443,10 +440,16 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.backupTimeFormat(), ts)
+}
+
+// backupTimeFormat does not set the default back to the Logger, because it is
+// called by the mill goroutine without lock.
+func (l *Logger) backupTimeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From f32e844da0b3436e21fb32142bfa4e824240ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 23/52] fix: lumberjack takes the local time of backup as UTC
 when LocalTime is set, so MaxAge is off by the timezone

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index c273769..6d258f4 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -440,6 +440,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if l.LocalTime {
+		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
+	}
 	return time.Parse(l.backupTimeFormat(), ts)
 }
 
-- 
2.43.0


From 3d87c05793ce4b7cf5c30a7eebaf4ed1728786e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:34 +0000
Subject: [PATCH 24/52] fix: lumberjack overwrites the backup of same timestamp
 when rotated twice within the unit of BackupTimeFormat, logs are lost

---
 countlog/output/lumberjack/lumberjack.go | 64 ++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 6d258f4..d204e75 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -30,6 +30,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -257,7 +258,36 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 	}
 
 	timestamp := t.Format(backupTimeFormat)
-	return filepath.Join(dir, fmt.Sprintf("%s-%s%s", prefix, timestamp, ext))
+	name = prefix + "-" + timestamp
+	if last := lastIndex(dir, name, ext); last >= 0 {
+		// do not overwrite the backup rotated within the same unit of time
+		name = fmt.Sprintf("%s-%d", name, last+1)
+	}
+	return filepath.Join(dir, name+ext)
+}
+
+// lastIndex is the index of the latest backup having the timestamp, the first
+// one is 0. It returns -1 if there is none.
+func lastIndex(dir, name, ext string) int {
+	last := -1
+	files, _ := ioutil.ReadDir(dir)
+	for _, f := range files {
+		for _, suffix := range []string{ext, ext + compressSuffix} {
+			if !strings.HasPrefix(f.Name(), name) || !strings.HasSuffix(f.Name()[len(name):], suffix) {
+				continue
+			}
+			index := f.Name()[len(name) : len(f.Name())-len(suffix)]
+			if index == "" && last < 0 {
+				last = 0
+			}
+			if strings.HasPrefix(index, "-") {
+				if i, err := strconv.Atoi(index[1:]); err == nil && i > last {
+					last = i
+				}
+			}
+		}
+	}
+	return last
 }
 
 // openExistingOrNew opens the logfile if it exists and if the current write
@@ -412,12 +442,12 @@ func (l *Logger) oldLogFiles() ([]logInfo, error) {
 		if f.IsDir() {
 			continue
 		}
-		if t, err := l.timeFromName(f.Name(), prefix, ext); err == nil {
-			logFiles = append(logFiles, logInfo{t, f})
+		if t, i, err := l.timeAndIndexFromName(f.Name(), prefix, ext); err == nil {
+			logFiles = append(logFiles, logInfo{t, i, f})
 			continue
 		}
-		if t, err := l.timeFromName(f.Name(), prefix, ext+compressSuffix); err == nil {
-			logFiles = append(logFiles, logInfo{t, f})
+		if t, i, err := l.timeAndIndexFromName(f.Name(), prefix, ext+compressSuffix); err == nil {
+			logFiles = append(logFiles, logInfo{t, i, f})
 			continue
 		}
 		// error parsing means that the suffix at the end was not generated
@@ -446,6 +476,26 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 	return time.Parse(l.backupTimeFormat(), ts)
 }
 
+// timeAndIndexFromName also accepts the backup which is not the first one of
+// its timestamp, the index of the first one is 0.
+func (l *Logger) timeAndIndexFromName(filename, prefix, ext string) (time.Time, int, error) {
+	t, err := l.timeFromName(filename, prefix, ext)
+	if err == nil || !strings.HasSuffix(filename, ext) {
+		return t, 0, err
+	}
+	name := filename[:len(filename)-len(ext)]
+	dash := strings.LastIndexByte(name, '-')
+	if dash == -1 {
+		return t, 0, err
+	}
+	index, indexErr := strconv.Atoi(name[dash+1:])
+	if indexErr != nil || index < 1 {
+		return t, 0, err
+	}
+	t, err = l.timeFromName(name[:dash]+ext, prefix, ext)
+	return t, index, err
+}
+
 // backupTimeFormat does not set the default back to the Logger, because it is
 // called by the mill goroutine without lock.
 func (l *Logger) backupTimeFormat() string {
@@ -536,6 +586,7 @@ func compressLogFile(src, dst string) (err error) {
 // timestamp.
 type logInfo struct {
 	timestamp time.Time
+	index     int
 	os.FileInfo
 }
 
@@ -543,6 +594,9 @@ type logInfo struct {
 type byFormatTime []logInfo
 
 func (b byFormatTime) Less(i, j int) bool {
+	if b[i].timestamp.Equal(b[j].timestamp) {
+		return b[i].index > b[j].index
+	}
 	return b[i].timestamp.After(b[j].timestamp)
 }
 
-- 
2.43.0


From 4e4b4ed464f1fea95c3fff172c3a57704f9751cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 25/52] fix: CloseAll logs the first error for all of the
 failures, and writes to the array of properties owned by caller

---
 closer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/closer.go b/closer.go
index 3ab67c9..2035df3 100644
--- a/closer.go
+++ b/closer.go
@@ -31,8 +31,7 @@ func Close(resource io.Closer, properties ...interface{}) error {
 	if err != nil {
 		_, file, line, _ := runtime.Caller(1)
 		closedAt := fmt.Sprintf("%s:%d", file, line)
-		properties = append(properties, "err", err)
-		countlog.Error("event!close "+closedAt, properties...)
+		countlog.Error("event!close "+closedAt, withError(properties, err)...)
 		return err
 	}
 	return nil
@@ -45,8 +44,7 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
 			closedAt := fmt.Sprintf("%s:%d", file, line)
-			properties = append(properties, "err", err)
-			countlog.Error("event!CloseAll called from "+closedAt, properties...)
+			countlog.Error("event!CloseAll called from "+closedAt, withError(properties, err)...)
 			errs = append(errs, err)
 		}
 	}
@@ -58,6 +56,11 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 	return MergeErrors(errs...)
 }
 
+// withError does not append to properties, which might be shared with the caller
+func withError(properties []interface{}, err error) []interface{} {
+	return append(properties[:len(properties):len(properties)], "err", err)
+}
+
 type funcResource struct {
 	f func() error
 }
-- 
2.43.0


From 26bbbdb27ecf4890e5a0887a4c7fda2a01cd3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:14 +0000
Subject: [PATCH 26/52] fix: Fprintln without value prints to stdout instead of
 the writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index fd7d99b..f113856 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -39,7 +39,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From cacaf1119f7cf85f13ada0a3915aa6b46c9d40e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:02 +0000
Subject: [PATCH 27/52] fix: goroutines started from one WithGls share the same
 gls (concurrent map write)

---
 gls/gls.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..be95047 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -55,23 +55,29 @@ func WithGls(f func()) func() {
 	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
-	childGls := map[interface{}]interface{}{}
-	for k, v := range parentGls {
-		asCopiable, ok := v.(copiable)
-		if ok {
-			childGls[k] = asCopiable.Copy()
-		} else {
-			childGls[k] = v
-		}
-	}
+	childGls := copyGls(parentGls)
 	return func() {
 		goid := GoID()
-		ResetGls(goid, childGls)
+		// the returned function might be used to start more than one goroutine
+		ResetGls(goid, copyGls(childGls))
 		defer DeleteGls(goid)
 		f()
 	}
 }
 
+func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
+	copied := map[interface{}]interface{}{}
+	for k, v := range gls {
+		asCopiable, ok := v.(copiable)
+		if ok {
+			copied[k] = asCopiable.Copy()
+		} else {
+			copied[k] = v
+		}
+	}
+	return copied
+}
+
 func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
-- 
2.43.0


From 7581401c4d1fd0d753d11a1c7cef92ee1efa4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 28/52] fix: async writer counts dropped messages without
 synchronization

---
 countlog/output/async/async.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..372860f 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -40,11 +41,11 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		droppedCount := int64(0)
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
-			if droppedCount%1000 == 1 {
-				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
+			dropped := atomic.AddInt64(&droppedCount, 1)
+			if dropped%1000 == 1 {
+				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", dropped))
 			}
 		}
 	}
-- 
2.43.0


From 5f2155137abc64930f33ca9ada25c7924e9d72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 29/52] fix: failed call is not logged when min level is warn
 or above

---
 countlog/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 69ed9af..cebd486 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -62,7 +62,7 @@ func (handler *statsAndOutput) Handle(event *spi.Event) {
 			handler.onPanic(recovered, event, handler.site)
 		}
 	}()
-	if event.Level >= spi.MinCallLevel {
+	if event.Level >= spi.MinCallLevel || event.Level >= spi.LevelWarn {
 		handler.outputHandler.Handle(event)
 	}
 	handler.statsHandler.Handle(event)
-- 
2.43.0


From 452a95305e4f5a75d1071c11f5ba6d087b43b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 30/52] fix: successful calls are logged below call level once
 collector is set

---
 countlog/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index a86e35a..35a1221 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -55,5 +55,5 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 	default:
 		// TODO: log unknown agg
 	}
-	return nil
+	return &spi.DummyEventHandler{Site: site}
 }
-- 
2.43.0


From 60a12ddac8f029b6eb777e6658c6d5bb3448974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:51 +0000
Subject: [PATCH 31/52] fix: backup name collides with the backup the mill is
 compressing, the older one is overwritten

---
 countlog/output/lumberjack/lumberjack.go | 35 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index d204e75..d372d61 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -259,24 +259,43 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 
 	timestamp := t.Format(backupTimeFormat)
 	name = prefix + "-" + timestamp
-	if last := lastIndex(dir, name, ext); last >= 0 {
-		// do not overwrite the backup rotated within the same unit of time
-		name = fmt.Sprintf("%s-%d", name, last+1)
+	// do not overwrite the backup rotated within the same unit of time
+	index := lastIndex(dir, name, ext) + 1
+	for {
+		backup := filepath.Join(dir, name+ext)
+		if index > 0 {
+			backup = filepath.Join(dir, fmt.Sprintf("%s-%d%s", name, index, ext))
+		}
+		// the mill creates the compressed file before it removes the backup
+		if !fileExists(backup) && !fileExists(backup+compressSuffix) {
+			return backup
+		}
+		index++
 	}
-	return filepath.Join(dir, name+ext)
+}
+
+func fileExists(name string) bool {
+	_, err := os.Lstat(name)
+	return err == nil
 }
 
 // lastIndex is the index of the latest backup having the timestamp, the first
 // one is 0. It returns -1 if there is none.
 func lastIndex(dir, name, ext string) int {
 	last := -1
-	files, _ := ioutil.ReadDir(dir)
-	for _, f := range files {
+	f, err := os.Open(dir)
+	if err != nil {
+		return last
+	}
+	defer f.Close()
+	// only the names, the mill might remove some of the files at the same time
+	files, _ := f.Readdirnames(-1)
+	for _, file := range files {
 		for _, suffix := range []string{ext, ext + compressSuffix} {
-			if !strings.HasPrefix(f.Name(), name) || !strings.HasSuffix(f.Name()[len(name):], suffix) {
+			if !strings.HasPrefix(file, name) || !strings.HasSuffix(file[len(name):], suffix) {
 				continue
 			}
-			index := f.Name()[len(name) : len(f.Name())-len(suffix)]
+			index := file[len(name) : len(file)-len(suffix)]
 			if index == "" && last < 0 {
 				last = 0
 			}
-- 
2.43.0


From 617da09a4ac5ccc32a1948dd943f6960d412263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:00 +0000
Subject: [PATCH 32/52] fix: json has unexported fields and misses exported
 ones if the name starts with non ascii letter

---
 msgfmt/jsonfmt/encoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index c8d1519..df22a3e 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 	"sync"
 	"unicode"
+	"unicode/utf8"
 	"fmt"
 	"encoding/json"
 	"context"
@@ -291,7 +292,8 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 }
 
 func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
-	if !cfg.includesUnexported && !unicode.IsUpper(rune(field.Name()[0])) {
+	firstRune, _ := utf8.DecodeRuneInString(field.Name())
+	if !cfg.includesUnexported && !unicode.IsUpper(firstRune) {
 		return ""
 	}
 	if field.Type().Kind() == reflect.Func {
-- 
2.43.0


From f4f91159e500366059f455360fdfc6320774ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 33/52] fix: uint64 of 20 digits is written with 19 characters

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From d5fa8163a3938e39c75502fc79383299d72bb984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:59 +0000
Subject: [PATCH 34/52] fix: args are not shown in the text of an invalid
 format if they can not be marshaled to json

---
 msgfmt/formatter_invalid.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/msgfmt/formatter_invalid.go b/msgfmt/formatter_invalid.go
index 813c846..261bb19 100644
--- a/msgfmt/formatter_invalid.go
+++ b/msgfmt/formatter_invalid.go
@@ -1,24 +1,15 @@
 package msgfmt
 
 import (
-	"encoding/json"
 	"fmt"
 )
 
 type invalidFormatter string
 
 func (formatter invalidFormatter) Format(space []byte, kv []interface{}) []byte {
-	output, err := json.Marshal(kv)
-	if err != nil {
-		space = append(space, "%! (INVALID FORMAT) "...)
-		space = append(space, formatter...)
-		space = append(space, "%! (FORMAT ARGS) "...)
-		space = append(space, output...)
-	} else {
-		space = append(space, "%! (INVALID FORMAT) "...)
-		space = append(space, formatter...)
-		space = append(space, "%! (FORMAT ARGS) "...)
-		space = append(space, fmt.Sprintf("%v", kv)...)
-	}
+	space = append(space, "%! (INVALID FORMAT) "...)
+	space = append(space, formatter...)
+	space = append(space, "%! (FORMAT ARGS) "...)
+	space = append(space, fmt.Sprintf("%v", kv)...)
 	return space
-}
\ No newline at end of file
+}
-- 
2.43.0


From c1ab7d471dbd452b52a6008d15829c737b8a0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 35/52] fix: async writer writes nothing any more once its
 writer panics, Write blocks when the queue is full

---
 countlog/output/async/async.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 372860f..ac176fb 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -83,10 +83,7 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 					// time is up
 					return
 				case buf := <-writer.queue:
-					_, err := writer.writer.Write(buf)
-					if err != nil {
-						loglog.Error(err)
-					}
+					writer.writeOne(buf)
 				default:
 					// all written out
 					return
@@ -94,11 +91,22 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 			}
 			return
 		case buf := <-writer.queue:
-			_, err := writer.writer.Write(buf)
-			if err != nil {
-				loglog.Error(err)
-			}
+			writer.writeOne(buf)
+		}
+	}
+}
+
+func (writer *blockingQueueWriter) writeOne(buf []byte) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			// keep the worker alive to write the remaining logs
+			loglog.Error(fmt.Errorf("countlog async writer panic: %v", recovered))
 		}
+	}()
+	_, err := writer.writer.Write(buf)
+	if err != nil {
+		loglog.Error(err)
 	}
 }
 
-- 
2.43.0


From ed4fcf8660dc3c2afdec29ec56fad35648da1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:36 +0000
Subject: [PATCH 36/52] fix: a call with error panics when its properties or
 error panic in being formatted

---
 countlog/countlog.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 1feab1d..09fc9a4 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -1,10 +1,12 @@
 package countlog
 
 import (
+	"fmt"
 	"unsafe"
 	"runtime"
 	"time"
 	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/countlog/loglog"
 	"github.com/v2pro/plz/msgfmt"
 	"errors"
 	"github.com/v2pro/plz/concurrent"
@@ -156,15 +158,26 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 	castedEvent := castEvent(uintptr(ptr))
 	handler.Handle(castedEvent)
 	if castedEvent.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		castedEvent.Error = wrapError(eventName, castedEvent.Error, properties)
 	}
 	return castedEvent.Error
 }
 
+func wrapError(eventName string, err error, properties []interface{}) (wrapped error) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("can not format the error of event %v: %v", eventName, recovered))
+			wrapped = err
+		}
+	}()
+	formatter := msgfmt.FormatterOf(eventName, properties)
+	errMsg := formatter.Format(nil, properties)
+	errMsg = append(errMsg, ": "...)
+	errMsg = append(errMsg, err.Error()...)
+	return errors.New(string(errMsg))
+}
+
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
 	event := &spi.Event{
 		Level:      level,
@@ -176,11 +189,7 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 	ptr := unsafe.Pointer(event)
 	castedEvent := castEvent(uintptr(ptr))
 	if castedEvent.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		castedEvent.Error = wrapError(eventName, castedEvent.Error, properties)
 	}
 }
 
-- 
2.43.0


From df85fc4726b83a6b649ff6aa4f8f3041f93dd55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 37/52] fix: LogPanic writes to the array of properties owned
 by caller

---
 countlog/countlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 09fc9a4..4268928 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -135,7 +135,7 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 	buf := make([]byte, 1<<16)
 	runtime.Stack(buf, false)
 	if len(properties) > 0 {
-		properties = append(properties, "err", recovered, "stacktrace", string(buf))
+		properties = append(properties[:len(properties):len(properties)], "err", recovered, "stacktrace", string(buf))
 		Fatal("event!panic", properties...)
 	} else {
 		Fatal("event!panic", "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From 697265cc5019a4a67e8a4e38bc7480beb61ced99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 38/52] fix: properties whose key is not an identifier, or is
 used again, or is a timer not of type int64 are not shown (compact, hrf)

---
 countlog/output/compact/compact.go |  7 ++++---
 countlog/output/compact/default.go |  9 +++++++++
 countlog/output/hrf/ctx.go         |  4 +++-
 countlog/output/hrf/hrf.go         | 15 ++++++++++-----
 countlog/output/hrf/prop.go        | 11 ++++++++++-
 5 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/countlog/output/compact/compact.go b/countlog/output/compact/compact.go
index 4532bb4..2fae0e8 100644
--- a/countlog/output/compact/compact.go
+++ b/countlog/output/compact/compact.go
@@ -32,9 +32,10 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatters = append(formatters, &errorFormatter{})
 	for i := 0; i < len(sample); i += 2 {
 		key := sample[i].(string)
-		pattern := "||" + key + "={" + key + "}"
-		formatters = append(formatters, &defaultFormatter{
-			msgfmt.FormatterOf(pattern, sample),
+		// key might not be an identifier, or be used more than once
+		formatters = append(formatters, fixedFormatter("||"+key+"="), &propFormatter{
+			idx: i + 1,
+			fmt: msgfmt.FormatterOf("{value}", []interface{}{"value", sample[i+1]}),
 		})
 	}
 
diff --git a/countlog/output/compact/default.go b/countlog/output/compact/default.go
index e5e4526..1d7dadd 100644
--- a/countlog/output/compact/default.go
+++ b/countlog/output/compact/default.go
@@ -12,3 +12,12 @@ type defaultFormatter struct {
 func (formatter *defaultFormatter) Format(space []byte, event *spi.Event) []byte {
 	return formatter.fmt.Format(space, event.Properties)
 }
+
+type propFormatter struct {
+	idx int
+	fmt msgfmt.Formatter
+}
+
+func (formatter *propFormatter) Format(space []byte, event *spi.Event) []byte {
+	return formatter.fmt.Format(space, event.Properties[formatter.idx-1:formatter.idx+1])
+}
diff --git a/countlog/output/hrf/ctx.go b/countlog/output/hrf/ctx.go
index 9e53325..44ffa88 100644
--- a/countlog/output/hrf/ctx.go
+++ b/countlog/output/hrf/ctx.go
@@ -6,9 +6,11 @@ import (
 )
 
 type ctxFormatter struct {
+	idx int
 	fmt msgfmt.Formatter
 }
 
 func (formatter *ctxFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, spi.GetLogContext(event.Context).Properties)
+	properties := spi.GetLogContext(event.Context).Properties
+	return formatter.fmt.Format(space, properties[formatter.idx-1:formatter.idx+1])
 }
\ No newline at end of file
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..06efb06 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -21,7 +21,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		formatters = append(formatters, fixedFormatter(site.Event[len("callee!"):]))
 	} else {
 		formatters = append(formatters,
-			&propFormatter{msgfmt.FormatterOf(site.Event, site.Sample)})
+			&messageFormatter{msgfmt.FormatterOf(site.Event, site.Sample)})
 	}
 	if format.ShowTimestamp {
 		formatters = append(formatters, fixedFormatter("\n\x1b[90;1mtimestamp: "))
@@ -33,21 +33,26 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	if ctx != nil {
 		for i := 0; i < len(ctx.Properties); i += 2 {
 			key := ctx.Properties[i].(string)
-			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
+			// key might not be an identifier, or be used more than once
+			formatters = append(formatters, fixedFormatter("\x1b[90;1m\n"+key+": "))
 			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
+				idx: i + 1,
+				fmt: msgfmt.FormatterOf("{value}", []interface{}{"value", ctx.Properties[i+1]}),
 			})
 			formatters = append(formatters, fixedFormatter("\x1b[0m"))
 		}
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
 		key := site.Sample[i].(string)
+		_, isInt64 := site.Sample[i+1].(int64)
 		formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-		if key == "timer" {
+		if key == "timer" && isInt64 {
 			formatters = append(formatters, &timerFormatter{idx: i+1})
 		} else {
+			formatters = append(formatters, fixedFormatter("\n"+key+": "))
 			formatters = append(formatters, &propFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", site.Sample),
+				idx: i + 1,
+				fmt: msgfmt.FormatterOf("{value}", []interface{}{"value", site.Sample[i+1]}),
 			})
 		}
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
diff --git a/countlog/output/hrf/prop.go b/countlog/output/hrf/prop.go
index e88f4d0..3700ec6 100644
--- a/countlog/output/hrf/prop.go
+++ b/countlog/output/hrf/prop.go
@@ -5,10 +5,19 @@ import (
 	"github.com/v2pro/plz/msgfmt"
 )
 
+type messageFormatter struct {
+	fmt msgfmt.Formatter
+}
+
+func (formatter *messageFormatter) Format(space []byte, event *spi.Event) []byte {
+	return formatter.fmt.Format(space, event.Properties)
+}
+
 type propFormatter struct {
+	idx int
 	fmt msgfmt.Formatter
 }
 
 func (formatter *propFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, event.Properties)
+	return formatter.fmt.Format(space, event.Properties[formatter.idx-1:formatter.idx+1])
 }
-- 
2.43.0


From 8ee370ca74444bc0f2c8888d9d2a964b6f48521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 39/52] fix: errors at the end of the source are taken for a
 plain EOF (overflow, missing operand or closing are not reported)

---
 parse/parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 4d39836..d136f90 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -136,7 +136,7 @@ func (src *Source) ConsumeN(n int) {
 
 func (src *Source) Consume1(b1 byte) {
 	if len(src.current) == 0 {
-		src.ReportError(io.EOF)
+		src.ReportError(io.ErrUnexpectedEOF)
 		return
 	}
 	if b1 != src.current[0] {
@@ -188,7 +188,8 @@ func (src *Source) PeekRune() (rune, int) {
 }
 
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	// everything consumed is not a failure, it must not hide one
+	if src.err == nil || (src.err == io.EOF && err != nil) {
 		src.err = err
 	}
 }
-- 
2.43.0


From d75e2815ed9ee634a951208ed4fdec1ef1764cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 40/52] fix: NewSource returns neither source nor error if the
 first read is empty

---
 parse/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index d136f90..9aa25d8 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -59,6 +59,10 @@ type Source struct {
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 	n, err := reader.Read(buf)
+	for n == 0 && err == nil && len(buf) != 0 {
+		// nothing happened, there is no source without the first bytes or an error
+		n, err = reader.Read(buf)
+	}
 	if n == 0 {
 		return nil, err
 	}
-- 
2.43.0


From 3e8558a637c6cd25e21c9d2dc4a9d75a099b7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 41/52] fix: reading an int32 or int64 panics when there is
 nothing left

---
 parse/read/int.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse/read/int.go b/parse/read/int.go
index 1a336a5..00e1acb 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -30,6 +30,9 @@ func Int(src *parse.Source) int {
 }
 
 func Int32(src *parse.Source) int32 {
+	if src.Error() != nil {
+		return 0
+	}
 	c := src.Peek()[0]
 	if c == '-' {
 		src.ConsumeN(1)
@@ -49,6 +52,9 @@ func Int32(src *parse.Source) int32 {
 }
 
 func Int64(src *parse.Source) int64 {
+	if src.Error() != nil {
+		return 0
+	}
 	c := src.Peek()[0]
 	if c == '-' {
 		src.ConsumeN(1)
-- 
2.43.0


From 1f94abf8827717fec60ec7c1fa3b6ee118457d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 42/52] fix: fields of embedded structs are read and written at
 the wrong place by the unsafe implementation

---
 reflect2/unsafe_field.go  | 29 ++++++++++++++++++++++++++---
 reflect2/unsafe_struct.go |  5 ++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..c9a1c36 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,10 +10,28 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	// offsets of the pointers to embedded structs on the way to the field
+	ptrOffsets []uintptr
+	// offset in the struct, or in what the last of these pointers points to
+	offset uintptr
 }
 
 func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
+	var ptrOffsets []uintptr
+	var offset uintptr
+	typ := structType.Type
+	for _, i := range structField.Index {
+		if typ.Kind() == reflect.Ptr {
+			ptrOffsets = append(ptrOffsets, offset)
+			offset = 0
+			typ = typ.Elem()
+		}
+		offset += typ.Field(i).Offset
+		typ = typ.Field(i).Type
+	}
 	return &UnsafeStructField{
+		ptrOffsets:  ptrOffsets,
+		offset:      offset,
 		StructField: structField,
 		rtype:       unpackEFace(structField.Type).data,
 		ptrRType:    unpackEFace(reflect.PtrTo(structField.Type)).data,
@@ -58,8 +76,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-	typedmemmove(field.rtype, fieldPtr, value)
+	typedmemmove(field.rtype, field.UnsafeGet(obj), value)
 }
 
 func (field *UnsafeStructField) Get(obj interface{}) interface{} {
@@ -70,5 +87,11 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
-	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
+	for _, ptrOffset := range field.ptrOffsets {
+		obj = *(*unsafe.Pointer)(add(obj, ptrOffset, "same as non-reflect &v.field"))
+		if obj == nil {
+			panic("reflect2: indirection through nil pointer to embedded struct")
+		}
+	}
+	return add(obj, field.offset, "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..d365e38 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -47,7 +47,10 @@ func (type2 *UnsafeStructType) Field(i int) StructField {
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	structField := type2.Type.FieldByIndex(index)
+	// reflect gives the index in the innermost struct
+	structField.Index = append([]int(nil), index...)
+	return newUnsafeStructField(type2, structField)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
-- 
2.43.0


From bfb734a3949d66120425a7e8e0518adf00b4deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 43/52] fix: the address of a variable of type unsafe.Pointer
 is taken for its value

---
 reflect2/reflect2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 49eada2..da2e17f 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -186,7 +186,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -240,7 +240,7 @@ func IsNil(obj interface{}) bool {
 
 func IsNullable(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface, reflect.UnsafePointer:
 		return true
 	}
 	return false
@@ -248,7 +248,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
-- 
2.43.0


From 79ad9b4c14530bf5c02384c0240c919a6fa9f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 44/52] fix: an empty interface that holds a nil pointer is
 said to be nil

---
 reflect2/unsafe_eface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect2/unsafe_eface.go b/reflect2/unsafe_eface.go
index 446f420..b7d9bc6 100644
--- a/reflect2/unsafe_eface.go
+++ b/reflect2/unsafe_eface.go
@@ -45,7 +45,7 @@ func (type2 *UnsafeEFaceType) UnsafeIsNil(ptr unsafe.Pointer) bool {
 	if ptr == nil {
 		return true
 	}
-	return unpackEFace(*(*interface{})(ptr)).data == nil
+	return *(*interface{})(ptr) == nil
 }
 
 func (type2 *UnsafeEFaceType) Indirect(obj interface{}) interface{} {
-- 
2.43.0


From e32d93309de41a98ddef4f40d4cbe90ae83e2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 45/52] fix: TryGetIndex of the safe implementation panics, as
 it does not take pointers

---
 reflect2/safe_map.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 6a1ba23..63ceab1 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -35,15 +35,14 @@ func (type2 *safeMapType) UnsafeSetIndex(obj unsafe.Pointer, key unsafe.Pointer,
 }
 
 func (type2 *safeMapType) TryGetIndex(obj interface{}, key interface{}) (interface{}, bool) {
-	keyVal := reflect.ValueOf(key)
-	if key == nil {
-		keyVal = reflect.New(type2.Type.Key()).Elem()
-	}
-	val := reflect.ValueOf(obj).MapIndex(keyVal)
+	keyVal := reflect.ValueOf(key).Elem()
+	val := reflect.ValueOf(obj).Elem().MapIndex(keyVal)
 	if !val.IsValid() {
 		return nil, false
 	}
-	return val.Interface(), true
+	ptr := reflect.New(val.Type())
+	ptr.Elem().Set(val)
+	return ptr.Interface(), true
 }
 
 func (type2 *safeMapType) GetIndex(obj interface{}, key interface{}) interface{} {
-- 
2.43.0


From f07c8dbea4a23046763b48932bf3ea74da18707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 46/52] fix: Grow of the safe implementation panics

---
 reflect2/safe_slice.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/reflect2/safe_slice.go b/reflect2/safe_slice.go
index 7e348c1..4082711 100644
--- a/reflect2/safe_slice.go
+++ b/reflect2/safe_slice.go
@@ -43,12 +43,13 @@ func (type2 *safeSliceType) UnsafeMakeSlice(length int, cap int) unsafe.Pointer
 }
 
 func (type2 *safeSliceType) Grow(obj interface{}, newLength int) {
-	oldCap := type2.Cap(obj)
-	oldSlice := reflect.ValueOf(obj).Elem()
-	delta := newLength - oldCap
-	deltaVals := make([]reflect.Value, delta)
-	newSlice := reflect.Append(oldSlice, deltaVals...)
-	oldSlice.Set(newSlice)
+	slice := reflect.ValueOf(obj).Elem()
+	if newLength > slice.Cap() {
+		newSlice := reflect.MakeSlice(type2.Type, slice.Len(), calcNewCap(slice.Cap(), newLength))
+		reflect.Copy(newSlice, slice)
+		slice.Set(newSlice)
+	}
+	slice.SetLen(newLength)
 }
 
 func (type2 *safeSliceType) UnsafeGrow(ptr unsafe.Pointer, newLength int) {
-- 
2.43.0


From 73578a1d2909c65b4380a754dd74f4bba6ae1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 47/52] fix: IsNil panics for types that are never nil (safe),
 or when given nil (unsafe)

---
 reflect2/safe_type.go   | 6 +++++-
 reflect2/unsafe_type.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/reflect2/safe_type.go b/reflect2/safe_type.go
index 3cd6331..6a40509 100644
--- a/reflect2/safe_type.go
+++ b/reflect2/safe_type.go
@@ -58,7 +58,11 @@ func (type2 *safeType) IsNil(obj interface{}) bool {
 	if obj == nil {
 		return true
 	}
-	return reflect.ValueOf(obj).Elem().IsNil()
+	val := reflect.ValueOf(obj)
+	if val.IsNil() {
+		return true
+	}
+	return type2.IsNullable() && val.Elem().IsNil()
 }
 
 func (type2 *safeType) UnsafeIsNil(ptr unsafe.Pointer) bool {
diff --git a/reflect2/unsafe_type.go b/reflect2/unsafe_type.go
index e7ad4a6..581fa62 100644
--- a/reflect2/unsafe_type.go
+++ b/reflect2/unsafe_type.go
@@ -35,6 +35,9 @@ func (type2 *unsafeType) UnsafeSet(ptr unsafe.Pointer, val unsafe.Pointer) {
 }
 
 func (type2 *unsafeType) IsNil(obj interface{}) bool {
+	if obj == nil {
+		return true
+	}
 	objEFace := unpackEFace(obj)
 	assertType("Type.IsNil argument 1", type2.ptrRType, objEFace.rtype)
 	return type2.UnsafeIsNil(objEFace.data)
-- 
2.43.0


From 7e76bc4a51e4be202de1a8f4c94e6fe240f11ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 48/52] fix: the struct types of the safe implementation are
 not a StructType

---
 reflect2/safe_field.go  |  3 ++-
 reflect2/safe_struct.go | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/reflect2/safe_field.go b/reflect2/safe_field.go
index f68de45..7fa5083 100644
--- a/reflect2/safe_field.go
+++ b/reflect2/safe_field.go
@@ -7,6 +7,7 @@ import (
 
 type safeField struct {
 	reflect.StructField
+	cfg *frozenConfig
 }
 
 func (field *safeField) Offset() uintptr {
@@ -22,7 +23,7 @@ func (field *safeField) PkgPath() string {
 }
 
 func (field *safeField) Type() Type {
-	panic("not implemented")
+	return field.cfg.Type2(field.StructField.Type)
 }
 
 func (field *safeField) Tag() reflect.StructTag {
diff --git a/reflect2/safe_struct.go b/reflect2/safe_struct.go
index d8eb453..f80413a 100644
--- a/reflect2/safe_struct.go
+++ b/reflect2/safe_struct.go
@@ -9,5 +9,24 @@ func (type2 *safeStructType) FieldByName(name string) StructField {
 	if !found {
 		panic("field " + name + " not found")
 	}
-	return &safeField{StructField: field}
-}
\ No newline at end of file
+	return &safeField{StructField: field, cfg: type2.cfg}
+}
+
+func (type2 *safeStructType) Field(i int) StructField {
+	return &safeField{StructField: type2.Type.Field(i), cfg: type2.cfg}
+}
+
+func (type2 *safeStructType) FieldByIndex(index []int) StructField {
+	field := type2.Type.FieldByIndex(index)
+	// reflect gives the index in the innermost struct
+	field.Index = append([]int(nil), index...)
+	return &safeField{StructField: field, cfg: type2.cfg}
+}
+
+func (type2 *safeStructType) FieldByNameFunc(match func(string) bool) StructField {
+	field, found := type2.Type.FieldByNameFunc(match)
+	if !found {
+		panic("field match condition not found in " + type2.Type.String())
+	}
+	return &safeField{StructField: field, cfg: type2.cfg}
+}
-- 
2.43.0


From 543bab8fc7d355a9763a47fd674e6564293cd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:24 +0000
Subject: [PATCH 49/52] fix: values inside interfaces are encoded with the
 default config instead of the config of the encoder

---
 msgfmt/jsonfmt/encoder.go         | 2 +-
 msgfmt/jsonfmt/encoder_dynamic.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index df22a3e..413396f 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -180,7 +180,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		mapType := valType.(reflect2.MapType)
 		return encoderOfMap(cfg, prefix, mapType)
 	case reflect.Interface:
-		return &dynamicEncoder{valType:valType}
+		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
 	msg := fmt.Sprintf("can not encode %s %s to json", valType.String(), prefix)
 	return &unsupportedEncoder{string(WriteString(nil, msg))}
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 29106e1..19177e8 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -7,6 +7,7 @@ import (
 )
 
 type dynamicEncoder struct {
+	cfg     *frozenConfig
 	valType reflect2.Type
 }
 
@@ -15,5 +16,5 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
+	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
 }
\ No newline at end of file
-- 
2.43.0


From 2f9405a32a1b196d1eab13575cba87212ff3b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 50/52] fix: level is not shown in human readable format,
 because the colored names are filled from themselves

---
 countlog/spi/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..a655051 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,7 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", getColor(level), LevelName(level))
 	}
 }
 
-- 
2.43.0


From eeea89d6a92a57a4680d89d4b6971d0e4cf1a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 51/52] fix: time can not be formatted by goTime if there is an
 argument before it whose key is not string

---
 msgfmt/custom.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..2bd0bbf 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -35,9 +35,9 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 	if len(formatArgs) == 0 {
 		formatArgs = append(formatArgs, time.RFC3339)
 	}
-	for i := 0; i < len(sample); i+= 2{
-		key := sample[i].(string)
-		if key == targetKey {
+	for i := 0; i+1 < len(sample); i+= 2{
+		key, isString := sample[i].(string)
+		if isString && key == targetKey {
 			_, isTime := sample[i+1].(time.Time)
 			if !isTime {
 				return nil, fmt.Errorf("%s is not time.Time", targetKey)
-- 
2.43.0


From 7ed6712aac569b1d374c12a176064e3c7989359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 52/52] fix: files named like backups but having an index never
 given to backups (-0, -01, -+1) are removed and compressed

---
 countlog/output/lumberjack/lumberjack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index d372d61..4561528 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -508,7 +508,7 @@ func (l *Logger) timeAndIndexFromName(filename, prefix, ext string) (time.Time,
 		return t, 0, err
 	}
 	index, indexErr := strconv.Atoi(name[dash+1:])
-	if indexErr != nil || index < 1 {
+	if indexErr != nil || index < 1 || strconv.Itoa(index) != name[dash+1:] {
 		return t, 0, err
 	}
 	t, err = l.timeFromName(name[:dash]+ext, prefix, ext)
-- 
2.43.0

