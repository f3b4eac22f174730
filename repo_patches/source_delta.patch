From eacd345ff63adeabec6635c75628679a131bc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 01/76] fix: bound every length read from a BSON value by the
 data that holds it

Negative or overflowing string, binary, dbpointer and code-with-scope lengths,
values that extend past the end of their document, a terminator before the
declared end and unvalidated nested values passed validation, and either
panicked in a later accessor or re-encoded to malformed BSON.
---
 iterator.go | 12 +++++++---
 value.go    | 68 ++++++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/iterator.go b/iterator.go
index 13b7982..85de73b 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,11 +69,12 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if len(r) < int(givenLength) || givenLength < 0 {
 		return nil, bsonerr.InvalidLength
 	}
 
-	itr.r = r
+	// values cannot extend beyond the end of the document.
+	itr.r = r[:givenLength]
 	itr.pos = 4
 	itr.end = uint32(givenLength)
 
@@ -90,6 +91,11 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		if itr.pos+1 != itr.end {
+			// The terminator comes before the end of the document.
+			itr.err = bsonerr.InvalidReadOnlyDocument
+		}
+
 		return false
 	}
 
@@ -111,7 +117,7 @@ func (itr *readerIterator) Next() bool {
 		},
 	}
 
-	n, err = itr.elem.value.validate(true)
+	n, err = itr.elem.value.validate(false)
 	itr.pos += n
 
 	if err != nil {
diff --git a/value.go b/value.go
index 6e0ca90..efc411f 100644
--- a/value.go
+++ b/value.go
@@ -218,9 +218,14 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
+
+		// the length includes the null terminator.
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
 		// We check if the value that is the last element of the string is a
 		// null terminator. We take the value offset, add 4 to account for the
 		// length, add the length of the string, and subtract one since the size
@@ -253,7 +258,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +297,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +325,26 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		// the old binary subtype (0x02) repeats the length of the payload at
+		// the start of the payload itself.
+		if v.data[v.offset+4] == '\x02' {
+			if l < 4 {
+				return total, bsonerr.InvalidLength
+			}
+
+			if inner := readi32(v.data[v.offset+5 : v.offset+9]); inner != l-4 {
+				return total, bsonerr.InvalidLength
+			}
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,10 +395,18 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if !sizeOnly && v.data[v.offset+4+uint32(l)-1] != 0x00 {
+			return total, bsonerr.InvalidString
+		}
+
 		total += uint32(l) + 12
 	case '\x0F':
 		if v.d != nil {
@@ -393,10 +422,14 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			total += 8
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 
-			if int(sLength) > len(v.data)+8 {
+			if int64(v.offset)+8+int64(sLength) > int64(len(v.data)) {
 				return total, errTooSmall
 			}
 
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
 			total += uint32(sLength)
 
 			if !sizeOnly && v.data[v.offset+8+uint32(sLength)-1] != 0x00 {
@@ -420,11 +453,20 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// the length includes itself.
+		if l < 4 {
+			return total, bsonerr.InvalidLength
+		}
+
 		if !sizeOnly {
+			if int(v.offset+8) > len(v.data) {
+				return total, errTooSmall
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
 			// If the length of the string is larger than the total length of the
@@ -433,9 +475,14 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			//
 			// TODO(skriptble): We should actually validate that the string
 			// doesn't consume any of the bytes used by the document.
-			if sLength > l-13 {
+			if int64(sLength) > int64(l)-13 {
 				return total, bsonerr.StringLargerThanContainer
 			}
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
 			// We check if the value that is the last element of the string is a
 			// null terminator. We take the value offset, add 4 to account for the
 			// length, add the length of the string, and subtract one since the size
@@ -452,6 +499,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			// the code and the scope must account for the entire value.
+			if total != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From dc7e503cda0d164920dc3ca2900736f325c13f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 02/76] fix: don't trust the length prefix when reading
 documents

Reading a document from an io.Reader panicked for lengths under four and
allocated whatever the prefix said. The read-only Reader now also validates
values rather than only their sizes.
---
 document.go | 24 +------------------
 reader.go   | 66 ++++++++++++++++++++++++++++-------------------------
 2 files changed, 36 insertions(+), 54 deletions(-)

diff --git a/document.go b/document.go
index cb833c7..e7a14ef 100644
--- a/document.go
+++ b/document.go
@@ -16,7 +16,6 @@ import (
 	"github.com/tychoish/birch/elements"
 	"github.com/tychoish/fun/adt"
 	"github.com/tychoish/fun/irt"
-	"github.com/tychoish/fun/stw"
 )
 
 var bufpool = adt.DefaultBufferPool()
@@ -303,28 +302,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 
 // ReadFrom will read one BSON document from the given io.Reader.
 func (d *Document) ReadFrom(r io.Reader) (int64, error) {
-	var total int64
-
-	sizeBuf := stw.NewSlice(bufpool.Get())
-	sizeBuf.Grow(4)
-	defer bufpool.Put(sizeBuf)
-
-	n, err := io.ReadFull(r, sizeBuf)
-	total += int64(n)
-
-	if err != nil {
-		return total, err
-	}
-
-	givenLength := readi32(sizeBuf)
-
-	b := stw.NewSlice(bufpool.Get())
-	b.Grow(int(givenLength))
-
-	copy(b[0:4], sizeBuf)
-	n, err = io.ReadFull(r, b[4:])
-	total += int64(n)
-
+	b, total, err := readDocumentBytes(r)
 	if err != nil {
 		return total, err
 	}
diff --git a/reader.go b/reader.go
index 35cb6c7..a7e0e66 100644
--- a/reader.go
+++ b/reader.go
@@ -15,7 +15,6 @@ import (
 
 	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/fun/irt"
-	"github.com/tychoish/fun/stw"
 )
 
 var errValidateDone = errors.New("validation loop complete")
@@ -34,53 +33,49 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 		return nil, bsonerr.NilReader
 	}
 
-	lengthBytes := stw.NewSlice(bufpool.Get())
-	lengthBytes.Grow(4)
-	defer bufpool.Put(lengthBytes)
-
-	count, err := io.ReadFull(r, lengthBytes[:])
+	reader, _, err := readDocumentBytes(r)
 	if err != nil {
 		return nil, err
 	}
 
-	if count < 4 {
-		return nil, errTooSmall
-	}
+	return reader, nil
+}
 
-	length := readi32(lengthBytes[:])
-	if length < 0 {
-		return nil, bsonerr.InvalidLength
+// readDocumentBytes reads exactly one length-prefixed document, returning the
+// number of bytes consumed from the input. The length comes from the input and
+// isn't trusted: the buffer grows with the data that's actually there.
+func readDocumentBytes(r io.Reader) ([]byte, int64, error) {
+	var prefix [4]byte
+
+	n, err := io.ReadFull(r, prefix[:])
+	if err != nil {
+		return nil, int64(n), err
 	}
 
-	reader := make([]byte, length)
+	length := readi32(prefix[:])
+	if length < 5 {
+		return nil, int64(n), bsonerr.InvalidLength
+	}
 
-	copy(reader, lengthBytes[:])
+	buf := &bytes.Buffer{}
+	buf.Write(prefix[:])
 
-	count, err = io.ReadFull(r, reader[4:])
-	if err != nil {
-		return nil, err
+	nn, err := io.CopyN(buf, r, int64(length)-4)
+	if err == io.EOF && nn > 0 {
+		err = io.ErrUnexpectedEOF
 	}
 
-	if int32(count) != length-4 {
-		return nil, bsonerr.InvalidLength
+	if err != nil {
+		return nil, int64(n) + nn, err
 	}
 
-	return reader, nil
+	return buf.Bytes(), int64(n) + nn, nil
 }
 
 // Validate validates the document. This method only validates the first document in
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
-	return r.readElements(func(elem *Element) error {
-		var err error
-		switch elem.value.Type() {
-		case '\x03':
-			_, err = elem.value.ReaderDocument().Validate()
-		case '\x04':
-			_, err = elem.value.ReaderArray().Validate()
-		}
-		return err
-	})
+	return r.readElements(nil)
 }
 
 // validateKey will ensure the key is valid and return the length of the key
@@ -248,6 +243,9 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		return 0, bsonerr.InvalidLength
 	}
 
+	// values cannot extend beyond the end of the document.
+	r = r[:givenLength]
+
 	pos := uint32(4)
 	end := uint32(givenLength)
 
@@ -265,6 +263,12 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos+1 != end {
+				// The terminator comes before the end of the
+				// document.
+				return pos, bsonerr.InvalidReadOnlyDocument
+			}
+
 			break
 		}
 
@@ -280,7 +284,7 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		elemValStart = pos
 		elem = newElement(elemStart, elemValStart)
 		elem.value.data = r
-		n, err = elem.value.validate(true)
+		n, err = elem.value.validate(false)
 		pos += n
 
 		if err != nil {
-- 
2.43.0


From 2de46e6a078d2ae8a02455a5fd52ece4a985d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 03/76] fix: invalidate the cached document map whenever the
 document changes

---
 document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index e7a14ef..4d34988 100644
--- a/document.go
+++ b/document.go
@@ -100,6 +100,7 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
 			return d
 		}
 	}
@@ -118,10 +119,10 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
 			return elem
 		}
 	}
-	d.cacheValid = false
 	return nil
 }
 
@@ -288,6 +289,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
-- 
2.43.0


From fdffeb7811b266f81bed1f7b6882efdf3b7e6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 04/76] fix: don't truncate integers below the int32 range

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From 8d7c42f9623109e04ebf1e82d3972f75c42b2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:52 +0000
Subject: [PATCH 05/76] fix: decode the halves of a decimal128 in the order
 they are encoded

---
 value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index efc411f..52a2ce5 100644
--- a/value.go
+++ b/value.go
@@ -1200,9 +1200,10 @@ func (v *Value) Decimal128() types.Decimal128 {
 		panic(bsonerr.NewElementTypeError("compact.Element.Decimal128", bsontype.Type(v.data[v.start])))
 	}
 
+	// the low 64 bits come first.
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From 41ae7cd82f4b17366fec911c7ac5c24be89212c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 06/76] fix: reject keys that hold a null byte rather than
 encoding a truncated element

---
 element.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/element.go b/element.go
index 9424d8f..eb33f50 100644
--- a/element.go
+++ b/element.go
@@ -94,6 +94,11 @@ func (e *Element) validateKey() (uint32, error) {
 	}
 	total++
 
+	// keys are c-strings and cannot hold a null byte.
+	if pos+1 < end {
+		return total, bsonerr.InvalidKey
+	}
+
 	return total, nil
 }
 
-- 
2.43.0


From 708f320ff9965fa3bc59aa576b020e80d68ea203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 07/76] fix: give array elements their keys when reading a
 mutable array

---
 value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 52a2ce5..0209d20 100644
--- a/value.go
+++ b/value.go
@@ -632,7 +632,9 @@ func (v *Value) getReader() Reader {
 		l := readi32(v.data[v.offset : v.offset+4])
 		r = Reader(v.data[v.offset : v.offset+uint32(l)])
 	} else {
-		scope, err := v.d.MarshalBSON()
+		// the type determines the representation: array elements get
+		// their keys from their position.
+		scope, err := v.docToBytes(v.Type())
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From dfa4f31e15d192b781790721114d0a3df32bc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 08/76] fix: don't write to the source element when marshaling
 code with scope

---
 element.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/element.go b/element.go
index eb33f50..6a16136 100644
--- a/element.go
+++ b/element.go
@@ -230,14 +230,17 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 
 			codeWithScopeLength := lengthWithoutScope + int32(scopeLength)
 
-			if _, err = elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-				return int64(n), err
-			}
-
 			codeEnd := e.value.offset + uint32(lengthWithoutScope)
 			n += copy(
 				b[start:],
 				e.value.data[startToWrite:codeEnd])
+
+			// The length is only known now: set it in the output, as the
+			// element may be shared.
+			if _, err = elements.Int32.Encode(start+uint(e.value.offset)-startToWrite, b, codeWithScopeLength); err != nil {
+				return int64(n), err
+			}
+
 			start += uint(n)
 
 			nn, err := e.value.d.writeByteSlice(start, scopeLength, b)
@@ -250,20 +253,6 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 			break
 		}
 
-		// Get length of scope
-		scopeStart := codeStart + 4 + uint32(codeLength)
-		scopeLength := readi32(e.value.data[scopeStart : scopeStart+4])
-
-		// Calculate end of entire CodeWithScope value
-		codeWithScopeEnd := int32(scopeStart) + scopeLength
-
-		// Set the length of the value
-		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)
-
-		if _, err := elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-			return 0, err
-		}
-
 		fallthrough
 	default:
 		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
-- 
2.43.0


From 3838072b8836bc2323ec429deb6b11c00dffaa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 09/76] fix: only the zero ObjectID is empty

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 0209d20..b9a7226 100644
--- a/value.go
+++ b/value.go
@@ -150,7 +150,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From 1b2d5f0549b21680cd6efcff08b2b3ce90ca4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:37 +0000
Subject: [PATCH 10/76] fix: check that the keys of a document map match their
 elements

---
 unmarshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8710b69..373d8ef 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -28,6 +28,7 @@ func (dm DocumentMap) Validate() error {
 		ekey := elem.Key()
 		_, err := elem.Validate()
 		ec.Wrapf(err, "for mapKey=%q, invalid element", ekey)
+		ec.Whenf(key != ekey, "mapKey=%q does not match the element key %q", key, ekey)
 	}
 
 	return ec.Resolve()
-- 
2.43.0


From b688e8e5dfda6a592c9808adcc337bc559215ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 11/76] fix: escape the keys of JSON objects

---
 jsonx/marhsal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..8598f64 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -16,7 +16,7 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(append(out, writeJSONString([]byte(elem.key))...), ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
-- 
2.43.0


From bdd850cee155136de7d116325218c98486ea12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 12/76] fix: keep the precision and the type of doubles in JSON

---
 jsonx/marhsal.go   | 26 +++++++++++++++++++++++---
 jsonx/unmarshal.go |  2 +-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 8598f64..f283291 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -1,8 +1,11 @@
 package jsonx
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
+	"strconv"
 
 	"errors"
 )
@@ -66,11 +69,13 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 	case String:
 		return writeJSONString([]byte(fmt.Sprintf(`%s`, v.value))), nil
 	case NumberDouble, NumberInteger, Number:
-		switch v.value.(type) {
+		switch num := v.value.(type) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
-		case float64, float32:
-			return []byte(fmt.Sprintf(`%f`, v.value)), nil
+		case float64:
+			return writeJSONFloat(num, 64)
+		case float32:
+			return writeJSONFloat(float64(num), 32)
 		default:
 			return nil, fmt.Errorf("unsupported number type %T", v.value)
 		}
@@ -98,3 +103,18 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 		return nil, fmt.Errorf("unknown type=%s", v.t)
 	}
 }
+
+// writeJSONFloat uses the shortest representation that parses as the same
+// number, and makes sure that it remains distinguishable from an integer.
+func writeJSONFloat(num float64, bits int) ([]byte, error) {
+	if math.IsNaN(num) || math.IsInf(num, 0) {
+		return nil, fmt.Errorf("json cannot represent the number %f", num)
+	}
+
+	out := strconv.AppendFloat(nil, num, 'g', -1, bits)
+	if !bytes.ContainsAny(out, ".e") {
+		out = append(out, '.', '0')
+	}
+
+	return out, nil
+}
diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index 5f36b47..d22adb8 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -90,7 +90,7 @@ func getValueForResult(value internal.Result) (*Value, error) {
 	case value.Type == internal.False:
 		return VC.Boolean(false), nil
 	case value.Type == internal.Number:
-		num := json.Number(value.String())
+		num := json.Number(value.Raw)
 		if igr, err := num.Int64(); err == nil {
 			return VC.Int(int(igr)), nil
 		} else if df, err := num.Float64(); err == nil {
-- 
2.43.0


From 70090804946fb5b65d9fc1f5bb17cca5be1ddb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 13/76] fix: binary values round trip through JSON

---
 x_json_marshal.go   |  6 ++++--
 x_json_unmarshal.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 45462c6..52574a9 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,8 @@
 package birch
 
 import (
+	"encoding/base64"
+	"encoding/hex"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -55,8 +57,8 @@ func (v *Value) toJSON() *jsonx.Value {
 
 		return jsonx.VC.ObjectFromElements(
 			jsonx.EC.ObjectFromElements("$binary",
-				jsonx.EC.String("base64", string(t)),
-				jsonx.EC.String("subType", string(d)),
+				jsonx.EC.String("base64", base64.StdEncoding.EncodeToString(d)),
+				jsonx.EC.String("subType", hex.EncodeToString([]byte{t})),
 			),
 		)
 	case bsontype.Undefined:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..78bcdb0 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -2,8 +2,10 @@ package birch
 
 import (
 	"context"
+	"encoding/base64"
 	"errors"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -268,7 +270,45 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			bin := indoc.ElementAtIndex(0).Value()
+			if raw, ok := bin.StringValueOK(); ok {
+				return EC.Binary(in.Key(), []byte(raw)), nil
+			}
+
+			binDoc, ok := bin.DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding binary data for %s", in.Key())
+			}
+
+			var (
+				data    string
+				subtype string
+			)
+
+			for elem := range binDoc.Iterator() {
+				switch elem.Key() {
+				case "base64":
+					if data, ok = elem.Value().StringValueOK(); !ok {
+						return nil, fmt.Errorf("problem decoding binary data for %s", in.Key())
+					}
+				case "subType":
+					if subtype, ok = elem.Value().StringValueOK(); !ok {
+						return nil, fmt.Errorf("problem decoding binary subtype for %s", in.Key())
+					}
+				}
+			}
+
+			payload, err := base64.StdEncoding.DecodeString(data)
+			if err != nil {
+				return nil, fmt.Errorf("problem decoding binary data for %s: %w", in.Key(), err)
+			}
+
+			btype, err := strconv.ParseUint(subtype, 16, 8)
+			if err != nil {
+				return nil, fmt.Errorf("problem decoding binary subtype for %s: %w", in.Key(), err)
+			}
+
+			return EC.BinaryWithSubtype(in.Key(), payload, byte(btype)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
-- 
2.43.0


From 31ddef340c9194ea4cbbbc42045e14d1b41a7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 14/76] fix: return errors for extended JSON with values of the
 wrong type

---
 x_json_unmarshal.go | 54 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 78bcdb0..b71bd47 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -128,7 +128,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding decimal for %s", in.Key())
+			}
+
+			val, err := types.ParseDecimal128(str)
 			if err != nil {
 				return nil, err
 			}
@@ -139,10 +144,13 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				t   int64
 				i   int64
 				val int
-				ok  bool
 			)
 
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
+			tsDoc, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding timestamp for %s", in.Key())
+			}
+
 			count := 0
 			for elem := range tsDoc.Iterator() {
 				if count >= 3 {
@@ -168,7 +176,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			symbol, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding symbol for %s", in.Key())
+			}
+
+			return EC.Symbol(in.Key(), symbol), nil
 		case "$code":
 			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
@@ -183,7 +196,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					return nil, err
 				}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
+				doc, ok := scope.Value().MutableDocumentOK()
+				if !ok {
+					return nil, fmt.Errorf("problem decoding scope of the code for %s", in.Key())
+				}
+
+				return EC.CodeWithScope(in.Key(), js, doc), nil
 			} else {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
@@ -191,9 +209,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				ns  string
 				oid string
-				ok  bool
 			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
+			debref, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding dbref for %s", in.Key())
+			}
 			count := 0
 			for elem := range debref.Iterator() {
 				if count >= 2 {
@@ -228,9 +248,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				pattern string
 				options string
-				ok      bool
 			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
+			rex, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding regular expression for %s", in.Key())
+			}
 
 			count := 0
 			for elem := range rex.Iterator() {
@@ -255,13 +277,23 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding date for %s", in.Key())
+			}
+
+			date, err := time.Parse(time.RFC3339, str)
 			if err != nil {
 				return nil, err
 			}
 			return EC.Time(in.Key(), date), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding object id for %s", in.Key())
+			}
+
+			oid, err := types.ObjectIDFromHex(str)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 8337a12cf461d6fe8b3a878ab7b4bdf10155c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 15/76] fix: dates keep their milliseconds, and years without
 four digits, in JSON

---
 x_json_marshal.go   | 13 ++++++++++++-
 x_json_unmarshal.go | 11 +++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 52574a9..57e34f3 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -3,6 +3,7 @@ package birch
 import (
 	"encoding/base64"
 	"encoding/hex"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -68,7 +69,17 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339)))
+		t := v.Time()
+		if year := t.Year(); year < 0 || year > 9999 {
+			// RFC3339 only has four digit years.
+			return jsonx.VC.ObjectFromElements(
+				jsonx.EC.ObjectFromElements("$date",
+					jsonx.EC.String("$numberLong", strconv.FormatInt(v.DateTime(), 10)),
+				),
+			)
+		}
+
+		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", t.Format(time.RFC3339Nano)))
 	case bsontype.Null:
 		return jsonx.VC.Nil()
 	case bsontype.Regex:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index b71bd47..34eb531 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -277,6 +277,17 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
+			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
+				str, _ := long.ElementAtIndex(0).Value().StringValueOK()
+
+				ms, err := strconv.ParseInt(str, 10, 64)
+				if err != nil {
+					return nil, fmt.Errorf("problem decoding date for %s: %w", in.Key(), err)
+				}
+
+				return EC.DateTime(in.Key(), ms), nil
+			}
+
 			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
 				return nil, fmt.Errorf("problem decoding date for %s", in.Key())
-- 
2.43.0


From 5f3a677ca55c0190516729c08d0da2dee2b82415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 16/76] fix: doubles that JSON cannot represent round trip in
 extended JSON

---
 x_json_marshal.go   | 12 +++++++++++-
 x_json_unmarshal.go | 12 ++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 57e34f3..c3e8a90 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -3,6 +3,7 @@ package birch
 import (
 	"encoding/base64"
 	"encoding/hex"
+	"math"
 	"strconv"
 	"time"
 
@@ -46,7 +47,16 @@ func (v *Value) MarshalJSON() ([]byte, error) { return v.toJSON().MarshalJSON()
 func (v *Value) toJSON() *jsonx.Value {
 	switch v.Type() {
 	case bsontype.Double:
-		return jsonx.VC.Float64(v.Double())
+		switch num := v.Double(); {
+		case math.IsNaN(num):
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", "NaN"))
+		case math.IsInf(num, 1):
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", "Infinity"))
+		case math.IsInf(num, -1):
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", "-Infinity"))
+		default:
+			return jsonx.VC.Float64(num)
+		}
 	case bsontype.String:
 		return jsonx.VC.String(v.StringValue())
 	case bsontype.EmbeddedDocument:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 34eb531..7e1e99f 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -139,6 +139,18 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			}
 
 			return EC.Decimal128(in.Key(), val), nil
+		case "$numberDouble":
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding double for %s", in.Key())
+			}
+
+			val, err := strconv.ParseFloat(str, 64)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Double(in.Key(), val), nil
 		case "$timestamp":
 			var (
 				t   int64
-- 
2.43.0


From 93338154ea0b231654c7f807842f3bce4781fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 17/76] fix: ftdc samples keep the values of doubles

The collectors stored the difference between consecutive doubles, but the
readers restore the stored number as the value of the sample.
---
 x/ftdc/bson_extract.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..e647995 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,9 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		// doubles are stored as they are: the difference between
+		// two doubles is not exact.
+		return normalizeFloat(current.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
-- 
2.43.0


From a18bd7c37b6df8dfbfdf9aef74afcfabd97dffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 18/76] fix: ftdc samples keep the values of timestamps

The collectors store the seconds of a timestamp; the readers started its
series at milliseconds, and added deltas in seconds to that.
---
 x/ftdc/read.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..a5b9231 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -175,5 +175,25 @@ func readBufMetrics(buf *bufio.Reader) (*birch.Document, []Metric, error) {
 		return nil, nil, fmt.Errorf("problem reading reference doc: %w", err)
 	}
 
-	return doc, metricForDocument([]string{}, doc), nil
+	// the series start at the values that the collector extracted
+	// from the reference document.
+	start, err := extractMetricsFromDocument(doc)
+	if err != nil {
+		return nil, nil, fmt.Errorf("problem extracting metrics from the reference doc: %w", err)
+	}
+
+	metrics := metricForDocument([]string{}, doc)
+	if len(start.values) != len(metrics) {
+		return nil, nil, fmt.Errorf("found %d metrics in a reference doc of %d values", len(metrics), len(start.values))
+	}
+
+	for idx, val := range start.values {
+		if start.types[idx] == bsontype.Double {
+			metrics[idx].startingValue = normalizeFloat(val.Double())
+			continue
+		}
+		metrics[idx].startingValue = val.Int64()
+	}
+
+	return doc, metrics, nil
 }
-- 
2.43.0


From f2df3f646bcc80e014dc20b364ba18eed903e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 19/76] fix: ftdc metrics keep the whole path of nested
 documents

---
 x/ftdc/bson_metric.go | 13 +------------
 x/ftdc/ftdc.go        |  2 +-
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..7790dda 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -48,18 +48,7 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
-
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		return metricForDocument(append(path[:len(path):len(path)], key), val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
diff --git a/x/ftdc/ftdc.go b/x/ftdc/ftdc.go
index b3829c7..48b307d 100644
--- a/x/ftdc/ftdc.go
+++ b/x/ftdc/ftdc.go
@@ -104,7 +104,7 @@ type Metric struct {
 }
 
 func (m *Metric) Key() string {
-	return strings.Join(append(m.ParentPath, m.KeyName), ".")
+	return strings.Join(append(m.ParentPath[:len(m.ParentPath):len(m.ParentPath)], m.KeyName), ".")
 }
 
 func (m *Metric) getSeries() any {
-- 
2.43.0


From 1bf5369070c4eacdec316610c9c5b4a97e6133c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 20/76] fix: ftdc dates outside 1678 to 2262 don't overflow

---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..4167d21 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -111,7 +111,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From 6f317112b2b6034bf2d91f7138a714ea556d5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:52 +0000
Subject: [PATCH 21/76] fix: detect every schema change in the dynamic ftdc
 collectors

The dynamic collector kept comparing samples with its first schema, and
added the samples that had it to the last chunk; and samples with the
same keys and different types, or different nesting, had the same hash.
---
 x/ftdc/bson_hash.go         | 38 ++++++++++++++++++++-----------------
 x/ftdc/collector_dynamic.go | 19 +++++++++----------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..117dcde 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"hash"
 	"hash/fnv"
+	"strconv"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/bsontype"
@@ -18,9 +19,11 @@ func metricKeyHash(doc *birch.Document) (string, int) {
 func metricKeyHashDocument(checksum hash.Hash, key string, doc *birch.Document) int {
 	seen := 0
 
+	writeMetricKey(checksum, key, bsontype.EmbeddedDocument)
 	for elem := range doc.Iterator() {
-		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s.%s", key, elem.Key()), elem.Value())
+		seen += metricKeyHashValue(checksum, elem.Key(), elem.Value())
 	}
+	_, _ = checksum.Write([]byte{0})
 
 	return seen
 }
@@ -29,10 +32,12 @@ func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int
 	seen := 0
 	idx := 0
 
+	writeMetricKey(checksum, key, bsontype.Array)
 	for value := range array.Iterator() {
-		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s.%d", key, idx), value)
+		seen += metricKeyHashValue(checksum, strconv.Itoa(idx), value)
 		idx++
 	}
+	_, _ = checksum.Write([]byte{0})
 
 	return seen
 }
@@ -43,25 +48,24 @@ func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int
 		return metricKeyHashArray(checksum, key, value.MutableArray())
 	case bsontype.EmbeddedDocument:
 		return metricKeyHashDocument(checksum, key, value.MutableDocument())
-	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+	case bsontype.Boolean, bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.DateTime:
+		writeMetricKey(checksum, key, value.Type())
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 2
 	default:
+		// the type of a field that isn't a metric doesn't matter
+		writeMetricKey(checksum, key, bsontype.Null)
 		return 0
 	}
 }
+
+// writeMetricKey adds a field to the checksum. Keys can't hold null
+// bytes, so the fields of different schemas are different sequences
+// of bytes.
+func writeMetricKey(checksum hash.Hash, key string, t bsontype.Type) {
+	_, _ = checksum.Write([]byte{byte(t)})
+	_, _ = checksum.Write([]byte(key))
+	_, _ = checksum.Write([]byte{0})
+}
diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..dc09b92 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -57,24 +57,23 @@ func (c *dynamicCollector) Add(in any) error {
 		return errors.New("nil document")
 	}
 
-	if c.hash == "" {
-		docHash, num := metricKeyHash(doc)
+	docHash, num := metricKeyHash(doc)
+	if c.hash == "" || c.hash == docHash {
 		c.hash = docHash
 		c.currentNum = num
-		return (c.chunks[0].Add(doc))
+		return (c.chunks[len(c.chunks)-1].Add(doc))
 	}
 
-	lastChunk := c.chunks[len(c.chunks)-1]
-
-	docHash, _ := metricKeyHash(doc)
-	if c.hash == docHash {
-		return (lastChunk.Add(doc))
+	chunk := newBatchCollector(c.maxSamples)
+	if err := chunk.Add(doc); err != nil {
+		return err
 	}
 
-	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
+	c.hash = docHash
+	c.currentNum = num
 
-	return (chunk.Add(doc))
+	return nil
 }
 
 func (c *dynamicCollector) Resolve() ([]byte, error) {
-- 
2.43.0


From cb778645b2ebbcb23e56e8f35d6d4139efc2442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 22/76] fix: streaming ftdc collectors flush before the
 underlying collector is full

The uncompressed collectors take one sample less than the streaming
collector gave them, and refused everything after that; and resetting a
dynamic streaming collector, as every flush does, replaced the underlying
collector by a compressed one without metadata.
---
 x/ftdc/collector_streaming.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..fbf5e24 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -36,7 +36,7 @@ func newStreamingCollector(maxSamples int, writer io.Writer) *streamingCollector
 
 func (c *streamingCollector) Reset() { c.count = 0; c.Collector.Reset() }
 func (c *streamingCollector) Add(in any) error {
-	if c.count-1 >= c.maxSamples {
+	if c.count >= c.maxSamples {
 		if err := FlushCollector(c, c.output); err != nil {
 			return fmt.Errorf("problem flushing collector contents: %w", err)
 		}
@@ -96,7 +96,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
@@ -108,22 +108,17 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
-	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
-		if c.streamingCollector.count > 0 {
-			if err := FlushCollector(c, c.output); err != nil {
-				return err
-			}
-		}
-		return (c.streamingCollector.Add(doc))
-	}
-
 	if c.metricCount != num || c.hash != docHash {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
 	}
 
-	return (c.streamingCollector.Add(doc))
+	if err := c.streamingCollector.Add(doc); err != nil {
+		return err
+	}
+
+	c.hash = docHash
+	c.metricCount = num
+	return nil
 }
-- 
2.43.0


From 799b3543896fb3413055452b846262a8d77a0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:28 +0000
Subject: [PATCH 23/76] fix: buffered and synchronized ftdc collectors don't
 lose samples

The buffered collector panicked when samples were added as its context was
canceled, and resolved, reset or reported on the underlying collector in
parallel with the samples in its buffer. Flushing either collector dropped
the samples that were added between resolving and resetting it.
---
 x/ftdc/collector_buffered.go  | 93 +++++++++++++++++++++++++++++------
 x/ftdc/collector_streaming.go |  3 ++
 x/ftdc/collector_sync.go      | 10 ++++
 3 files changed, 92 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..f2d8296 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -2,15 +2,23 @@ package ftdc
 
 import (
 	"context"
+	"io"
+	"sync"
 
 	"github.com/tychoish/fun/erc"
 )
 
 type bufferedCollector struct {
 	Collector
-	pipe    chan any
+	pipe    chan func()
+	done    chan struct{}
 	catcher erc.Collector
 	ctx     context.Context
+
+	// senders hold the mutex while they write to the pipe, and
+	// the operations that follow the last of them use it in turn.
+	mtx    sync.RWMutex
+	closed bool
 }
 
 // NewBufferedCollector wraps an existing collector with a buffer to
@@ -18,43 +26,100 @@ type bufferedCollector struct {
 func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collector {
 	c := &bufferedCollector{
 		Collector: coll,
-		pipe:      make(chan any, size),
+		pipe:      make(chan func(), size),
+		done:      make(chan struct{}),
 		ctx:       ctx,
 	}
 
 	go func() {
+		defer close(c.done)
 		for {
 			select {
 			case <-ctx.Done():
+				c.mtx.Lock()
+				c.closed = true
+				c.mtx.Unlock()
+
 				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
-						c.catcher.Push(c.Collector.Add(in))
-					}
+				for op := range c.pipe {
+					op()
 				}
 
 				return
-			case in := <-c.pipe:
-				c.catcher.Push(c.Collector.Add(in))
+			case op := <-c.pipe:
+				op()
 			}
 		}
 	}()
 	return c
 }
 
-func (c *bufferedCollector) Add(in any) error {
+func (c *bufferedCollector) send(op func()) error {
+	c.mtx.RLock()
+	defer c.mtx.RUnlock()
+
+	if c.closed {
+		return c.ctx.Err()
+	}
+
 	select {
 	case <-c.ctx.Done():
 		return c.ctx.Err()
-	case c.pipe <- in:
+	case c.pipe <- op:
 		return nil
 	}
 }
 
-func (c *bufferedCollector) Resolve() ([]byte, error) {
-	if !c.catcher.Ok() {
-		return nil, c.catcher.Resolve()
+// run executes an operation on the underlying collector after all of
+// the samples that are already in the buffer.
+func (c *bufferedCollector) run(op func()) {
+	wait := make(chan struct{})
+	if err := c.send(func() { defer close(wait); op() }); err == nil {
+		<-wait
+		return
 	}
 
-	return c.Collector.Resolve()
+	<-c.done
+
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+	op()
+}
+
+func (c *bufferedCollector) Add(in any) error {
+	return c.send(func() { c.catcher.Push(c.Collector.Add(in)) })
+}
+
+func (c *bufferedCollector) SetMetadata(in any) (err error) {
+	c.run(func() { err = c.Collector.SetMetadata(in) })
+	return err
+}
+
+func (c *bufferedCollector) Resolve() (out []byte, err error) {
+	c.run(func() {
+		if !c.catcher.Ok() {
+			err = c.catcher.Resolve()
+			return
+		}
+		out, err = c.Collector.Resolve()
+	})
+	return out, err
+}
+
+func (c *bufferedCollector) Reset() { c.run(c.Collector.Reset) }
+
+func (c *bufferedCollector) Info() (info CollectorInfo) {
+	c.run(func() { info = c.Collector.Info() })
+	return info
+}
+
+func (c *bufferedCollector) flush(writer io.Writer) (err error) {
+	c.run(func() {
+		if !c.catcher.Ok() {
+			err = c.catcher.Resolve()
+			return
+		}
+		err = FlushCollector(c.Collector, writer)
+	})
+	return err
 }
diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index fbf5e24..583a8a4 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -58,6 +58,9 @@ func FlushCollector(c Collector, writer io.Writer) error {
 	if writer == nil {
 		return errors.New("invalid writer")
 	}
+	if f, ok := c.(interface{ flush(io.Writer) error }); ok {
+		return f.flush(writer)
+	}
 	if c.Info().SampleCount == 0 {
 		return nil
 	}
diff --git a/x/ftdc/collector_sync.go b/x/ftdc/collector_sync.go
index 9647608..f263fee 100644
--- a/x/ftdc/collector_sync.go
+++ b/x/ftdc/collector_sync.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"io"
 	"sync"
 )
 
@@ -51,3 +52,12 @@ func (c *synchronizedCollector) Info() CollectorInfo {
 
 	return c.Collector.Info()
 }
+
+// flush holds the lock from resolving to resetting the collector, so
+// that samples that are added in between aren't lost.
+func (c *synchronizedCollector) flush(writer io.Writer) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	return FlushCollector(c.Collector, writer)
+}
-- 
2.43.0


From a22917004972c846397e717333bb2482a2c7aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 24/76] fix: report every kind of corrupt ftdc data, and don't
 panic on it

Close could return before the errors of the readers were collected, data
that ended after the length of a document looked complete, the checksum of
the chunks was not verified, and malformed chunks caused panics.
---
 x/ftdc/iterator.go       |  9 ++++++++-
 x/ftdc/iterator_chunk.go |  6 ++++--
 x/ftdc/read.go           | 32 +++++++++++++++++++++-----------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/iterator.go b/x/ftdc/iterator.go
index bd2ed7c..e59c42f 100644
--- a/x/ftdc/iterator.go
+++ b/x/ftdc/iterator.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"errors"
 	"io"
 	"iter"
 
@@ -129,7 +130,13 @@ func ReadSeries(r io.Reader) *Iterator[*birch.Document] {
 		return func(yield func(*birch.Document) bool) {
 			defer func() { out.catcher.Push(chunks.Close()) }()
 			for chunk := range chunks.Iterator() {
-				payload, err := util.GlobalMarshaler()(chunk.exportMatrix())
+				marshaler := util.GlobalMarshaler()
+				if marshaler == nil {
+					out.catcher.Push(errors.New("no registered marshaler"))
+					return
+				}
+
+				payload, err := marshaler(chunk.exportMatrix())
 				if err != nil {
 					out.catcher.Push(err)
 					continue
diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..4d794cb 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,10 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// the errors are collected before the iteration can
+			// end, so that Close reports them.
+			go func() { defer close(pipe); out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
+			go func() { defer close(ipc); out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index a5b9231..3011661 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,14 +34,12 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
 		select {
 		case <-ctx.Done():
-			return ctx.Err()
+			return nil
 		case doc, ok := <-ch:
 			if !ok {
 				return nil
@@ -71,7 +68,13 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
-			_, zBytes := zelem.Value().Binary()
+			_, zBytes, ok := zelem.Value().BinaryOK()
+			if !ok {
+				return errors.New("data is not a binary value")
+			}
+			if len(zBytes) < 4 {
+				return errors.New("data is too short to hold a metrics chunk")
+			}
 
 			// the metrics chunk, after the first 4 bytes, is zlib
 			// compressed, so we make a reader for that. data
@@ -79,7 +82,13 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if err != nil {
 				return fmt.Errorf("problem building zlib reader: %w", err)
 			}
-			buf := bufio.NewReader(z)
+			// read all of it before using any: zlib verifies its
+			// checksum at the end.
+			payload, err := io.ReadAll(z)
+			if err != nil {
+				return fmt.Errorf("problem decompressing metrics chunk: %w", err)
+			}
+			buf := bufio.NewReader(bytes.NewBuffer(payload))
 
 			// the metrics chunk, which is *not* bson, first
 			// contains a bson document which begins the
@@ -114,7 +123,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			var nzeroes uint64
 			for i, v := range metrics {
 				metrics[i].startingValue = v.startingValue
-				metrics[i].Values = make([]int64, ndeltas)
+				metrics[i].Values = make([]int64, 0, min(ndeltas, len(payload)))
 
 				for j := 0; j < ndeltas; j++ {
 					var delta uint64
@@ -133,7 +142,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 							}
 						}
 					}
-					metrics[i].Values[j] = int64(delta)
+					metrics[i].Values = append(metrics[i].Values, int64(delta))
 				}
 				if metrics[i].originalType == bsontype.Double {
 					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
@@ -155,14 +164,15 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			}
 		}
 	}
-
-	return nil
 }
 
 func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 	doc := &birch.Document{}
 
-	if _, err := doc.ReadFrom(buf); err != nil {
+	if n, err := doc.ReadFrom(buf); err != nil {
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From 89ab427373644ec31927577b2216d53b7e327ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 25/76] fix: ftdc collectors keep the documents as they were
 when they were added

Collectors held on to the documents and buffers of their callers, and
wrote them when they were resolved: a writer that is given a reused buffer
recorded other data. Also let a nil unset the metadata, as documented.
---
 x/ftdc/bson_extract.go           |  4 ++--
 x/ftdc/collector_better.go       |  8 ++++++--
 x/ftdc/collector_uncompressed.go |  7 ++++++-
 x/ftdc/util.go                   | 26 ++++++++++++++++++++++++++
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index e647995..86f3011 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -89,13 +89,13 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 		}
 		metrics.types = append(metrics.types, bsontype.Boolean)
 	case bsontype.Double:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Double(val.Double()))
 		metrics.types = append(metrics.types, bsontype.Double)
 	case bsontype.Int32:
 		metrics.values = append(metrics.values, birch.VC.Int64(int64(val.Int32())))
 		metrics.types = append(metrics.types, bsontype.Int32)
 	case bsontype.Int64:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Int64(val.Int64()))
 		metrics.types = append(metrics.types, bsontype.Int64)
 	case bsontype.DateTime:
 		metrics.values = append(metrics.values, birch.VC.Int64(epochMs(val.Time())))
diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index cd00b69..5874b78 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,7 +33,7 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
-	doc, err := readDocument(in)
+	doc, err := readMetadata(in)
 	if err != nil {
 		return err
 	}
@@ -75,11 +75,15 @@ func (c *betterCollector) Add(in any) error {
 
 	var metrics extractedMetrics
 	if c.reference == nil {
-		c.reference = doc
+		doc, err = snapshotDocument(doc)
+		if err != nil {
+			return err
+		}
 		metrics, err = extractMetricsFromDocument(doc)
 		if err != nil {
 			return err
 		}
+		c.reference = doc
 		c.startedAt = metrics.ts
 		c.lastSample = &metrics
 		c.deltas = make([]int64, c.maxDeltas*len(c.lastSample.values))
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..dd6e1f9 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -156,7 +156,7 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
-	doc, err := readDocument(in)
+	doc, err := readMetadata(in)
 	if err != nil {
 		return err
 	}
@@ -183,6 +183,11 @@ func (c *uncompressedCollector) Add(in any) error {
 		return errors.New("collector is overfull")
 	}
 
+	doc, err = snapshotDocument(doc)
+	if err != nil {
+		return err
+	}
+
 	c.samples = append(c.samples, doc)
 	return nil
 }
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 4167d21..daac9ee 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -55,6 +55,32 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+// snapshotDocument copies a document, as callers may reuse the documents
+// or the buffers that they pass to a collector.
+func snapshotDocument(doc *birch.Document) (*birch.Document, error) {
+	data, err := doc.MarshalBSON()
+	if err != nil {
+		return nil, fmt.Errorf("problem copying document: %w", err)
+	}
+
+	return birch.ReadDocument(data)
+}
+
+// readMetadata returns a nil document, which unsets the metadata, when
+// there's no metadata.
+func readMetadata(in any) (*birch.Document, error) {
+	if in == nil {
+		return nil, nil
+	}
+
+	doc, err := readDocument(in)
+	if err != nil || doc == nil {
+		return nil, err
+	}
+
+	return snapshotDocument(doc)
+}
+
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
 func undeltaFloats(value int64, deltas []int64) []int64 {
-- 
2.43.0


From 07c017a415c69a9b2cd5f37338b37942efe5c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 26/76] fix: ftdc collectors record the values of maps of
 integers

---
 x/ftdc/util.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index daac9ee..43c7b58 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -29,10 +29,16 @@ func readDocument(in any) (*birch.Document, error) {
 			return nil, fmt.Errorf("problem with unmarshaler: %w", err)
 		}
 		return birch.ReadDocument(data)
-	case map[string]any, map[string]int, map[string]int64, map[string]uint, map[string]uint64:
-		elems := birch.DC.Interface(doc).Elements()
-		sort.Stable(elems)
-		return birch.DC.Elements(elems...), nil
+	case map[string]any:
+		return readMap(doc)
+	case map[string]int:
+		return readMap(doc)
+	case map[string]int64:
+		return readMap(doc)
+	case map[string]uint:
+		return readMap(doc)
+	case map[string]uint64:
+		return readMap(doc)
 	case map[string]string:
 		return nil, errors.New("cannot use string maps for metrics documents")
 	case nil:
@@ -55,6 +61,16 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+func readMap[T any](in map[string]T) (*birch.Document, error) {
+	elems := make(birch.Elements, 0, len(in))
+	for key, value := range in {
+		elems = append(elems, birch.EC.Interface(key, value))
+	}
+
+	sort.Stable(elems)
+	return birch.DC.Elements(elems...), nil
+}
+
 // snapshotDocument copies a document, as callers may reuse the documents
 // or the buffers that they pass to a collector.
 func snapshotDocument(doc *birch.Document) (*birch.Document, error) {
-- 
2.43.0


From 1855dacce40606d26c09d1e2e67a3413b75f5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:30 +0000
Subject: [PATCH 27/76] fix: csv conversion keeps doubles, milliseconds, errors
 and changed schemas

Doubles were written as the bits of their value and dates without their
milliseconds; errors of the conversion to ftdc were dropped, as were all
rows after a change in the number of fields.
---
 x/ftdc/csv.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..a04ca12 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -1,7 +1,6 @@
 package ftdc
 
 import (
-	"context"
 	"encoding/csv"
 	"errors"
 	"fmt"
@@ -23,14 +22,25 @@ func (c *Chunk) getFieldNames() []string {
 	return fieldNames
 }
 
+// formatDouble renders a double so that it doesn't read like an integer.
+func formatDouble(in float64) string {
+	out := strconv.FormatFloat(in, 'g', -1, 64)
+	if _, err := strconv.ParseInt(out, 10, 64); err == nil {
+		out += ".0"
+	}
+	return out
+}
+
 func (c *Chunk) getRecord(i int) []string {
 	fields := make([]string, len(c.Metrics))
 	for idx, m := range c.Metrics {
 		switch m.originalType {
-		case bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
+		case bsontype.Double:
+			fields[idx] = formatDouble(restoreFloat(m.Values[i]))
+		case bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
 			fields[idx] = strconv.FormatInt(m.Values[i], 10)
 		case bsontype.DateTime:
-			fields[idx] = time.Unix(m.Values[i]/1000, 0).Format(time.RFC3339)
+			fields[idx] = timeEpocMs(m.Values[i]).Format(time.RFC3339Nano)
 		}
 	}
 	return fields
@@ -153,7 +163,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // If the number of fields changes in the CSV fields, the first field
 // with the changed number of fields becomes the header for the
 // subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -164,8 +174,9 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 	collector := NewStreamingDynamicCollector(bucketSize, output)
 
 	defer func() {
-		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
+		if err != nil {
 			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
+			return
 		}
 		err = FlushCollector(collector, output)
 	}()
@@ -180,12 +191,14 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 		}
 
 		if err != nil {
-			if pr, ok := err.(*csv.ParseError); ok && pr.Err == csv.ErrFieldCount {
+			if pr, ok := err.(*csv.ParseError); !ok || pr.Err != csv.ErrFieldCount {
+				err = fmt.Errorf("problem parsing csv: %w", err)
+				return err
+			}
+			if len(record) != len(header) {
 				header = record
 				continue
 			}
-			err = fmt.Errorf("problem parsing csv: %w", err)
-			return err
 		}
 		if len(record) != len(header) {
 			return errors.New("unexpected field count change")
@@ -193,12 +206,11 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 
 		elems := make([]*birch.Element, 0, len(header))
 		for idx := range record {
-			var val int
-			val, err = strconv.Atoi(record[idx])
-			if err != nil {
-				continue
+			if val, perr := strconv.ParseInt(record[idx], 10, 64); perr == nil {
+				elems = append(elems, birch.EC.Int64(header[idx], val))
+			} else if val, perr := strconv.ParseFloat(record[idx], 64); perr == nil {
+				elems = append(elems, birch.EC.Double(header[idx], val))
 			}
-			elems = append(elems, birch.EC.Int64(header[idx], int64(val)))
 		}
 
 		if err = collector.Add(birch.DC.Elements(elems...)); err != nil {
-- 
2.43.0


From c80b5ef7acd2d56c6ee26272aae1cacee3dbf542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 28/76] fix: the workers of interval recorders release their
 lock when they stop

A worker whose context was canceled while it waited for the lock returned
with it, which blocked every later operation on the recorder.
---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..b24ba0c 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -52,6 +52,7 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..5e3ab38 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -52,6 +52,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
-- 
2.43.0


From f865610dac7567e637c06aacdfee3e0e890bd6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:52 +0000
Subject: [PATCH 29/76] fix: recorders count every iteration, and keep the ones
 that aren't begun

The interval recorder didn't count iterations, the grouped recorder dropped
iterations without a beginning, and the grouped histogram recorder ignored
its interval.
---
 x/ftdc/events/recorder_histogram_grouped.go    | 1 +
 x/ftdc/events/recorder_performance_grouped.go  | 2 +-
 x/ftdc/events/recorder_performance_interval.go | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 46ae3a3..69ce342 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -31,6 +31,7 @@ type histogramGroupedStream struct {
 func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duration) Recorder {
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
+		interval:  interval,
 		collector: collector,
 	}
 }
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 77d460f..b448fc8 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -44,6 +44,7 @@ func (r *groupStream) SetTime(t time.Time)                { r.point.Timestamp =
 func (r *groupStream) SetDuration(dur time.Duration)      { r.point.Timers.Duration += dur }
 func (r *groupStream) SetTotalDuration(dur time.Duration) { r.point.Timers.Total += dur }
 func (r *groupStream) EndIteration(dur time.Duration) {
+	r.point.setTimestamp(r.started)
 	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
@@ -51,7 +52,6 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 	r.point.Timers.Duration += dur
 
 	if time.Since(r.lastCollected) >= r.interval {
-		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
 		r.point.Timestamp = time.Time{}
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 5e3ab38..22729d5 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -96,6 +96,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 	r.Lock()
 
 	r.point.setTimestamp(r.started)
+	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 		r.started = time.Time{}
-- 
2.43.0


From 65bd25d1d6ec4ca4277ed7b87e5b332e5a36536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:56 +0000
Subject: [PATCH 30/76] fix: event collectors don't share or change the events
 of their callers

The first event became the running total, so that a caller that reuses its
event doubled the total, and adding events changed their ids.
---
 x/ftdc/events/collector.go   |  8 ++++----
 x/ftdc/events/performance.go | 13 +++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..f1aace9 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -48,7 +48,7 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 		return c.Collector.Add(c.current)
 	}
 
@@ -102,7 +102,7 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 	} else {
 		c.current.Add(in)
 	}
@@ -142,7 +142,7 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 	} else {
 		c.current.Add(in)
 	}
@@ -189,7 +189,7 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..544850b 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -158,12 +158,12 @@ func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
 func (p *Performance) Add(in *Performance) {
+	p.Timestamp = in.Timestamp
 	if in.ID == 0 {
-		in.ID = p.ID + 1
+		p.ID++
+	} else {
+		p.ID = in.ID
 	}
-
-	p.Timestamp = in.Timestamp
-	p.ID = in.ID
 	p.Counters.Number += in.Counters.Number
 	p.Counters.Errors += in.Counters.Errors
 	p.Counters.Operations += in.Counters.Operations
@@ -177,6 +177,11 @@ func (p *Performance) Add(in *Performance) {
 	p.Gauges.State = in.Gauges.State
 }
 
+func (p *Performance) clone() *Performance {
+	out := *p
+	return &out
+}
+
 func (p *Performance) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
-- 
2.43.0


From 64f081118cff80562ca33ac8a563b6149cd7cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 31/76] fix: performance events round trip through documents

The id and the number of operations were dropped, and fields of other types
caused panics.
---
 x/ftdc/events/performance.go | 89 ++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 20 deletions(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 544850b..860799f 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -13,6 +13,7 @@
 package events
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch"
@@ -87,22 +88,26 @@ func (p *Performance) MarshalDocument() (*birch.Document, error) {
 
 func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "ts":
-			p.Timestamp = elem.Value().Time()
+			var ok bool
+			if p.Timestamp, ok = elem.Value().TimeOK(); !ok {
+				return unexpectedTypeError(elem)
+			}
 		case "id":
+			err = unmarshalInt64(elem, &p.ID)
 		case "counters":
-			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
-			}
+			err = unmarshalSubDocument(elem, &p.Counters)
 		case "timers":
-			if err := p.Timers.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
-			}
+			err = unmarshalSubDocument(elem, &p.Timers)
 		case "gauges":
-			if err := p.Gauges.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
-			}
+			err = unmarshalSubDocument(elem, &p.Gauges)
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
@@ -111,15 +116,21 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "n":
-			p.Number = elem.Value().Int64()
-		case "opts":
-			p.Operations = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Number)
+		case "ops":
+			err = unmarshalInt64(elem, &p.Operations)
 		case "size":
-			p.Size = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Size)
 		case "errors":
-			p.Errors = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Errors)
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
@@ -128,11 +139,17 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "dur":
-			p.Duration = time.Duration(elem.Value().Int64())
+			err = unmarshalInt64(elem, (*int64)(&p.Duration))
 		case "total":
-			p.Total = time.Duration(elem.Value().Int64())
+			err = unmarshalInt64(elem, (*int64)(&p.Total))
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
@@ -141,19 +158,51 @@ func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "state":
-			p.State = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.State)
 		case "workers":
-			p.Workers = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Workers)
 		case "failed":
-			p.Failed = elem.Value().Boolean()
+			var ok bool
+			if p.Failed, ok = elem.Value().BooleanOK(); !ok {
+				return unexpectedTypeError(elem)
+			}
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
 	return nil
 }
 
+func unexpectedTypeError(elem *birch.Element) error {
+	return fmt.Errorf("unexpected type %s for field '%s'", elem.Value().Type(), elem.Key())
+}
+
+func unmarshalInt64(elem *birch.Element, into *int64) error {
+	val, ok := elem.Value().Int64OK()
+	if !ok {
+		return unexpectedTypeError(elem)
+	}
+
+	*into = val
+	return nil
+}
+
+func unmarshalSubDocument(elem *birch.Element, into birch.DocumentUnmarshaler) error {
+	doc, ok := elem.Value().MutableDocumentOK()
+	if !ok {
+		return unexpectedTypeError(elem)
+	}
+
+	return into.UnmarshalDocument(doc)
+}
+
 // Add combines the values of the input Performance struct into this struct,
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
-- 
2.43.0


From fbd27c7e194b2ca0d879c84b75808830f03b1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:08 +0000
Subject: [PATCH 32/76] fix: marshal every type of value that custom events
 accept

---
 x/ftdc/events/custom.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/custom.go b/x/ftdc/events/custom.go
index b92ed9b..e3ebac3 100644
--- a/x/ftdc/events/custom.go
+++ b/x/ftdc/events/custom.go
@@ -93,7 +93,7 @@ func (ps Custom) MarshalDocument() (*birch.Document, error) {
 	doc := birch.DC.Make(ps.Len())
 
 	for _, elem := range ps {
-		de, err := birch.ECE.Interface(elem.Name, elem.Value)
+		de, err := elem.element()
 		if err != nil {
 			return nil, err
 		}
@@ -102,3 +102,25 @@ func (ps Custom) MarshalDocument() (*birch.Document, error) {
 
 	return doc, nil
 }
+
+func (p CustomPoint) element() (*birch.Element, error) {
+	switch vals := p.Value.(type) {
+	case []bool:
+		return sliceElement(p.Name, vals)
+	case []uint32:
+		return sliceElement(p.Name, vals)
+	case []uint64:
+		return sliceElement(p.Name, vals)
+	default:
+		return birch.ECE.Interface(p.Name, p.Value)
+	}
+}
+
+func sliceElement[T any](key string, in []T) (*birch.Element, error) {
+	vals := make([]any, len(in))
+	for idx := range in {
+		vals[idx] = in[idx]
+	}
+
+	return birch.ECE.SliceInterface(key, vals)
+}
-- 
2.43.0


From 16100de1b656383aa29c7e669d903bea64bca278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 33/76] fix: the shim recorder controls its timer

---
 x/ftdc/events/recorder_wrapper_stdlib.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/recorder_wrapper_stdlib.go b/x/ftdc/events/recorder_wrapper_stdlib.go
index 5f47b8d..fb7fb67 100644
--- a/x/ftdc/events/recorder_wrapper_stdlib.go
+++ b/x/ftdc/events/recorder_wrapper_stdlib.go
@@ -30,11 +30,11 @@ func (r *stdShim) Reset() {
 	r.b.ResetTimer()
 	r.Recorder.Reset()
 }
-func (r *stdShim) Begin() {
+func (r *stdShim) BeginIteration() {
 	r.b.StartTimer()
 	r.Recorder.BeginIteration()
 }
-func (r *stdShim) End(dur time.Duration) {
+func (r *stdShim) EndIteration(dur time.Duration) {
 	r.b.StopTimer()
 	r.Recorder.EndIteration(dur)
 }
-- 
2.43.0


From 84c8902dd3b72bfaf7589cfbea8e78cd742a78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 34/76] fix: the buffered ftdc collector reads the documents
 when they are added

---
 x/ftdc/collector_buffered.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index f2d8296..43de6ff 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -87,7 +87,19 @@ func (c *bufferedCollector) run(op func()) {
 }
 
 func (c *bufferedCollector) Add(in any) error {
-	return c.send(func() { c.catcher.Push(c.Collector.Add(in)) })
+	// read the document now, as callers may reuse it while it's in
+	// the buffer.
+	doc, err := readDocument(in)
+	if err != nil {
+		return err
+	}
+
+	doc, err = snapshotDocument(doc)
+	if err != nil {
+		return err
+	}
+
+	return c.send(func() { c.catcher.Push(c.Collector.Add(doc)) })
 }
 
 func (c *bufferedCollector) SetMetadata(in any) (err error) {
-- 
2.43.0


From 7ba6795956207c84cde50355974c980b79b97d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:35 +0000
Subject: [PATCH 35/76] fix: mongowire reads exactly one whole message at a
 time

Short reads of the size, bodies that end early and messages that follow
each other on a connection were all misread.
---
 x/mrpc/mongowire/sock.go | 120 ++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 76 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..11d5a67 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -11,37 +11,34 @@ import (
 
 const MaxInt32 = 2147483647
 
-func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
-	type readResult struct {
-		n   int
-		err error
+// runWithContext runs a blocking operation, and returns when it has finished or
+// when the context is canceled.
+func runWithContext(ctx context.Context, op func() error) error {
+	if err := ctx.Err(); err != nil {
+		return err
 	}
 
-	// read header
-	sizeBuf := make([]byte, 4)
-
-	readFinished := make(chan readResult)
+	finished := make(chan error, 1)
 
-	go func() {
-		defer close(readFinished)
-
-		n, err := reader.Read(sizeBuf)
-		select {
-		case readFinished <- readResult{n: n, err: err}:
-		case <-ctx.Done():
-		}
-	}()
+	go func() { finished <- op() }()
 
 	select {
 	case <-ctx.Done():
-		return nil, (ctx.Err())
-	case res := <-readFinished:
-		if res.err != nil {
-			return nil, (res.err)
-		}
-		if res.n != 4 {
-			return nil, fmt.Errorf("didn't read message size from socket, got %d", res.n)
-		}
+		return ctx.Err()
+	case err := <-finished:
+		return err
+	}
+}
+
+func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
+	// read header
+	sizeBuf := make([]byte, 4)
+
+	if err := runWithContext(ctx, func() error {
+		_, err := io.ReadFull(reader, sizeBuf)
+		return err
+	}); err != nil {
+		return nil, err
 	}
 
 	header := MessageHeader{}
@@ -56,35 +53,20 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		return nil, errors.New("message header has invalid size")
 	}
 
+	if header.Size < 16 {
+		return nil, fmt.Errorf("message size %d is smaller than a message header", header.Size)
+	}
+
+	// read exactly the bytes of this message, the next one may follow it.
 	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
-		select {
-		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
+	if err := runWithContext(ctx, func() error {
+		_, err := io.CopyN(restBuf, reader, int64(header.Size-4))
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
 		}
+		return err
+	}); err != nil {
+		return nil, err
 	}
 
 	buf := restBuf.Bytes()
@@ -101,31 +83,17 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 	buf := m.Serialize()
 
-	type writeRes struct {
-		n   int
-		err error
-	}
-	for {
-		writeFinished := make(chan writeRes)
-		go func() {
-			defer close(writeFinished)
-			n, err := writer.Write(buf)
-			select {
-			case <-ctx.Done():
-			case writeFinished <- writeRes{n: n, err: err}:
+	return runWithContext(ctx, func() error {
+		for len(buf) > 0 {
+			if err := ctx.Err(); err != nil {
+				return err
 			}
-		}()
-		select {
-		case <-ctx.Done():
-			return (ctx.Err())
-		case res := <-writeFinished:
-			if res.err != nil {
-				return fmt.Errorf("error writing message to client: %w", res.err)
-			}
-			if res.n == len(buf) {
-				return nil
+			n, err := writer.Write(buf)
+			if err != nil {
+				return fmt.Errorf("error writing message to client: %w", err)
 			}
-			buf = buf[res.n:]
+			buf = buf[n:]
 		}
-	}
+		return nil
+	})
 }
-- 
2.43.0


From 9ce8ff6cb822f55adcd91f71e236990c0838efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 36/76] fix: reject malformed wire messages, and follow the
 protocol in OP_MSG

Negative counts, lengths beyond the message and commands without a name
made the parser panic. The size of a document sequence doesn't count its
kind byte, a checksum of zero is still a checksum, and moreToCome is the
second flag.
---
 x/mrpc/mongowire/wire_kill_cursors.go |  4 +-
 x/mrpc/mongowire/wire_message.go      | 72 ++++++++++++++++++++-------
 x/mrpc/mongowire/wire_query.go        |  8 ++-
 3 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..5fe8246 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,8 +56,8 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
-	if len(buf[loc:]) < int(m.NumCursors)*8 {
-		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
+	if m.NumCursors < 0 || len(buf[loc:]) < int(m.NumCursors)*8 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d does not match the number of cursors in message", m.NumCursors)
 	}
 
 	m.CursorIds = make([]int64, int(m.NumCursors))
diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..a3005f7 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -22,6 +22,11 @@ const (
 	OpMessageSectionDocumentSequence = 1
 )
 
+const (
+	opMessageChecksumPresent = 1 << 0
+	opMessageMoreToCome      = 1 << 1
+)
+
 type opMessagePayloadType0 struct {
 	Document *birch.Document
 }
@@ -29,6 +34,9 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
+	if p.Document.Len() == 0 {
+		return ""
+	}
 	return p.Document.ElementAt(0).Key()
 }
 
@@ -72,15 +80,14 @@ func (p *opMessagePayloadType1) DB() string { return "" }
 func (p *opMessagePayloadType1) Documents() []birch.Document { return p.Payload }
 
 func (p *opMessagePayloadType1) Serialize() []byte {
-	size := 1                     // kind
-	size += 4                     // size
+	size := 4                     // size, which does not count the kind
 	size += len(p.Identifier) + 1 // identifier
 	for _, doc := range p.Payload {
 		size += getDocSize(&doc)
 	}
 	p.Size = int32(size)
 
-	buf := bytes.NewBuffer(make([]byte, 0, size))
+	buf := bytes.NewBuffer(make([]byte, 0, 1+size))
 	buf.Write([]byte{p.Type()})
 	writeInt32(p.Size, buf)
 	writeCString(p.Identifier, buf)
@@ -126,10 +133,11 @@ func (m *OpMessage) Serialize() []byte {
 			size += 1 // kind // nolint
 			size += getDocSize(p.Document)
 		case *opMessagePayloadType1:
+			size += 1 // kind // nolint
 			size += int(p.Size)
 		}
 	}
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & opMessageChecksumPresent) != 0 {
 		size += 4
 	}
 	m.header.Size = int32(size)
@@ -139,7 +147,7 @@ func (m *OpMessage) Serialize() []byte {
 
 	buf.Write(sections)
 
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & opMessageChecksumPresent) != 0 {
 		writeInt32(m.Checksum, buf)
 	}
 
@@ -163,7 +171,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= opMessageMoreToCome
 	}
 
 	for idx := range items {
@@ -181,6 +189,19 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	return msg
 }
 
+func readSectionDocument(buf []byte) (*birch.Document, error) {
+	if len(buf) < 4 {
+		return nil, errors.New("document length is too short")
+	}
+
+	size := readInt32(buf)
+	if size < 5 || int(size) > len(buf) {
+		return nil, fmt.Errorf("document size %d does not fit the section", size)
+	}
+
+	return birch.ReadDocument(buf[:size])
+}
+
 func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	if len(body) < 4 {
 		return nil, errors.New("invalid op message - message must have length of at least 4 bytes")
@@ -193,9 +214,17 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	loc := 0
 	msg.Flags = uint32(readInt32(body[loc:]))
 	loc += 4
-	checksumPresent := (msg.Flags & 1) == 1
+	checksumPresent := (msg.Flags & opMessageChecksumPresent) != 0
+
+	end := len(body)
+	if checksumPresent {
+		end -= 4
+	}
+	if end < loc {
+		return nil, errors.New("invalid op message - message has no checksum")
+	}
 
-	for loc < len(body)-4 {
+	for loc < end {
 		kind := int32(body[loc])
 		loc++
 
@@ -203,29 +232,36 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		switch kind {
 		case OpMessageSectionBody:
 			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
+			section.Document, err = readSectionDocument(body[loc:end])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
 			loc += getDocSize(section.Document)
 			msg.Items = append(msg.Items, section)
 		case OpMessageSectionDocumentSequence:
 			section := &opMessagePayloadType1{}
+			if end-loc < 4 {
+				return nil, errors.New("invalid op message - section length is too short")
+			}
 			section.Size = readInt32(body[loc:])
+			if section.Size < 4 || int(section.Size) > end-loc {
+				return nil, fmt.Errorf("invalid op message - section size %d does not fit the message", section.Size)
+			}
+			sectionEnd := loc + int(section.Size)
 			loc += 4
-			section.Identifier, err = readCString(body[loc:])
+			section.Identifier, err = readCString(body[loc:sectionEnd])
 			if err != nil {
 				return nil, fmt.Errorf("could not read identifier: %w", err)
 			}
 			loc += len(section.Identifier) + 1 // c string null terminator
 
-			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+			for loc < sectionEnd {
+				doc, err := readSectionDocument(body[loc:sectionEnd])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
 				section.Payload = append(section.Payload, *doc.Copy())
-				remaining -= docSize
-				loc += docSize
+				loc += getDocSize(doc)
 			}
 			msg.Items = append(msg.Items, section)
 		default:
@@ -233,12 +269,12 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		}
 	}
 
-	if checksumPresent && loc == len(body)-4 {
+	if checksumPresent {
 		msg.Checksum = readInt32(body[loc:])
 		loc += 4
 	}
 
-	msg.header.Size = int32(loc)
+	msg.header.Size = int32(loc) + 16
 
 	return msg, nil
 }
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..ad69ecf 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -57,8 +57,9 @@ func (m *queryMessage) convertToCommand() *CommandMessage {
 
 	return &CommandMessage{
 		header: MessageHeader{
-			OpCode:    OP_COMMAND,
-			RequestID: 19,
+			OpCode:     OP_COMMAND,
+			RequestID:  m.header.RequestID,
+			ResponseTo: m.header.ResponseTo,
 		},
 		DB:          NamespaceToDB(m.Namespace),
 		CmdName:     m.Query.ElementAt(0).Key(),
@@ -114,6 +115,9 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command has no name")
+		}
 		return qm.convertToCommand(), nil
 	}
 
-- 
2.43.0


From b3d47f3f046f6f6b81913eafca0964b3288449fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 37/76] fix: models of wire messages report their flags, and
 get more has a model

---
 x/mrpc/mongowire/message.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..8a0b81d 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&opMessageChecksumPresent != 0
+		op.MoreToCome = m.Flags&opMessageMoreToCome != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
@@ -166,6 +159,12 @@ func GetModel(msg Message) (any, OpType) {
 			Namespace: m.Namespace,
 			Filter:    m.Filter,
 		}, OP_DELETE
+	case *getMoreMessage:
+		return &model.GetMore{
+			Namespace: m.Namespace,
+			CursorID:  m.CursorId,
+			NReturn:   m.NReturn,
+		}, OP_GET_MORE
 	case *insertMessage:
 		return &model.Insert{
 			Namespace: m.Namespace,
@@ -186,15 +185,8 @@ func GetModel(msg Message) (any, OpType) {
 			Update:    m.Update,
 		}
 
-		switch m.Flags {
-		case 1:
-			update.Upsert = true
-		case 2:
-			update.Multi = true
-		case 3:
-			update.Upsert = true
-			update.Multi = true
-		}
+		update.Upsert = m.Flags&1 != 0
+		update.Multi = m.Flags&2 != 0
 
 		return update, OP_UPDATE
 	case *ReplyMessage:
@@ -204,12 +196,8 @@ func GetModel(msg Message) (any, OpType) {
 			Contents:     m.Docs,
 		}
 
-		switch m.Flags {
-		case 1:
-			reply.QueryFailure = true
-		case 0:
-			reply.CursorNotFound = true
-		}
+		reply.CursorNotFound = m.Flags&1 != 0
+		reply.QueryFailure = m.Flags&2 != 0
 
 		return reply, OP_REPLY
 	default:
-- 
2.43.0


From 4702609ee32898d1c6fdf0ed042536cba7a4e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 38/76] fix: mrpc services stop when canceled, and survive
 handlers that panic

---
 x/mrpc/registry.go |  4 ++++
 x/mrpc/service.go  | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/x/mrpc/registry.go b/x/mrpc/registry.go
index 1a9d0c2..e62b338 100644
--- a/x/mrpc/registry.go
+++ b/x/mrpc/registry.go
@@ -34,6 +34,10 @@ func (o *OperationRegistry) Add(op mongowire.OpScope, h HandlerFunc) error {
 }
 
 func (o *OperationRegistry) Get(scope *mongowire.OpScope) (HandlerFunc, bool) {
+	if scope == nil {
+		return nil, false
+	}
+
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 05c88fc..2dcd579 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -61,13 +61,16 @@ func (s *basicService) Run(ctx context.Context) error {
 	}
 	defer func() { _ = l.Close() }()
 
+	// closing the listener is the only way to interrupt Accept.
+	defer context.AfterFunc(ctx, func() { _ = l.Close() })()
+
 	for {
 		if ctx.Err() != nil {
 			return nil
 		}
 
 		conn, err := l.Accept()
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
+		if err != nil && ctx.Err() != nil {
 			return nil
 		} else if err != nil {
 			s.handleError(fmt.Errorf("accepting connection: %w", err))
@@ -120,6 +123,17 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 			return
 		}
 
-		go handler(ctx, conn, m)
+		go s.handleRequest(ctx, conn, handler, m)
 	}
 }
+
+func (s *basicService) handleRequest(ctx context.Context, conn net.Conn, handler HandlerFunc, m mongowire.Message) {
+	defer func() {
+		if p := recover(); p != nil {
+			s.handleError(fmt.Errorf("panic responding to request: %v", p))
+			_ = conn.Close()
+		}
+	}()
+
+	handler(ctx, conn, m)
+}
-- 
2.43.0


From 69386105ad12fe168875f201f49741ecd974dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 39/76] fix: shell responses parse the log, and replies without
 documents

---
 x/mrpc/shell/io.go   | 2 +-
 x/mrpc/shell/util.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/shell/io.go b/x/mrpc/shell/io.go
index f381111..0d6f607 100644
--- a/x/mrpc/shell/io.go
+++ b/x/mrpc/shell/io.go
@@ -210,7 +210,7 @@ func (resp *getLogResponse) UnmarshalDocument(in *birch.Document) error {
 
 	for elem := range in.Iterator() {
 		switch elem.Key() {
-		case "version":
+		case "log":
 			array, ok := elem.Value().MutableArrayOK()
 			if !ok {
 				return fmt.Errorf("could not parse value of correct type [%s] for key %s",
diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..4a54ded 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain a document", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0


From ffa427c0bee0a2b268d0e05dd9bc1172defe10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 40/76] fix: linked list documents report their length, prepend
 in order and set new keys

---
 x/blist/blist.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index a935837..080b8a7 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -10,7 +10,7 @@ type Document struct {
 	dt.List[*birch.Element]
 }
 
-func (d *Document) Len() int { return d.Len() }
+func (d *Document) Len() int { return d.List.Len() }
 func (d *Document) Append(elems ...*birch.Element) *Document {
 	for idx := range elems {
 		if elems[idx] == nil {
@@ -31,7 +31,7 @@ func (d *Document) AppendOmitEmpty(elems ...*birch.Element) *Document {
 	return d
 }
 func (d *Document) Prepend(elems ...*birch.Element) *Document {
-	for idx := range elems {
+	for idx := len(elems) - 1; idx >= 0; idx-- {
 		if elems[idx] == nil {
 			panic(bsonerr.NilElement)
 		}
@@ -46,9 +46,9 @@ func (d *Document) Set(elem *birch.Element) *Document {
 			continue
 		}
 		e.Set(elem)
-		break
+		return d
 	}
-	return d
+	return d.Append(elem)
 }
 
 func (d *Document) Delete(key string) *birch.Element {
-- 
2.43.0


From c4220745031ce31de0b266d92415f3a915e3e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:15 +0000
Subject: [PATCH 41/76] fix: histograms are restored from bson without a
 registered unmarshaler, and checked

---
 x/ftdc/hdrhist/snapshot.go | 72 +++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 1274bb2..2209969 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -2,9 +2,9 @@ package hdrhist
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"github.com/tychoish/birch"
-	"github.com/tychoish/birch/x/ftdc/util"
 	"github.com/tychoish/fun/dt/hdrhist"
 )
 
@@ -28,13 +28,52 @@ func (h *Histogram) MarshalBSON() ([]byte, error) { return birch.MarshalDocument
 func (h *Histogram) MarshalJSON() ([]byte, error) { return json.Marshal(h.Export()) }
 
 func (h *Histogram) UnmarshalBSON(in []byte) error {
-	s := &hdrhist.Snapshot{}
-	if err := util.GlobalUnmarshaler()(in, s); err != nil {
+	doc, err := birch.ReadDocument(in)
+	if err != nil {
 		return err
 	}
 
-	*h = Histogram{hdrhist.Import(s)}
-	return nil
+	return h.UnmarshalDocument(doc)
+}
+
+func (h *Histogram) UnmarshalDocument(doc *birch.Document) error {
+	s := &hdrhist.Snapshot{}
+
+	for elem := range doc.Iterator() {
+		var ok bool
+
+		switch elem.Key() {
+		case "lowest":
+			s.LowestTrackableValue, ok = elem.Value().Int64OK()
+		case "highest":
+			s.HighestTrackableValue, ok = elem.Value().Int64OK()
+		case "figures":
+			s.SignificantFigures, ok = elem.Value().Int64OK()
+		case "counts":
+			var counts *birch.Array
+			if counts, ok = elem.Value().MutableArrayOK(); !ok {
+				break
+			}
+
+			s.Counts = make([]int64, 0, counts.Len())
+			for value := range counts.Iterator() {
+				count, isInt := value.Int64OK()
+				if ok = isInt; !ok {
+					break
+				}
+
+				s.Counts = append(s.Counts, count)
+			}
+		default:
+			continue
+		}
+
+		if !ok {
+			return fmt.Errorf("histogram snapshot has a value of the wrong type for '%s'", elem.Key())
+		}
+	}
+
+	return h.restore(s)
 }
 
 func (h *Histogram) UnmarshalJSON(in []byte) error {
@@ -43,6 +82,29 @@ func (h *Histogram) UnmarshalJSON(in []byte) error {
 		return err
 	}
 
+	return h.restore(s)
+}
+
+// restore checks that the snapshot is one of a histogram, which Import assumes.
+func (h *Histogram) restore(s *hdrhist.Snapshot) error {
+	const maxTrackableValue = 1 << 62
+
+	if s.SignificantFigures < 1 || s.SignificantFigures > 5 {
+		return fmt.Errorf("histogram snapshot has %d significant figures", s.SignificantFigures)
+	}
+
+	if s.LowestTrackableValue < 0 || s.LowestTrackableValue > s.HighestTrackableValue ||
+		s.LowestTrackableValue >= maxTrackableValue>>18 || s.HighestTrackableValue > maxTrackableValue {
+		return fmt.Errorf("histogram snapshot has an invalid range of %d to %d",
+			s.LowestTrackableValue, s.HighestTrackableValue)
+	}
+
+	empty := hdrhist.New(s.LowestTrackableValue, s.HighestTrackableValue, int(s.SignificantFigures))
+	if expected := len(empty.Export().Counts); expected != len(s.Counts) {
+		return fmt.Errorf("histogram snapshot has %d counts, rather than %d", len(s.Counts), expected)
+	}
+
 	*h = Histogram{hdrhist.Import(s)}
+
 	return nil
 }
-- 
2.43.0


From 503add02b3b6ce31ee8a9d14bb12ac7c782ed04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:17 +0000
Subject: [PATCH 42/76] fix: range-check the exponent of decimals written
 without an E

---
 types/decimal.go | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..03ada6b 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -299,42 +299,43 @@ func ParseDecimal128(s string) (Decimal128, error) {
 		}
 
 		e += n
-		for e < -6176 {
-			// Subnormal.
-			var div uint32 = 1
-			for div < 1e9 && e < -6176 {
-				div *= 10
-				e++
-			}
-
-			var rem uint32
-			h, l, rem = divmod(h, l, div)
+	}
 
-			if rem > 0 {
-				return dErr(orig)
-			}
+	for e < -6176 {
+		// Subnormal.
+		var div uint32 = 1
+		for div < 1e9 && e < -6176 {
+			div *= 10
+			e++
 		}
 
-		for e > 6111 {
-			// Clamped.
-			var mul uint32 = 1
-			for mul < 1e9 && e > 6111 {
-				mul *= 10
-				e--
-			}
+		var rem uint32
+		h, l, rem = divmod(h, l, div)
 
-			h, l, ovr = muladd(h, l, mul, 0)
+		if rem > 0 {
+			return dErr(orig)
+		}
+	}
 
-			if ovr > 0 || h&((1<<15-1)<<49) > 0 {
-				return dErr(orig)
-			}
+	for e > 6111 {
+		// Clamped.
+		var mul uint32 = 1
+		for mul < 1e9 && e > 6111 {
+			mul *= 10
+			e--
 		}
 
-		if e < -6176 || e > 6111 {
+		h, l, ovr = muladd(h, l, mul, 0)
+
+		if ovr > 0 || h&((1<<15-1)<<49) > 0 {
 			return dErr(orig)
 		}
 	}
 
+	if e < -6176 || e > 6111 {
+		return dErr(orig)
+	}
+
 	if i < len(s) {
 		return dErr(orig)
 	}
-- 
2.43.0


From e75c5b02106c4170ffb807f9b77599459ac631a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:35 +0000
Subject: [PATCH 43/76] fix: reject decimals that clamping takes beyond 34
 digits

---
 types/decimal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types/decimal.go b/types/decimal.go
index 03ada6b..6f39538 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -147,6 +147,12 @@ var dNaN = Decimal128{0x1F << 58, 0}
 var dPosInf = Decimal128{0x1E << 58, 0}
 var dNegInf = Decimal128{0x3E << 58, 0}
 
+// the largest significand, 10^34-1.
+const (
+	dMaxHigh = 0x1ED09BEAD87C0
+	dMaxLow  = 0x378D8E63FFFFFFFF
+)
+
 func dErr(s string) (Decimal128, error) {
 	return dNaN, fmt.Errorf("cannot parse %q as a decimal128", s)
 }
@@ -327,7 +333,7 @@ func ParseDecimal128(s string) (Decimal128, error) {
 
 		h, l, ovr = muladd(h, l, mul, 0)
 
-		if ovr > 0 || h&((1<<15-1)<<49) > 0 {
+		if ovr > 0 || h > dMaxHigh || h == dMaxHigh && l > dMaxLow {
 			return dErr(orig)
 		}
 	}
-- 
2.43.0


From d65b15aa088fa106c408afb776a7b4dc5932e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:06 +0000
Subject: [PATCH 44/76] fix: refuse JSON values that BSON cannot represent

---
 x_json_unmarshal.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 7e1e99f..3b6c0a2 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -5,7 +5,9 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -90,6 +92,10 @@ func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
 func (DocumentConstructor) JSONX(jd *jsonx.Document) *Document { return erc.Must(DCE.JSONX(jd)) }
 
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
+	if strings.IndexByte(in.Key(), 0) >= 0 {
+		return nil, fmt.Errorf("key %q contains a null byte, which bson keys cannot", in.Key())
+	}
+
 	inv := in.Value()
 	switch inv.Type() {
 	case jsonx.String:
@@ -186,6 +192,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if t < 0 || t > math.MaxUint32 || i < 0 || i > math.MaxUint32 {
+				return nil, fmt.Errorf("timestamp for %s is out of range", in.Key())
+			}
+
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
 			symbol, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
@@ -287,6 +297,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if strings.IndexByte(pattern, 0) >= 0 || strings.IndexByte(options, 0) >= 0 {
+				return nil, fmt.Errorf("regular expression for %s contains a null byte", in.Key())
+			}
+
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
 			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
-- 
2.43.0


From 9a29d4a608d89d50d0197a5fb5ccf4c9ecb6b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:53 +0000
Subject: [PATCH 45/76] fix: refuse JSON numbers without an integer part

---
 jsonx/internal/gjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 92e4e6a..9e4eaf5 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -1187,6 +1187,9 @@ func validnumber(data []byte, i int) (outi int, ok bool) {
 	if i == len(data) {
 		return i, false
 	}
+	if data[i] < '0' || data[i] > '9' {
+		return i, false
+	}
 	if data[i] == '0' {
 		i++
 	} else {
-- 
2.43.0


From 93576b322944cef919d8191df50258af7f436794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:29 +0000
Subject: [PATCH 46/76] fix: every point of the raw and histogram recorders has
 its own timestamp

---
 x/ftdc/events/recorder_histogram.go         | 18 +++++++++++++++---
 x/ftdc/events/recorder_histogram_grouped.go | 18 +++++++++++++++---
 x/ftdc/events/recorder_performance_raw.go   | 19 ++++++++++++++++---
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index b44dd4e..923be51 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -10,6 +10,7 @@ import (
 type histogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
+	persisted bool
 	collector ftdc.Collector
 	catcher   erc.Collector
 }
@@ -48,8 +49,17 @@ func (r *histogramStream) IncError(val int64) {
 	r.catcher.Push(r.point.Counters.Errors.RecordValue(val))
 }
 
-func (r *histogramStream) EndIteration(dur time.Duration) {
+func (r *histogramStream) setTimestamp() {
+	if r.persisted {
+		// the next point has its own timestamp.
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
 	r.point.setTimestamp(r.started)
+}
+
+func (r *histogramStream) EndIteration(dur time.Duration) {
+	r.setTimestamp()
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 	if !r.started.IsZero() {
@@ -58,6 +68,7 @@ func (r *histogramStream) EndIteration(dur time.Duration) {
 	}
 
 	r.catcher.Push(r.collector.Add(r.point))
+	r.persisted = true
 }
 
 func (r *histogramStream) SetDuration(dur time.Duration) {
@@ -72,8 +83,8 @@ func (r *histogramStream) IncIterations(val int64) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(val))
 }
 
-func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t }
-func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.point.setTimestamp(r.started) }
+func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t; r.persisted = false }
+func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.setTimestamp() }
 
 func (r *histogramStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
@@ -88,4 +99,5 @@ func (r *histogramStream) Reset() {
 	r.catcher = erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
+	r.persisted = false
 }
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 69ce342..053dc2e 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -11,6 +11,7 @@ type histogramGroupedStream struct {
 	point         *PerformanceHDR
 	lastCollected time.Time
 	started       time.Time
+	persisted     bool
 	interval      time.Duration
 	collector     ftdc.Collector
 	catcher       erc.Collector
@@ -52,8 +53,17 @@ func (r *histogramGroupedStream) IncError(val int64) {
 	r.catcher.Push(r.point.Counters.Errors.RecordValue(val))
 }
 
-func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
+func (r *histogramGroupedStream) setTimestamp() {
+	if r.persisted {
+		// the next point has its own timestamp.
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
 	r.point.setTimestamp(r.started)
+}
+
+func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
+	r.setTimestamp()
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 
@@ -65,6 +75,7 @@ func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
 	if time.Since(r.lastCollected) >= r.interval {
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
+		r.persisted = true
 	}
 }
 
@@ -80,10 +91,10 @@ func (r *histogramGroupedStream) IncIterations(val int64) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(val))
 }
 
-func (r *histogramGroupedStream) SetTime(t time.Time) { r.point.Timestamp = t }
+func (r *histogramGroupedStream) SetTime(t time.Time) { r.point.Timestamp = t; r.persisted = false }
 func (r *histogramGroupedStream) BeginIteration() {
 	r.started = time.Now()
-	r.point.setTimestamp(r.started)
+	r.setTimestamp()
 }
 
 func (r *histogramGroupedStream) EndTest() error {
@@ -100,4 +111,5 @@ func (r *histogramGroupedStream) Reset() {
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.lastCollected = time.Time{}
 	r.started = time.Time{}
+	r.persisted = false
 }
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index f3c086a..9e05063 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -9,6 +9,7 @@ import (
 
 type rawStream struct {
 	started   time.Time
+	persisted bool
 	point     *Performance
 	collector ftdc.Collector
 	catcher   erc.Collector
@@ -26,8 +27,7 @@ func NewRawRecorder(collector ftdc.Collector) Recorder {
 	}
 }
 
-func (r *rawStream) BeginIteration()                    { r.started = time.Now(); r.point.setTimestamp(r.started) }
-func (r *rawStream) SetTime(t time.Time)                { r.point.Timestamp = t }
+func (r *rawStream) SetTime(t time.Time)                { r.point.Timestamp = t; r.persisted = false }
 func (r *rawStream) SetID(val int64)                    { r.point.ID = val }
 func (r *rawStream) SetTotalDuration(dur time.Duration) { r.point.Timers.Total = dur }
 func (r *rawStream) SetDuration(dur time.Duration)      { r.point.Timers.Duration = dur }
@@ -38,15 +38,27 @@ func (r *rawStream) IncError(val int64)                 { r.point.Counters.Error
 func (r *rawStream) SetState(val int64)                 { r.point.Gauges.State = val }
 func (r *rawStream) SetWorkers(val int64)               { r.point.Gauges.Workers = val }
 func (r *rawStream) SetFailed(val bool)                 { r.point.Gauges.Failed = val }
+
+func (r *rawStream) setTimestamp() {
+	if r.persisted {
+		// the next point has its own timestamp.
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
+	r.point.setTimestamp(r.started)
+}
+
+func (r *rawStream) BeginIteration() { r.started = time.Now(); r.setTimestamp() }
 func (r *rawStream) EndIteration(dur time.Duration) {
 	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 	}
 
-	r.point.setTimestamp(r.started)
+	r.setTimestamp()
 	r.point.Timers.Duration += dur
 	r.catcher.Push(r.collector.Add(r.point))
+	r.persisted = true
 	r.started = time.Time{}
 }
 
@@ -65,4 +77,5 @@ func (r *rawStream) Reset() {
 		Gauges: r.point.Gauges,
 	}
 	r.started = time.Time{}
+	r.persisted = false
 }
-- 
2.43.0


From bb580bbcbe5ca5269a68a998d79f03ea8b6509f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:29 +0000
Subject: [PATCH 47/76] fix: EndTest returns all errors of the collector,
 rather than an emptied list

---
 x/ftdc/events/recorder_histogram.go            | 5 +++--
 x/ftdc/events/recorder_histogram_grouped.go    | 5 +++--
 x/ftdc/events/recorder_histogram_interval.go   | 5 +++--
 x/ftdc/events/recorder_histogram_single.go     | 5 +++--
 x/ftdc/events/recorder_performance_grouped.go  | 5 +++--
 x/ftdc/events/recorder_performance_interval.go | 5 +++--
 x/ftdc/events/recorder_performance_raw.go      | 5 +++--
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index 923be51..7835c4b 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -12,7 +12,7 @@ type histogramStream struct {
 	started   time.Time
 	persisted bool
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewHistogramRecorder collects data and stores them with a histogram format.
@@ -30,6 +30,7 @@ func NewHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -96,7 +97,7 @@ func (r *histogramStream) EndTest() error {
 }
 
 func (r *histogramStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 	r.persisted = false
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 053dc2e..a4942ad 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -14,7 +14,7 @@ type histogramGroupedStream struct {
 	persisted     bool
 	interval      time.Duration
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewHistogramGroupedRecorder captures data and stores them with a
@@ -34,6 +34,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		interval:  interval,
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -107,7 +108,7 @@ func (r *histogramGroupedStream) EndTest() error {
 }
 
 func (r *histogramGroupedStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.lastCollected = time.Time{}
 	r.started = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index b24ba0c..2b0f686 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -13,7 +13,7 @@ type intervalHistogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -35,6 +35,7 @@ func NewIntervalHistogramRecorder(ctx context.Context, collector ftdc.Collector,
 		rootCtx:   ctx,
 		interval:  interval,
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -144,7 +145,7 @@ func (r *intervalHistogramStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_single.go b/x/ftdc/events/recorder_histogram_single.go
index 0d3f9f8..26ccc13 100644
--- a/x/ftdc/events/recorder_histogram_single.go
+++ b/x/ftdc/events/recorder_histogram_single.go
@@ -11,7 +11,7 @@ type histogramSingle struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewSingleHistogramRecorder collects data and stores them with a histogram
@@ -29,6 +29,7 @@ func NewSingleHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramSingle{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -82,7 +83,7 @@ func (r *histogramSingle) EndTest() error {
 }
 
 func (r *histogramSingle) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index b448fc8..5025798 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -13,7 +13,7 @@ type groupStream struct {
 	interval      time.Duration
 	point         *Performance
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewGroupedRecorder blends the single and the interval recorders, but it
@@ -28,6 +28,7 @@ func NewGroupedRecorder(collector ftdc.Collector, interval time.Duration) Record
 		point:         &Performance{Timestamp: time.Time{}},
 		interval:      interval,
 		lastCollected: time.Now(),
+		catcher:       &erc.Collector{},
 	}
 }
 
@@ -69,7 +70,7 @@ func (r *groupStream) EndTest() error {
 }
 
 func (r *groupStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 22729d5..858b73e 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -13,7 +13,7 @@ type intervalStream struct {
 	point     *Performance
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -35,6 +35,7 @@ func NewIntervalRecorder(ctx context.Context, collector ftdc.Collector, interval
 		rootCtx:   ctx,
 		point:     &Performance{Timestamp: time.Time{}},
 		interval:  interval,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -131,7 +132,7 @@ func (r *intervalStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index 9e05063..941d164 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -12,7 +12,7 @@ type rawStream struct {
 	persisted bool
 	point     *Performance
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewRawRecorder records a new event every time that the EndIteration method
@@ -24,6 +24,7 @@ func NewRawRecorder(collector ftdc.Collector) Recorder {
 	return &rawStream{
 		collector: collector,
 		point:     &Performance{Timestamp: time.Time{}},
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -72,7 +73,7 @@ func (r *rawStream) EndTest() error {
 }
 
 func (r *rawStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
-- 
2.43.0


From d64411e6d50e5b97a0e1b686a127d518eb9cdc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:41 +0000
Subject: [PATCH 48/76] fix: interval recorders persist what was recorded in an
 iteration that isn't ended

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 2b0f686..2776bc2 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -121,6 +121,7 @@ func (r *intervalHistogramStream) EndTest() error {
 	r.Lock()
 
 	if !r.started.IsZero() {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
 		r.started = time.Time{}
 	}
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 858b73e..35b232f 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -110,6 +110,10 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 func (r *intervalStream) EndTest() error {
 	r.Lock()
 
+	if !r.started.IsZero() {
+		// the point may be new since the iteration began.
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-- 
2.43.0


From d888a4e144fc1d4d3eaf913bd5272a6952730e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:14 +0000
Subject: [PATCH 49/76] fix: the zero value of an OperationRegistry can be used

---
 x/mrpc/registry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/mrpc/registry.go b/x/mrpc/registry.go
index e62b338..2191574 100644
--- a/x/mrpc/registry.go
+++ b/x/mrpc/registry.go
@@ -28,6 +28,10 @@ func (o *OperationRegistry) Add(op mongowire.OpScope, h HandlerFunc) error {
 		return fmt.Errorf("operation '%+v' is already defined", op)
 	}
 
+	if o.ops == nil {
+		o.ops = map[mongowire.OpScope]HandlerFunc{}
+	}
+
 	o.ops[op] = h
 
 	return nil
-- 
2.43.0


From 7a9b4551e8d500ae9d4ed14068084a2b60dade64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 50/76] fix: collecting JSON reports errors of its source and
 lines that are too long, rather than end there

---
 x/ftdc/metrics/json.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..e348e65 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -73,6 +73,10 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 
 				out <- doc
 			}
+
+			if err := stream.Err(); err != nil {
+				errs <- fmt.Errorf("problem reading input: %w", err)
+			}
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
@@ -108,6 +112,10 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				case <-ctx.Done():
 				}
 			}
+
+			if err := stream.Err(); err != nil {
+				errs <- fmt.Errorf("problem reading data file %s: %w", opts.FileName, err)
+			}
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
-- 
2.43.0


From 73092848e56bacbd89c550deab4d36b2056f2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 51/76] fix: cancelled and failed JSON collections leave no
 goroutine behind, and a cancelled one is an error

---
 x/ftdc/metrics/json.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index e348e65..3026b00 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -71,7 +71,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 					return
 				}
 
-				out <- doc
+				select {
+				case out <- doc:
+				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
+				}
 			}
 
 			if err := stream.Err(); err != nil {
@@ -110,6 +115,8 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				select {
 				case out <- doc:
 				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
 				}
 			}
 
@@ -201,13 +208,19 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 		return nil
 	}
 
-	docs, errs := opts.getSource(ctx)
+	sctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	docs, errs := opts.getSource(sctx)
 
 	for {
 		select {
 		case <-ctx.Done():
 			return errors.New("operation aborted")
 		case err := <-errs:
+			if ctx.Err() != nil {
+				return errors.New("operation aborted")
+			}
 			if err == nil || errors.Is(err, io.EOF) {
 				if err := flusher(); err != nil {
 					return fmt.Errorf("problem flushing: %w", err)
-- 
2.43.0


From 75656c1ae8411c7bdb891f265bd363238c3d34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 52/76] fix: a panic of the source of a JSON collection is its
 error

---
 x/ftdc/metrics/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 3026b00..6630e02 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -50,12 +50,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	switch {
 	case opts.InputSource != nil:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			stream := bufio.NewScanner(opts.InputSource)
 
@@ -85,12 +85,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 			f, err := os.Open(opts.FileName)
 			if err != nil {
 				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
@@ -126,12 +126,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			if err := follow(ctx, opts.FileName, func(in string) error {
 				jd, err := jsonx.DCE.Bytes([]byte(in))
-- 
2.43.0


From 035a0da5ea95644f306a8af38812302e05fb4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 53/76] fix: following a JSON file reads everything that is
 written to it, in whole lines

---
 x/ftdc/metrics/json.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 6630e02..d72ae89 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"strings"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -256,19 +257,41 @@ func follow(ctx context.Context, filename string, handler func(string) error) er
 		return err
 	}
 
-	stream := bufio.NewScanner(bufio.NewReader(file))
+	var line string
+
+	stream := bufio.NewReader(file)
+	readLines := func() error {
+		for {
+			part, err := stream.ReadString('\n')
+			line += part
+
+			if errors.Is(err, io.EOF) {
+				// the rest of this line isn't written yet
+				return nil
+			}
+			if err != nil {
+				return err
+			}
+
+			if err := handler(strings.TrimRight(line, "\r\n")); err != nil {
+				return err
+			}
+			line = ""
+		}
+	}
+
+	// what was written before the watcher was added has no event
+	if err := readLines(); err != nil {
+		return err
+	}
+
 	for {
 		select {
 		case <-ctx.Done():
 			return errors.New("operation aborted")
 		case event := <-watcher.Events:
 			if event.Op&fsnotify.Write == fsnotify.Write {
-				for stream.Scan() {
-					if err := handler(stream.Text()); err != nil {
-						return err
-					}
-				}
-				if err := stream.Err(); err != nil {
+				if err := readLines(); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From 698948a724a0689210b61266b35f9a1001578f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 54/76] fix: parallel metrics collectors end, and their panics
 are reported

---
 x/ftdc/metrics/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..d63e3c0 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,12 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
-- 
2.43.0


From b9970f2df1876aab303d619f0de233a0ac51543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:27 +0000
Subject: [PATCH 55/76] fix: CollectRuntime closes its last file

---
 x/ftdc/metrics/metrics.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index d63e3c0..5bb398a 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -190,6 +190,8 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
+	defer func() { _ = file.Close() }()
+
 	collector := ftdc.NewStreamingCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
-- 
2.43.0


From 740f37fd2436bb5e0558f478534401cd3b9cf9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:26 +0000
Subject: [PATCH 56/76] fix: histograms of high values are restored, unless
 they are too high for their precision

---
 x/ftdc/hdrhist/snapshot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 2209969..d9cc05a 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -3,6 +3,7 @@ package hdrhist
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/fun/dt/hdrhist"
@@ -93,8 +94,11 @@ func (h *Histogram) restore(s *hdrhist.Snapshot) error {
 		return fmt.Errorf("histogram snapshot has %d significant figures", s.SignificantFigures)
 	}
 
+	// the logarithm of the number of counts in the lowest bucket.
+	subBuckets := int(math.Ceil(math.Log2(2 * math.Pow10(int(s.SignificantFigures)))))
+
 	if s.LowestTrackableValue < 0 || s.LowestTrackableValue > s.HighestTrackableValue ||
-		s.LowestTrackableValue >= maxTrackableValue>>18 || s.HighestTrackableValue > maxTrackableValue {
+		s.LowestTrackableValue >= maxTrackableValue>>subBuckets || s.HighestTrackableValue > maxTrackableValue {
 		return fmt.Errorf("histogram snapshot has an invalid range of %d to %d",
 			s.LowestTrackableValue, s.HighestTrackableValue)
 	}
-- 
2.43.0


From c846964f0cf0f289b3891ad5d70274446b7e1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:48 +0000
Subject: [PATCH 57/76] fix: interval recorders persist what concurrent
 iterations recorded before the end of the test

---
 x/ftdc/events/recorder_performance_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 35b232f..115760f 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -110,7 +110,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 func (r *intervalStream) EndTest() error {
 	r.Lock()
 
-	if !r.started.IsZero() {
+	if !r.started.IsZero() || r.point.Counters != (PerformanceCounters{}) || r.point.Timers != (PerformanceTimers{}) {
 		// the point may be new since the iteration began.
 		r.point.setTimestamp(r.started)
 	}
-- 
2.43.0


From 1b7b5bb4e8bb7003935af233b1b5902aadd35bb2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:57:13 +0000
Subject: [PATCH 58/76] fix: paths match the indexes of arrays only in their
 one form

---
 array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index a3641d2..d4f6843 100644
--- a/array.go
+++ b/array.go
@@ -98,8 +98,9 @@ func (a *Array) findElementForStrKey(key ...string) *Element {
 		return nil
 	}
 
+	// the keys of an array have one form: "01" or "+1" are no keys.
 	idx, err := strconv.Atoi(key[0])
-	if err != nil {
+	if err != nil || strconv.Itoa(idx) != key[0] {
 		return nil
 	}
 	val, err := a.Lookup(uint(idx))
-- 
2.43.0


From d24348354ff5dcc116a7202c6c7ad0e5fb1245a2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 59/76] fix: collectors refuse documents that cannot be encoded
 before they have an effect

---
 x/ftdc/util.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 43c7b58..a5af241 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -18,9 +18,13 @@ import (
 func readDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
-		return doc, nil
+		return validDocument(doc)
 	case birch.DocumentMarshaler:
-		return doc.MarshalDocument()
+		out, err := doc.MarshalDocument()
+		if err != nil {
+			return nil, err
+		}
+		return validDocument(out)
 	case []byte:
 		return birch.ReadDocument(doc)
 	case birch.Marshaler:
@@ -61,6 +65,15 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+// validDocument refuses the documents that cannot be recorded, before
+// they have an effect on the collector.
+func validDocument(doc *birch.Document) (*birch.Document, error) {
+	if _, err := doc.Validate(); err != nil {
+		return nil, fmt.Errorf("invalid document: %w", err)
+	}
+	return doc, nil
+}
+
 func readMap[T any](in map[string]T) (*birch.Document, error) {
 	elems := make(birch.Elements, 0, len(in))
 	for key, value := range in {
@@ -68,7 +81,7 @@ func readMap[T any](in map[string]T) (*birch.Document, error) {
 	}
 
 	sort.Stable(elems)
-	return birch.DC.Elements(elems...), nil
+	return validDocument(birch.DC.Elements(elems...))
 }
 
 // snapshotDocument copies a document, as callers may reuse the documents
@@ -88,9 +101,12 @@ func readMetadata(in any) (*birch.Document, error) {
 	if in == nil {
 		return nil, nil
 	}
+	if doc, ok := in.(*birch.Document); ok && doc == nil {
+		return nil, nil
+	}
 
 	doc, err := readDocument(in)
-	if err != nil || doc == nil {
+	if err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 23738db0abde9f8b584ab30047bee0eda2f1ae29 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 60/76] fix: sampling collectors take the next sample after one
 that was refused

---
 x/ftdc/collector_sample.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/collector_sample.go b/x/ftdc/collector_sample.go
index 24b8c9d..aa0f544 100644
--- a/x/ftdc/collector_sample.go
+++ b/x/ftdc/collector_sample.go
@@ -26,7 +26,12 @@ func (c *samplingCollector) Add(d any) error {
 		return nil
 	}
 
-	c.lastCollection = time.Now()
+	now := time.Now()
+	if err := c.Collector.Add(d); err != nil {
+		return err
+	}
+
+	c.lastCollection = now
 
-	return (c.Collector.Add(d))
+	return nil
 }
-- 
2.43.0


From bff1f4623f90fc8762b0cddff73b0e544f376e55 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 61/76] fix: extended JSON objects with missing or other keys
 are refused

---
 x_json_unmarshal.go | 54 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 3b6c0a2..ac65a45 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -91,6 +91,56 @@ func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
 
 func (DocumentConstructor) JSONX(jd *jsonx.Document) *Document { return erc.Must(DCE.JSONX(jd)) }
 
+// checkExtendedJSONKeys reports objects that have the key of an
+// extended JSON type and others that don't belong to it.
+func checkExtendedJSONKeys(doc *jsonx.Document) error {
+	var inner []string
+
+	keys := 1
+	name := doc.KeyAtIndex(0)
+
+	switch name {
+	case "$minKey", "$maxKey", "$numberDecimal", "$numberDouble", "$symbol", "$oid", "$undefined":
+	case "$code":
+		if doc.KeyAtIndex(1) == "$scope" {
+			keys = 2
+		}
+	case "$date":
+		inner = []string{"$numberLong"}
+	case "$timestamp":
+		inner = []string{"t", "i"}
+	case "$dbPointer":
+		inner = []string{"$ref", "$id"}
+	case "$regularExpression":
+		inner = []string{"pattern", "options"}
+	case "$binary":
+		inner = []string{"base64", "subType"}
+	default:
+		return nil
+	}
+
+	if doc.Len() > keys {
+		return fmt.Errorf("unexpected key '%s' beside '%s'", doc.KeyAtIndex(keys), name)
+	}
+
+	value, ok := doc.ElementAtIndex(0).Value().DocumentOK()
+	if inner == nil || !ok {
+		return nil
+	}
+
+	if value.Len() != len(inner) {
+		return fmt.Errorf("'%s' has %d keys, rather than %d", name, value.Len(), len(inner))
+	}
+
+	for _, key := range inner {
+		if value.KeyAtIndex(0) != key && value.KeyAtIndex(1) != key {
+			return fmt.Errorf("'%s' has no key '%s'", name, key)
+		}
+	}
+
+	return nil
+}
+
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
 	if strings.IndexByte(in.Key(), 0) >= 0 {
 		return nil, fmt.Errorf("key %q contains a null byte, which bson keys cannot", in.Key())
@@ -128,6 +178,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		return EC.Interface(in.Key(), inv.Interface()), nil
 	case jsonx.ObjectValue:
 		indoc := in.Value().Document()
+		if err := checkExtendedJSONKeys(indoc); err != nil {
+			return nil, fmt.Errorf("problem decoding %s: %w", in.Key(), err)
+		}
+
 		switch indoc.KeyAtIndex(0) {
 		case "$minKey":
 			return EC.MinKey(in.Key()), nil
-- 
2.43.0


From 2d055274e41636faa061dd98596b2ed6d63537cf Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 62/76] fix: csv has a header for chunks without metrics as
 well

The next chunk, with metrics, was written to the same file, after them.
---
 x/ftdc/csv.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index a04ca12..7634860 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -50,10 +50,10 @@ func (c *Chunk) getRecord(i int) []string {
 // an error if the number of metrics changes between points, or if
 // there are any errors writing data.
 func WriteCSV(seq iter.Seq[*Chunk], writer io.Writer) error {
-	var numFields int
+	numFields := -1
 	csvw := csv.NewWriter(writer)
 	for chunk := range seq {
-		if numFields == 0 {
+		if numFields < 0 {
 			fieldNames := chunk.getFieldNames()
 			if err := csvw.Write(fieldNames); err != nil {
 				return fmt.Errorf("problem writing field names: %w", err)
@@ -96,7 +96,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 	var (
 		err       error
 		writer    io.WriteCloser
-		numFields int
+		numFields = -1
 		fileCount int
 		csvw      *csv.Writer
 	)
@@ -110,7 +110,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 			fileCount++
 		}
 
-		if numFields == 0 {
+		if numFields < 0 {
 			fieldNames := chunk.getFieldNames()
 			if err = csvw.Write(fieldNames); err != nil {
 				return fmt.Errorf("problem writing field names: %w", err)
-- 
2.43.0


From 2361e45eefc230043bd49af194ee393ae7cc3a85 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 63/76] fix: list documents refuse to set a nil element

---
 x/blist/blist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index 080b8a7..926885b 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -41,6 +41,10 @@ func (d *Document) Prepend(elems ...*birch.Element) *Document {
 }
 
 func (d *Document) Set(elem *birch.Element) *Document {
+	if elem == nil {
+		panic(bsonerr.NilElement)
+	}
+
 	for e := d.Front(); e.Ok(); e = e.Next() {
 		if e.Value().Key() != elem.Key() {
 			continue
-- 
2.43.0


From 0db5f0c70fe484c118d4d595c64ebb972e249c59 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 64/76] fix: code with scope is read from JSON in either order
 of its keys

---
 x_json_unmarshal.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index ac65a45..ed36a91 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -141,6 +141,17 @@ func checkExtendedJSONKeys(doc *jsonx.Document) error {
 	return nil
 }
 
+// codeBeforeScope returns the document with its first two elements swapped.
+func codeBeforeScope(doc *jsonx.Document) *jsonx.Document {
+	out := jsonx.DC.Make(doc.Len()).Append(doc.ElementAtIndex(1), doc.ElementAtIndex(0))
+
+	for idx := 2; idx < doc.Len(); idx++ {
+		out.Append(doc.ElementAtIndex(idx))
+	}
+
+	return out
+}
+
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
 	if strings.IndexByte(in.Key(), 0) >= 0 {
 		return nil, fmt.Errorf("key %q contains a null byte, which bson keys cannot", in.Key())
@@ -178,6 +189,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		return EC.Interface(in.Key(), inv.Interface()), nil
 	case jsonx.ObjectValue:
 		indoc := in.Value().Document()
+		if indoc.KeyAtIndex(0) == "$scope" && indoc.KeyAtIndex(1) == "$code" {
+			// the keys of an object have no order.
+			indoc = codeBeforeScope(indoc)
+		}
+
 		if err := checkExtendedJSONKeys(indoc); err != nil {
 			return nil, fmt.Errorf("problem decoding %s: %w", in.Key(), err)
 		}
-- 
2.43.0


From 13fa4fa78c7e32787e21fbef855818651dbcc625 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 65/76] fix: JSON dates are written in UTC, as offsets of zones
 may have seconds

---
 x_json_marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index c3e8a90..c13e49f 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -79,7 +79,7 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		t := v.Time()
+		t := v.Time().UTC()
 		if year := t.Year(); year < 0 || year > 9999 {
 			// RFC3339 only has four digit years.
 			return jsonx.VC.ObjectFromElements(
-- 
2.43.0


From f6154c5d56597ef6b0a70c62cf622b38224ffcde Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 66/76] fix: csv dates are written in UTC, as offsets of zones
 may have seconds

---
 x/ftdc/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index 7634860..e5e31c4 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -40,7 +40,7 @@ func (c *Chunk) getRecord(i int) []string {
 		case bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
 			fields[idx] = strconv.FormatInt(m.Values[i], 10)
 		case bsontype.DateTime:
-			fields[idx] = timeEpocMs(m.Values[i]).Format(time.RFC3339Nano)
+			fields[idx] = timeEpocMs(m.Values[i]).UTC().Format(time.RFC3339Nano)
 		}
 	}
 	return fields
-- 
2.43.0


From 71d4c1d83394cc113222ad4efd6fc3d943f7eb12 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 67/76] fix: flushing an event or sampling collector flushes
 the collector it wraps, atomically

---
 x/ftdc/collector_buffered.go  |  2 +-
 x/ftdc/collector_sample.go    |  5 +++++
 x/ftdc/collector_streaming.go |  8 +++++---
 x/ftdc/collector_sync.go      |  4 ++--
 x/ftdc/events/collector.go    | 30 ++++++++++++++++++++++++++++++
 5 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 43de6ff..b6d8911 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -125,7 +125,7 @@ func (c *bufferedCollector) Info() (info CollectorInfo) {
 	return info
 }
 
-func (c *bufferedCollector) flush(writer io.Writer) (err error) {
+func (c *bufferedCollector) Flush(writer io.Writer) (err error) {
 	c.run(func() {
 		if !c.catcher.Ok() {
 			err = c.catcher.Resolve()
diff --git a/x/ftdc/collector_sample.go b/x/ftdc/collector_sample.go
index aa0f544..a32a84b 100644
--- a/x/ftdc/collector_sample.go
+++ b/x/ftdc/collector_sample.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"io"
 	"time"
 )
 
@@ -35,3 +36,7 @@ func (c *samplingCollector) Add(d any) error {
 
 	return nil
 }
+
+func (c *samplingCollector) Flush(writer io.Writer) error {
+	return FlushCollector(c.Collector, writer)
+}
diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index 583a8a4..a929db5 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -53,13 +53,15 @@ func (c *streamingCollector) Add(in any) error {
 // FlushCollector writes the contents of a collector out to an
 // io.Writer. This is useful in the context of any collector, but is
 // particularly useful in the context of streaming collectors, which
-// flush data periodically and may have cached data.
+// flush data periodically and may have cached data. The collectors that
+// have a Flush method, as those that are safe for concurrent use do,
+// are flushed by it.
 func FlushCollector(c Collector, writer io.Writer) error {
 	if writer == nil {
 		return errors.New("invalid writer")
 	}
-	if f, ok := c.(interface{ flush(io.Writer) error }); ok {
-		return f.flush(writer)
+	if f, ok := c.(interface{ Flush(io.Writer) error }); ok {
+		return f.Flush(writer)
 	}
 	if c.Info().SampleCount == 0 {
 		return nil
diff --git a/x/ftdc/collector_sync.go b/x/ftdc/collector_sync.go
index f263fee..5449526 100644
--- a/x/ftdc/collector_sync.go
+++ b/x/ftdc/collector_sync.go
@@ -53,9 +53,9 @@ func (c *synchronizedCollector) Info() CollectorInfo {
 	return c.Collector.Info()
 }
 
-// flush holds the lock from resolving to resetting the collector, so
+// Flush holds the lock from resolving to resetting the collector, so
 // that samples that are added in between aren't lost.
-func (c *synchronizedCollector) flush(writer io.Writer) error {
+func (c *synchronizedCollector) Flush(writer io.Writer) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index f1aace9..8dba6f9 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -1,6 +1,7 @@
 package events
 
 import (
+	"io"
 	"math/rand"
 	"sync"
 	"time"
@@ -43,6 +44,10 @@ func NewBasicCollector(fc ftdc.Collector) Collector {
 }
 
 func (c *basicCumulativeCollector) Add(any) error { return nil }
+func (c *basicCumulativeCollector) Flush(w io.Writer) error {
+	return ftdc.FlushCollector(c.Collector, w)
+}
+
 func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 	if in == nil {
 		return errors.New("cannot add nil performance event")
@@ -70,6 +75,10 @@ func NewPassthroughCollector(fc ftdc.Collector) Collector {
 }
 
 func (c *passthroughCollector) Add(any) error { return nil }
+func (c *passthroughCollector) Flush(w io.Writer) error {
+	return ftdc.FlushCollector(c.Collector, w)
+}
+
 func (c *passthroughCollector) AddEvent(in *Performance) error {
 	if in == nil {
 		return errors.New("cannot add nil performance event")
@@ -96,6 +105,10 @@ func NewSamplingCollector(fc ftdc.Collector, n int) Collector {
 }
 
 func (c *samplingCollector) Add(any) error { return nil }
+func (c *samplingCollector) Flush(w io.Writer) error {
+	return ftdc.FlushCollector(c.Collector, w)
+}
+
 func (c *samplingCollector) AddEvent(in *Performance) error {
 	if in == nil {
 		return errors.New("cannot add nil performance event")
@@ -136,6 +149,10 @@ func NewRandomSamplingCollector(fc ftdc.Collector, sumAll bool, percent int) Col
 }
 
 func (c *randSamplingCollector) Add(any) error { return nil }
+func (c *randSamplingCollector) Flush(w io.Writer) error {
+	return ftdc.FlushCollector(c.Collector, w)
+}
+
 func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	if in == nil {
 		return errors.New("cannot add nil performance event")
@@ -183,6 +200,10 @@ func NewIntervalCollector(fc ftdc.Collector, interval time.Duration) Collector {
 }
 
 func (c *intervalSamplingCollector) Add(any) error { return nil }
+func (c *intervalSamplingCollector) Flush(w io.Writer) error {
+	return ftdc.FlushCollector(c.Collector, w)
+}
+
 func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	if in == nil {
 		return errors.New("cannot add nil performance event")
@@ -253,3 +274,12 @@ func (c *synchronizedCollector) Info() ftdc.CollectorInfo {
 
 	return c.Collector.Info()
 }
+
+// Flush holds the lock from resolving to resetting the collector, so
+// that events that are added in between aren't lost.
+func (c *synchronizedCollector) Flush(w io.Writer) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	return ftdc.FlushCollector(c.Collector, w)
+}
-- 
2.43.0


From d77d766b1e2a5b5de4b15dc43c60cbceee30436b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 68/76] fix: random sampling collects the given percentage of
 events, rather than 1% fewer

---
 x/ftdc/events/collector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 8dba6f9..400cc68 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -179,7 +179,7 @@ func (c *randSamplingCollector) shouldCollect() bool {
 		return false
 	}
 
-	return rand.Intn(101) < c.percent
+	return rand.Intn(100) < c.percent
 }
 
 type intervalSamplingCollector struct {
-- 
2.43.0


From 9b2c8c38e9faefb5f935914e7bce6b77306cdce6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 69/76] fix: json integers and numbers from every constructor
 have their typed access, and convert to bson

---
 jsonx/juniper.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/jsonx/juniper.go b/jsonx/juniper.go
index 7f80ae9..79bff0c 100644
--- a/jsonx/juniper.go
+++ b/jsonx/juniper.go
@@ -78,14 +78,52 @@ func (v *Value) StringValue() string           { return v.value.(string) }
 func (v *Value) Array() *Array                 { return v.value.(*Array) }
 func (v *Value) Document() *Document           { return v.value.(*Document) }
 func (v *Value) Boolean() bool                 { return v.value.(bool) }
-func (v *Value) Int() int                      { return v.value.(int) }
-func (v *Value) Float64() float64              { return v.value.(float64) }
 func (v *Value) StringValueOK() (string, bool) { out, ok := v.value.(string); return out, ok }
 func (v *Value) ArrayOK() (*Array, bool)       { out, ok := v.value.(*Array); return out, ok }
 func (v *Value) DocumentOK() (*Document, bool) { out, ok := v.value.(*Document); return out, ok }
 func (v *Value) BooleanOK() (bool, bool)       { out, ok := v.value.(bool); return out, ok }
-func (v *Value) IntOK() (int, bool)            { out, ok := v.value.(int); return out, ok }
-func (v *Value) Float64OK() (float64, bool)    { out, ok := v.value.(float64); return out, ok }
+
+func (v *Value) Int() int {
+	if out, ok := v.IntOK(); ok {
+		return out
+	}
+
+	return v.value.(int)
+}
+
+func (v *Value) Float64() float64 {
+	if out, ok := v.Float64OK(); ok {
+		return out
+	}
+
+	return v.value.(float64)
+}
+
+// IntOK returns the integer, whichever constructor the value is from.
+func (v *Value) IntOK() (int, bool) {
+	switch val := v.value.(type) {
+	case int:
+		return val, true
+	case int32:
+		return int(val), true
+	case int64:
+		return int(val), true
+	default:
+		return 0, false
+	}
+}
+
+// Float64OK returns the number, whichever constructor the value is from.
+func (v *Value) Float64OK() (float64, bool) {
+	switch val := v.value.(type) {
+	case float64:
+		return val, true
+	case float32:
+		return float64(val), true
+	default:
+		return 0, false
+	}
+}
 
 func (v *Value) Copy() *Value {
 	return &Value{
-- 
2.43.0


From fd81f63465a67f84d41df49bdd7fc9f000366679 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 70/76] fix: json documents that bson can't hold are null
 elements or errors, rather than panics

---
 constructor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/constructor.go b/constructor.go
index 2c8c066..c9646a1 100644
--- a/constructor.go
+++ b/constructor.go
@@ -131,7 +131,14 @@ func (ElementConstructor) Interface(key string, value any) *Element {
 	case []*Value:
 		elem = EC.Array(key, MakeArray(len(t)).Append(t...))
 	case *jsonx.Document:
-		elem = EC.SubDocument(key, DC.JSONX(t))
+		if t != nil {
+			var doc *Document
+
+			doc, err = DCE.JSONX(t)
+			if err == nil {
+				elem = EC.SubDocument(key, doc)
+			}
+		}
 	case *Document:
 		if t != nil {
 			elem = EC.SubDocument(key, t)
-- 
2.43.0


From 6ce2784d751847fc22a0660f345e6d1b5dbc107b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 71/76] fix: elements aren't made of documents that are nil,
 where errors are returned

---
 x_constructor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 926f820..a6d2f75 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/fun/erc"
 )
 
@@ -245,7 +246,7 @@ func (ElementConstructorError) Marshaler(key string, val Marshaler) (*Element, e
 }
 
 func (ElementConstructor) DocumentMarshaler(key string, val DocumentMarshaler) *Element {
-	return EC.SubDocument(key, erc.Must(val.MarshalDocument()))
+	return erc.Must(ECE.DocumentMarshaler(key, val))
 }
 
 func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshaler) (*Element, error) {
@@ -254,6 +255,10 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 		return nil, err
 	}
 
+	if doc == nil {
+		return nil, bsonerr.NilDocument
+	}
+
 	return EC.SubDocument(key, doc), nil
 }
 
-- 
2.43.0


From e9a4e630f91293fa106c8f793e1549849369a3ff Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:45:14 +0000
Subject: [PATCH 72/76] fix: what marshalers give is validated where errors are
 returned

---
 x_constructor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x_constructor.go b/x_constructor.go
index a6d2f75..7893e48 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -242,6 +242,10 @@ func (ElementConstructorError) Marshaler(key string, val Marshaler) (*Element, e
 		return nil, err
 	}
 
+	if _, err = Reader(doc).Validate(); err != nil {
+		return nil, err
+	}
+
 	return EC.SubDocumentFromReader(key, doc), nil
 }
 
-- 
2.43.0


From 30c35b585fcfbb110074ad15aa69138a5753980e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 73/76] fix: elements are taken as they are where errors are
 returned, rather than as documents

---
 constructor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/constructor.go b/constructor.go
index c9646a1..02a48f5 100644
--- a/constructor.go
+++ b/constructor.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/birch/bsontype"
 	"github.com/tychoish/birch/elements"
 	"github.com/tychoish/birch/jsonx"
@@ -187,6 +188,12 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 		default:
 			return EC.Int64(key, int64(t)), nil
 		}
+	case *Element:
+		if t == nil {
+			return nil, bsonerr.NilElement
+		}
+
+		return t, nil
 	case DocumentMarshaler:
 		return ECE.DocumentMarshaler(key, t)
 	case Marshaler:
-- 
2.43.0


From 73b04aac54d49729dbba70ef5ce0b4c42e23b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:57 +0000
Subject: [PATCH 74/76] fix: json of dbpointers with empty namespaces is read
 back

---
 x_json_unmarshal.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index ed36a91..b17ff64 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -326,10 +326,6 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				}
 				count++
 			}
-			if ns == "" || oid == "" {
-				return nil, errors.New("values for dbref are not defined")
-			}
-
 			oidp, err := types.ObjectIDFromHex(oid)
 			if err != nil {
 				return nil, fmt.Errorf("problem parsing oid from dbref at %q: %w", in.Key(), err)
-- 
2.43.0


From 6ad8f61bc096046fbf28b3fd1f83f6b3aa86c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 75/76] fix: uncompressed collectors refuse samples with fields
 after those without

---
 x/ftdc/collector_uncompressed.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index dd6e1f9..4308bef 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -171,11 +171,7 @@ func (c *uncompressedCollector) Add(in any) error {
 		return err
 	}
 
-	if c.metricCount == 0 {
-		c.metricCount = doc.Len()
-	}
-
-	if doc.Len() != c.metricCount {
+	if len(c.samples) > 0 && doc.Len() != c.metricCount {
 		return errors.New("unexpected schema change detected")
 	}
 
@@ -188,6 +184,7 @@ func (c *uncompressedCollector) Add(in any) error {
 		return err
 	}
 
+	c.metricCount = doc.Len()
 	c.samples = append(c.samples, doc)
 	return nil
 }
-- 
2.43.0


From 8868760f4682287d2bce737c9f31f43183b3bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 76/76] fix: interval histogram recorders measure each
 iteration once

---
 x/ftdc/events/recorder_histogram_interval.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 2776bc2..a930a13 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -12,6 +12,7 @@ import (
 type intervalHistogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
+	measured  bool
 	collector ftdc.Collector
 	catcher   *erc.Collector
 	sync.Mutex
@@ -76,6 +77,7 @@ func (r *intervalHistogramStream) BeginIteration() {
 	}
 
 	r.started = time.Now()
+	r.measured = false
 	r.point.setTimestamp(r.started)
 	r.Unlock()
 }
@@ -86,8 +88,9 @@ func (r *intervalHistogramStream) EndIteration(dur time.Duration) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 
-	if !r.started.IsZero() {
+	if !r.started.IsZero() && !r.measured {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		r.measured = true
 	}
 
 	r.Unlock()
@@ -122,7 +125,9 @@ func (r *intervalHistogramStream) EndTest() error {
 
 	if !r.started.IsZero() {
 		r.point.setTimestamp(r.started)
-		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		if !r.measured {
+			r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		}
 		r.started = time.Time{}
 	}
 	if !r.point.Timestamp.IsZero() {
-- 
2.43.0

