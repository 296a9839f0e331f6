From 14848ecf03261d326bb4e0d8135a79578a495e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 01/21] fix: send oversized payloads in several chunks and
 leave nothing of a failed message in the buffer

---
 encoding/encoding_v1/encoderV1.go | 33 +++++++++++++------------------
 encoding/encoding_v2/encoderV2.go | 33 +++++++++++++------------------
 2 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..1ae2975 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -29,6 +29,10 @@ type EncoderV1 struct {
 
 // NewEncoder Creates a new EncoderV1 object
 func NewEncoder(w io.Writer, chunkSize uint16) EncoderV1 {
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
 	return EncoderV1{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -43,7 +47,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the bytes of the message, they are sent in chunks by flush
 func (e EncoderV1) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -55,32 +59,22 @@ func (e EncoderV1) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > int(e.chunkSize) {
+			length = int(e.chunkSize)
+		}
+
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -89,13 +83,14 @@ func (e EncoderV1) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV1) Encode(iVal interface{}) error {
+	// whatever happens, nothing of this message may end up in the next one
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..5057684 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -32,6 +32,10 @@ type EncoderV2 struct {
 
 // NewEncoder Creates a new EncoderV2 object
 func NewEncoder(w io.Writer, chunkSize uint16) EncoderV2 {
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
 	return EncoderV2{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -46,7 +50,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the bytes of the message, they are sent in chunks by flush
 func (e EncoderV2) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -58,34 +62,24 @@ func (e EncoderV2) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > int(e.chunkSize) {
+			length = int(e.chunkSize)
+		}
+
 		log.TraceBytesFromBuf(e.buf)
 
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -94,13 +88,14 @@ func (e EncoderV2) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV2) Encode(iVal interface{}) error {
+	// whatever happens, nothing of this message may end up in the next one
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
-- 
2.43.0


From a80cd6b0fc47eb31a2680c2fda52afeec1967b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 02/21] fix: read string, list, map and struct sizes as
 unsigned and refuse sizes the message cannot back

---
 encoding/encoding_v1/decoderV1.go | 48 +++++++++++++++++++++----------
 encoding/encoding_v2/decoderV2.go | 48 +++++++++++++++++++++----------
 2 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..7c86272 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -159,44 +159,44 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
@@ -248,7 +248,20 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("Couldn't read expected bytes for string. Remaining: %d Expected: %d.", buffer.Len(), size)
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	// every item takes at least one byte
+	if size > buffer.Len() {
+		return nil, errors.New("Couldn't read expected items for slice. Remaining bytes: %d Expected items: %d.", buffer.Len(), size)
+	}
+
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -262,6 +275,11 @@ func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	// every entry takes at least two bytes
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Couldn't read expected entries for map. Remaining bytes: %d Expected entries: %d.", buffer.Len(), size)
+	}
+
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..06fe6e6 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -154,44 +154,44 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
@@ -243,7 +243,20 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("Couldn't read expected bytes for string. Remaining: %d Expected: %d.", buffer.Len(), size)
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	// every item takes at least one byte
+	if size > buffer.Len() {
+		return nil, errors.New("Couldn't read expected items for slice. Remaining bytes: %d Expected items: %d.", buffer.Len(), size)
+	}
+
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -257,6 +270,11 @@ func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	// every entry takes at least two bytes
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Couldn't read expected entries for map. Remaining bytes: %d Expected entries: %d.", buffer.Len(), size)
+	}
+
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
-- 
2.43.0


From 70ee79be716dd3aac5e7027d155c3bcd414858e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 03/21] fix: report a wrongly typed identity or sequence entry
 as an error instead of panicking

---
 encoding/encoding_v1/decoderV1.go | 30 +++++++++++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 30 +++++++++++++++++++++++-------
 encoding/util.go                  |  6 +++++-
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 7c86272..5253ec4 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -343,7 +343,11 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	var ok bool
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: Identity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -378,21 +382,30 @@ func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship,
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	var ok bool
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -463,9 +476,12 @@ func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.Unboun
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
-
 	var ok bool
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
+
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 06fe6e6..8ff7eff 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -655,7 +655,11 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	var ok bool
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: Identity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -690,21 +694,30 @@ func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship,
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	var ok bool
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -775,9 +788,12 @@ func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.Unboun
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
-
 	var ok bool
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
+
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..bd6e2b0 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From 626310d5d9cd18c921f026e313ea2583b523158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 04/21] fix: refuse endlessly nested values instead of
 exhausting the stack

---
 encoding/encoding_v1/decoderV1.go | 10 ++++++++++
 encoding/encoding_v2/decoderV2.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 5253ec4..5a24fee 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -23,8 +23,14 @@ import (
 type DecoderV1 struct {
 	r   io.Reader
 	buf *bytes.Buffer
+
+	// depth is the number of values the value being decoded is nested in
+	depth int
 }
 
+// maxDepth is the deepest nesting of values that is decoded
+const maxDepth = 10000
+
 // NewDecoder Creates a new DecoderV1 object
 func NewDecoder(r io.Reader) DecoderV1 {
 	return DecoderV1{
@@ -101,6 +107,10 @@ func (d DecoderV1) Decode() (interface{}, error) {
 }
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
+	if d.depth > maxDepth {
+		return nil, errors.New("Values are nested too deep. Max depth supported: %d", maxDepth)
+	}
+	d.depth++
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8ff7eff..f21777e 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -18,8 +18,14 @@ import (
 type DecoderV2 struct {
 	r   io.Reader
 	buf *bytes.Buffer
+
+	// depth is the number of values the value being decoded is nested in
+	depth int
 }
 
+// maxDepth is the deepest nesting of values that is decoded
+const maxDepth = 10000
+
 // NewDecoder Creates a new DecoderV2 object
 func NewDecoder(r io.Reader) DecoderV2 {
 	return DecoderV2{
@@ -96,6 +102,10 @@ func (d DecoderV2) Decode() (interface{}, error) {
 }
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
+	if d.depth > maxDepth {
+		return nil, errors.New("Values are nested too deep. Max depth supported: %d", maxDepth)
+	}
+	d.depth++
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
-- 
2.43.0


From dca3aac7a92eeff58270f87486d0ce7b9851e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 05/21] fix: do not print when decoding a local time

---
 encoding/encoding_v2/decoderV2.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index f21777e..dcd9c49 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -408,7 +408,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
-- 
2.43.0


From 191a7fdc5af9442db718fab83566831600b8948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 06/21] fix: let decoded points be encoded again

---
 structures/types/point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structures/types/point.go b/structures/types/point.go
index 6b7dff2..defac79 100644
--- a/structures/types/point.go
+++ b/structures/types/point.go
@@ -13,11 +13,11 @@ type Point2D struct {
 	X, Y float64
 }
 
-func (p *Point2D) Signature() int {
+func (p Point2D) Signature() int {
 	return int(Point2DStructSignature)
 }
 
-func (p *Point2D) AllFields() []interface{} {
+func (p Point2D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y}
 }
 
@@ -26,10 +26,10 @@ type Point3D struct {
 	X, Y, Z float64
 }
 
-func (p *Point3D) Signature() int {
+func (p Point3D) Signature() int {
 	return int(Point3DStructSignature)
 }
 
-func (p *Point3D) AllFields() []interface{} {
+func (p Point3D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y, p.Z}
 }
-- 
2.43.0


From dde2cc9607bff2bb9c3635a853b702f17d1acd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 07/21] fix: encode dates more than 292 years from the epoch
 exactly

---
 encoding/encoding_v2/encoderV2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 5057684..6c9a76b 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -205,7 +205,7 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 		return err
 	}
 
-	return e.encode(int64(d.ToEpochDays()))
+	return e.encode(d.GetTime().Unix() / (24 * 60 * 60))
 }
 
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
-- 
2.43.0


From 11850de64d49e08ef2a3d4f523fae484b51ad1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 08/21] fix: encode the clock reading of a time whatever date
 it carries

---
 encoding/encoding_v2/encoderV2.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 6c9a76b..e336fd2 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -208,6 +208,12 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 	return e.encode(d.GetTime().Unix() / (24 * 60 * 60))
 }
 
+// dayNano gets the nanoseconds since midnight shown by the clock at t
+func dayNano(t time.Time) int64 {
+	hour, minute, second := t.Clock()
+	return int64((hour*60+minute)*60+second)*int64(time.Second) + int64(t.Nanosecond())
+}
+
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.TimeStructSize)})
 	if err != nil {
@@ -219,7 +225,7 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 		return err
 	}
 
-	err = e.encode(c.ToDayNano())
+	err = e.encode(dayNano(c.GetTime()))
 	if err != nil {
 		return err
 	}
@@ -240,7 +246,7 @@ func (e EncoderV2) encodeLocalClock(lc gotime.LocalClock) error {
 		return err
 	}
 
-	return e.encode(lc.ToDayNano())
+	return e.encode(dayNano(lc.GetTime()))
 }
 
 func (e EncoderV2) encodeLocalTime(lt gotime.LocalTime) error {
-- 
2.43.0


From 1d0f928588145a0862711cb89bd243834f026629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 09/21] fix: encode durations as integers and decode them as
 the sum of their parts

---
 encoding/encoding_v2/decoderV2.go | 31 ++++++++++++++++++++++++++++++-
 encoding/encoding_v2/encoderV2.go |  8 ++++----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index dcd9c49..ed96b20 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mindstand/go-bolt/structures/types"
 	"github.com/mindstand/gotime"
 	"io"
+	"math"
 	"time"
 )
 
@@ -567,7 +568,35 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	return newDuration(month, days, seconds, nanoSeconds)
+}
+
+// newDuration adds up the parts of a duration, taking a month as the average month of 365.2425/12 days
+func newDuration(months, days, seconds, nanoSeconds int64) (time.Duration, error) {
+	const (
+		secondsPerMonth = 2629746
+		secondsPerDay   = 24 * 60 * 60
+		limit           = math.MaxInt64 / int64(time.Second)
+	)
+
+	if months < -limit/secondsPerMonth || months > limit/secondsPerMonth ||
+		days < -limit/secondsPerDay || days > limit/secondsPerDay ||
+		seconds < -limit || seconds > limit {
+		return -1, errors.New("duration out of range")
+	}
+
+	seconds += months*secondsPerMonth + days*secondsPerDay
+	if seconds < -limit || seconds > limit {
+		return -1, errors.New("duration out of range")
+	}
+
+	whole := time.Duration(seconds) * time.Second
+	sum := whole + time.Duration(nanoSeconds)
+	if (nanoSeconds > 0 && sum < whole) || (nanoSeconds < 0 && sum > whole) {
+		return -1, errors.New("duration out of range")
+	}
+
+	return sum, nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index e336fd2..8868061 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -304,10 +304,10 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
+	months := int64(0)
+	days := int64(0)
+	seconds := int64(d / time.Second)
+	nano := int64(d % time.Second)
 
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
-- 
2.43.0


From 5ce13433f0fdc9feb72a6564649327d62cde2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 10/21] fix: decode local times and times with a zone id
 correctly near offset changes

---
 encoding/encoding_v2/decoderV2.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index ed96b20..a4bde8d 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -437,7 +437,7 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
-	return gotime.NewLocalTimeFromUnix(epochSeconds, nanoOfDay), nil
+	return gotime.NewLocalTimeFromTime(localTime(epochSeconds, nanoOfDay, time.Local)), nil
 }
 
 func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time, error) {
@@ -517,13 +517,14 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
 	}
 
-	timeWithoutOffsetCorrection := time.Unix(epochSecondLocal, nanoOfDayLocal).In(loc)
+	return localTime(epochSecondLocal, nanoOfDayLocal, loc), nil
+}
 
-	_, offset := timeWithoutOffsetCorrection.Zone() // get second offset from zone
+// localTime gets the time at which calendar and clock in loc show the seconds and nanoseconds since 1970-01-01 00:00
+func localTime(epochSecondLocal, nano int64, loc *time.Location) time.Time {
+	t := time.Unix(epochSecondLocal, nano).UTC()
 
-	return timeWithoutOffsetCorrection.
-			Add(time.Duration(-offset) * time.Second), // correct for zone offset
-		nil
+	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
 }
 
 // todo improve time functions
-- 
2.43.0


From 5b1a4d12443202abff667dbcd2aca9a947f3538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 11/21] fix: read the whole version answer and leave no
 connection behind when opening fails

---
 connection/connection.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..efbf313 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -97,6 +97,7 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		conn.abandon()
 		return nil, err
 	}
 
@@ -242,7 +243,8 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	// the answer may arrive in pieces
+	numRead, err := io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
 	} else if numRead != 4 {
@@ -300,7 +302,7 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return nil
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return errors.New("Unrecognized response type initializing connection: %#v", resp)
 	}
 }
 
@@ -425,6 +427,17 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 	}
 }
 
+// abandon releases the socket of a connection that can not be used any more
+func (c *Connection) abandon() {
+	c.closed = true
+
+	if c.conn != nil {
+		if err := c.conn.Close(); err != nil {
+			log.Errorf("An error occurred closing the connection: %s", err)
+		}
+	}
+}
+
 func (c *Connection) Close() error {
 	if c.closed {
 		return errors.ErrClosed
-- 
2.43.0


From 877f7914e417ab029401cd4812773bc8b96743d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:56 +0000
Subject: [PATCH 12/21] fix: keep a connection in step with the server or close
 it, and one exchange at a time

Transport and decoding errors, unexpected responses and failed resets close
the connection instead of leaving responses behind for the next request; a
failure or a lost connection ends the open transaction; Close always releases
the socket; transaction control, close and the liveness check take the
connection's lock; a closed transaction refuses queries.
---
 connection/connection.go  | 121 +++++++++++++++++++++++++++-----------
 connection/transaction.go |  23 +++++++-
 2 files changed, 107 insertions(+), 37 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index efbf313..b9c9183 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -30,12 +30,14 @@ type readWrite struct {
 func (r *readWrite) Write(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.abandon()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.abandon()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -43,10 +45,14 @@ func (r *readWrite) Write(p []byte) (n int, err error) {
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.abandon()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Read(p)
+	if err != nil {
+		r.connection.abandon()
+	}
 	if err != nil && err != io.EOF {
 		err = driver.ErrBadConn
 	}
@@ -75,7 +81,7 @@ type Connection struct {
 
 	// handlers
 	readWrite   *readWrite
-	transaction ITransaction
+	transaction *boltTransaction
 
 	// connection stuff
 	timeout   time.Duration
@@ -308,6 +314,9 @@ func (c *Connection) sendInit(message structures.Structure) error {
 
 func (c *Connection) ValidateOpen() bool {
 	//log.Tracef("checking validate open")
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed {
 		return false
 	}
@@ -317,14 +326,19 @@ func (c *Connection) ValidateOpen() bool {
 	}
 
 	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
+	// a deadline that has passed already would keep the read from looking at the socket
+	err := c.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
 	if err != nil {
 		return false
 	}
-	if _, err := c.conn.Read(one); err == io.EOF {
+	if _, err := c.conn.Read(one); err == nil {
+		// nothing was asked for, so this is not the start of a response to come
+		c.abandon()
 		return false
-	} else {
+	} else if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
 		return true
+	} else {
+		return false
 	}
 }
 
@@ -347,7 +361,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -364,7 +378,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -372,7 +386,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
@@ -383,8 +397,12 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	if tx != nil && tx.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	log.Tracef("running query")
-	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
+	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, tx == nil))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -404,6 +422,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
+		c.abandon()
 		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
 	}
 
@@ -422,65 +441,91 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
+			c.abandon()
 			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
 		}
 	}
 }
 
-// abandon releases the socket of a connection that can not be used any more
-func (c *Connection) abandon() {
+// abandon ends a connection that can not be used any more: an open transaction is over, the socket is released
+func (c *Connection) abandon() error {
+	if c.closed {
+		return nil
+	}
+
 	c.closed = true
+	c.endTransaction()
 
-	if c.conn != nil {
-		if err := c.conn.Close(); err != nil {
-			log.Errorf("An error occurred closing the connection: %s", err)
-		}
+	if c.conn == nil {
+		return nil
+	}
+
+	err := c.conn.Close()
+	if err != nil {
+		log.Errorf("An error occurred closing the connection: %s", err)
+	}
+
+	return err
+}
+
+// endTransaction forgets the open transaction, if there is one
+func (c *Connection) endTransaction() {
+	if c.transaction != nil {
+		c.transaction.closed = true
+		c.transaction = nil
 	}
 }
 
 func (c *Connection) Close() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed {
 		return errors.ErrClosed
 	}
 
-	if c.transaction != nil {
-		err := c.transaction.Rollback()
-		if err != nil {
-			return err
-		}
-	}
-
 	if c.conn == nil {
 		return errors.New("can not close nil transaction")
 	}
 
-	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
-		err := c.sendMessage(msg)
-		if err != nil {
-			return err
+	var err error
+	if c.transaction != nil {
+		err = c.transaction.rollback()
+	}
+
+	if msg, ok := c.boltProtocol.GetCloseMessage(); ok && !c.closed {
+		sendErr := c.sendMessage(msg)
+		if err == nil {
+			err = sendErr
 		}
 
 		// explicitly not consuming since we're closing the connection
 	}
 
-	err := c.conn.Close()
-	c.closed = true
-	if err != nil {
-		return err
+	// the socket is released whatever became of the rollback and the close message
+	closeErr := c.abandon()
+	if err == nil {
+		err = closeErr
 	}
 
-	return nil
+	return err
 }
 
 func (c *Connection) MakeIdle() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
-		return c.transaction.Rollback()
+		return c.transaction.rollback()
 	}
 
 	return nil
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
@@ -521,12 +566,14 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		c.abandon()
 		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
 	}
 
 	if !isBeginMsg {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			c.abandon()
 			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
 		}
 	}
@@ -564,6 +611,8 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
+		// there is no telling where the next response starts
+		c.abandon()
 		return respInt, err
 	}
 
@@ -575,8 +624,10 @@ func (c *Connection) consume() (interface{}, error) {
 		log.Errorf("Got failure message: %#v", failure)
 		err := c.reset()
 		if err != nil {
-			return nil, errors.Wrap(failure, err.Error())
+			return nil, errors.Wrap(failure, "%s", err.Error())
 		}
+		// the server rolled back the open transaction
+		c.endTransaction()
 		return failure, errors.Wrap(failure, "Neo4J reported a failure for the runQuery")
 	}
 
@@ -589,12 +640,14 @@ func (c *Connection) reset() error {
 	reset := messages.NewResetMessage()
 	err := c.boltProtocol.NewEncoder(c.readWrite, c.chunkSize).Encode(reset)
 	if err != nil {
+		c.abandon()
 		return errors.Wrap(err, "An error occurred encoding reset message")
 	}
 
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.abandon()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
@@ -607,14 +660,14 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
+			err = c.abandon()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
 			}
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.Close()
+			c.abandon()
 			return driver.ErrBadConn
 		}
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..8673f8f 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,7 +13,7 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
@@ -21,7 +21,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -38,7 +38,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -47,6 +47,9 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -88,6 +91,7 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.abandon()
 		return errors.New("Unrecognized response type committing transaction: %#v", success)
 	}
 
@@ -96,6 +100,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.abandon()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
@@ -108,6 +113,13 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
+	return t.rollback()
+}
+
+func (t *boltTransaction) rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -149,6 +161,7 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.abandon()
 		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
 	}
 
@@ -157,6 +170,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.abandon()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
@@ -169,5 +183,8 @@ func (t *boltTransaction) Rollback() error {
 }
 
 func (t *boltTransaction) IsClosed() bool {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	return t.closed
 }
-- 
2.43.0


From 14627a44c103fb3d458af97f06699189808ce38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 13/21] fix: refuse a database name that would not reach the
 server

---
 connection/connection.go  |  5 +++++
 connection/transaction.go | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index b9c9183..752f729 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -534,6 +534,10 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		return nil, errors.New("can not open transaction on closed connection")
 	}
 
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	msg := c.boltProtocol.GetTxBeginMessage(db, c.accessMode)
 
 	_, isBeginMsg := msg.(messages.BeginMessage)
@@ -580,6 +584,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	c.transaction = &boltTransaction{
 		conn:   c,
+		db:     db,
 		closed: false,
 	}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 8673f8f..10b2128 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -9,6 +9,7 @@ import (
 
 type boltTransaction struct {
 	conn   *Connection
+	db     string
 	closed bool
 }
 
@@ -21,6 +22,11 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	// the queries of a transaction run in its database
+	if db != "" && db != t.db {
+		return nil, fmt.Errorf("can not run in database [%s], the transaction is open in database [%s]", db, t.db)
+	}
+
 	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
@@ -38,6 +44,10 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	if db != "" && db != t.db {
+		return nil, nil, fmt.Errorf("can not run in database [%s], the transaction is open in database [%s]", db, t.db)
+	}
+
 	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 49515e448437c2c613903ab31882a6c7b7eaa827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 14/21] fix: bound dialling with TLS by the timeout

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 752f729..6763ef9 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -185,7 +185,7 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 839b1663a32f9258477a809fd820af1ad155e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 15/21] fix: send the discard fields, the realm when given and
 the read mode when asked for

---
 connection/connection.go       | 7 ++++---
 protocol/protocol_v3/bolt.go   | 2 +-
 structures/messages/builder.go | 2 +-
 structures/messages/discard.go | 2 +-
 structures/messages/init.go    | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 6763ef9..a388644 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -119,9 +119,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	}
 
 	connection := Connection{
-		timeout:   time.Second * time.Duration(60),
-		chunkSize: math.MaxUint16,
-		mutex:     sync.Mutex{},
+		accessMode: bolt_mode.WriteMode,
+		timeout:    time.Second * time.Duration(60),
+		chunkSize:  math.MaxUint16,
+		mutex:      sync.Mutex{},
 	}
 
 	connection.hostPort = _url.Host
diff --git a/protocol/protocol_v3/bolt.go b/protocol/protocol_v3/bolt.go
index fae8b4a..2eca833 100644
--- a/protocol/protocol_v3/bolt.go
+++ b/protocol/protocol_v3/bolt.go
@@ -20,7 +20,7 @@ func (b *BoltProtocolV3) GetResultConsumedAfterKey() string {
 }
 
 func (b *BoltProtocolV3) GetDiscardMessage(qid int64) structures.Structure {
-	return messages.NewDiscardMessage(messages.StreamUnlimited, qid)
+	return messages.NewDiscardAllMessage()
 }
 
 func (b *BoltProtocolV3) GetDiscardAllMessage() structures.Structure {
diff --git a/structures/messages/builder.go b/structures/messages/builder.go
index fe4f891..abfc6d1 100644
--- a/structures/messages/builder.go
+++ b/structures/messages/builder.go
@@ -25,7 +25,7 @@ func BuildTxMetadataWithDatabase(txTimeout *time.Duration, txMetadata map[string
 	bookmarksPresent := false
 	txTimeoutPresent := txTimeout != nil && *txTimeout != 0
 	txMetaDataPresent := txMetadata != nil && len(txMetadata) != 0
-	accessModePresent := mode != bolt_mode.ReadMode
+	accessModePresent := mode == bolt_mode.ReadMode
 	databaseNamePresent := databaseName != ""
 
 	if !bookmarksPresent && !txTimeoutPresent && !txMetaDataPresent && !accessModePresent && !databaseNamePresent {
diff --git a/structures/messages/discard.go b/structures/messages/discard.go
index 1be4272..451aa70 100644
--- a/structures/messages/discard.go
+++ b/structures/messages/discard.go
@@ -33,5 +33,5 @@ func (i DiscardMessage) Signature() int {
 
 // AllFields gets the fields to encode for the struct
 func (i DiscardMessage) AllFields() []interface{} {
-	return []interface{}{}
+	return []interface{}{i.metadata}
 }
diff --git a/structures/messages/init.go b/structures/messages/init.go
index dc1a48f..f8ba096 100644
--- a/structures/messages/init.go
+++ b/structures/messages/init.go
@@ -28,7 +28,7 @@ func BuildAuthTokenBasicWithRealm(username, password, realm string) map[string]i
 		CredentialsKey: password,
 	}
 
-	if realm == "" {
+	if realm != "" {
 		toReturn[RealmKey] = realm
 	}
 
-- 
2.43.0


From d55b10dc510a2822989337a2413252fb8b6b7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 16/21] fix: report a statistic the summary does not hold as a
 number as absent instead of panicking

---
 connection/result.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..987ef24 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -30,8 +30,11 @@ func (b *boltResult) GetNodesCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	num, ok := stats["nodes-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +43,11 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	num, ok := stats["relationships-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +56,11 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
+	num, ok := stats["nodes-deleted"].(int64)
 	if !ok {
 		return -1, false
 	}
-	return num.(int64), ok
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +69,11 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	num, ok := stats["relationships-deleted"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From ea53837d10242656c1b5d1cbde0eebbc74fdc784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 17/21] fix: take only a bolt address for the address of a
 cluster node

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..1f418e3 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(str, "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From 47ef5570a2661c084942a8452ba73c2d248720b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 18/21] fix: let the pool replace dead connections and release
 their sockets

---
 connection_pool_factory.go | 18 +++++++-----------
 driver_pool.go             |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..28a770b 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -35,11 +35,13 @@ func (c *ConnectionPooledObjectFactory) DestroyObject(ctx context.Context, objec
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	if conn.ValidateOpen() {
-		return conn.Close()
-	} else {
+	// a dead connection still holds its socket
+	err := conn.Close()
+	if err == errors.ErrClosed {
 		return nil
 	}
+
+	return err
 }
 
 func (c *ConnectionPooledObjectFactory) ValidateObject(ctx context.Context, object *pool.PooledObject) bool {
@@ -73,15 +75,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
+	// the pool destroys what can not be activated and goes on to another object
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		return errors.New("pooled connection is dead")
 	}
 
 	return nil
diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..8923914 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -56,6 +56,10 @@ func (d *driverPool) open() (connection.IConnection, error) {
 		}
 
 		if !conn.ValidateOpen() {
+			if err := d.pool.InvalidateObject(context.Background(), connObj); err != nil {
+				return nil, err
+			}
+
 			return nil, errors.New("pool returned dead connection")
 		}
 
-- 
2.43.0


From a7ebac6a9fdad7f224129c40088e6a146ae6a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 19/21] fix: let connections use all of what the client was
 configured with

Credentials are escaped, the TLS request, timeout and chunk size go into the
connection string whichever way they were given, the routing scheme decides
about routing, and missing host or port and contradictory TLS are refused.
---
 client.go                | 115 +++++++++++++++++++++++----------------
 connection/connection.go |  17 +++++-
 opt.go                   |   4 ++
 routing/pool.go          |  11 +++-
 4 files changed, 96 insertions(+), 51 deletions(-)

diff --git a/client.go b/client.go
index a9002be..b3f4701 100644
--- a/client.go
+++ b/client.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -56,7 +57,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		err := opt(client)
 		if err != nil {
-			return nil, errors.Wrap(errors.ErrConfiguration, err.Error())
+			return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
 		}
 	}
 
@@ -87,7 +88,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "host can not be empty")
 		}
 
-		if client.port <= 0 {
+		if client.port <= 0 || client.port > math.MaxUint16 {
 			return nil, errors.Wrap(errors.ErrConfiguration, "invalid port [%v]", client.port)
 		}
 
@@ -95,16 +96,15 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
+		client.addOptions(&url.URL{
+			Scheme: protocol,
+			Host:   net.JoinHostPort(strings.Trim(client.host, "[]"), strconv.Itoa(client.port)),
+		})
 
-		// append tls portion if needed
-		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
-			client.connStr += tlsPortion
+		if _, err := url.Parse(client.connStr); err != nil {
+			return nil, errors.Wrap(errors.ErrConfiguration, "invalid host [%s]", client.host)
 		}
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -112,19 +112,16 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
-		hostPort := _url.Host
-		if strings.Contains(hostPort, ":") {
-			parts := strings.Split(hostPort, ":")
-			if len(parts) != 2 {
-				return nil, errors.New("host/port invalid")
-			}
-			client.host = parts[0]
-			_port, err := strconv.ParseInt(parts[1], 10, 64)
-			if err != nil {
-				return nil, err
-			}
+		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
 
-			client.port = int(_port)
+		client.host = _url.Hostname()
+		if client.host == "" {
+			return nil, errors.Wrap(errors.ErrConfiguration, "host can not be empty")
+		}
+
+		client.port, err = strconv.Atoi(_url.Port())
+		if err != nil || client.port <= 0 || client.port > math.MaxUint16 {
+			return nil, errors.Wrap(errors.ErrConfiguration, "invalid port [%v]", _url.Port())
 		}
 
 		if _url.User != nil {
@@ -136,18 +133,27 @@ func NewClient(opts ...Opt) (IClient, error) {
 			}
 		}
 
+		tlsAsked := client.useTLS
+		client.addOptions(_url)
+
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
 			timeoutInt, err := strconv.Atoi(timeout)
+			client.timeout = time.Duration(timeoutInt) * time.Second
 			if err != nil {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+				client.timeout, err = time.ParseDuration(timeout)
 			}
 
-			client.timeout = time.Duration(timeoutInt) * time.Second
+			if err != nil {
+				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer or duration", timeout)
+			}
 		}
 
 		useTLS := _url.Query().Get("tls")
 		client.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
+		if tlsAsked && !client.useTLS {
+			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithTLS and turn tls off in the connection string")
+		}
 
 		if client.useTLS {
 			client.certFile = _url.Query().Get("tls_cert_file")
@@ -161,47 +167,60 @@ func NewClient(opts ...Opt) (IClient, error) {
 	return client, nil
 }
 
-func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
+// addOptions makes the connection string, which is what connections are opened with, say what was configured with
+// options. What the string says already stands.
+func (c *Client) addOptions(u *url.URL) {
+	if u.User == nil && c.user != "" {
+		u.User = url.UserPassword(c.user, c.password)
+	}
 
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
+	query := u.Query()
+	if c.useTLS {
+		setIfMissing(query, "tls", "true")
+		setIfMissing(query, "tls_cert_file", c.certFile)
+		setIfMissing(query, "tls_key_file", c.keyFile)
+		setIfMissing(query, "tls_ca_cert_file", c.caCertFile)
+		setIfMissing(query, "tls_no_verify", strconv.FormatBool(c.tlsNoVerify))
+	}
+	setIfMissing(query, "timeout", c.timeout.String())
+	setIfMissing(query, "chunk_size", strconv.Itoa(int(c.chunkSize)))
 
-		if certFile == "" {
-			return "", nil
-		}
+	u.RawQuery = query.Encode()
+	c.connStr = u.String()
+}
 
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+func setIfMissing(query url.Values, key, value string) {
+	if query.Get(key) == "" && value != "" {
+		query.Set(key, value)
 	}
 }
 
-func (c *Client) getUsernamePassword() (string, error) {
+// getTlsPortion gets everything the connection string says besides user and address
+func (c *Client) getTlsPortion() (string, error) {
 	u, err := url.Parse(c.connStr)
 	if err != nil {
 		return "", nil
 	}
 
-	if u.User.Username() == "" {
+	if u.RawQuery == "" {
+		return "", nil
+	}
+
+	return "?" + u.RawQuery, nil
+}
+
+func (c *Client) getUsernamePassword() (string, error) {
+	u, err := url.Parse(c.connStr)
+	if err != nil {
 		return "", nil
 	}
 
-	pwd, ok := u.User.Password()
-	if !ok {
-		pwd = ""
+	if u.User == nil {
+		return "", nil
 	}
 
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	// escaped, as it goes into another connection string
+	return u.User.String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
diff --git a/connection/connection.go b/connection/connection.go
index a388644..89c261e 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -139,11 +139,24 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
 		timeoutInt, err := strconv.Atoi(timeout)
+		connection.timeout = time.Duration(timeoutInt) * time.Second
 		if err != nil {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+			connection.timeout, err = time.ParseDuration(timeout)
 		}
 
-		connection.timeout = time.Duration(timeoutInt) * time.Second
+		if err != nil {
+			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer or duration", timeout)
+		}
+	}
+
+	chunkSize := _url.Query().Get("chunk_size")
+	if chunkSize != "" {
+		size, err := strconv.ParseUint(chunkSize, 10, 16)
+		if err != nil || size == 0 {
+			return nil, fmt.Errorf("Invalid format for chunk_size: %s.  Must be integer between 1 and %v", chunkSize, math.MaxUint16)
+		}
+
+		connection.chunkSize = uint16(size)
 	}
 
 	useTLS := _url.Query().Get("tls")
diff --git a/opt.go b/opt.go
index 5380af0..adf6696 100644
--- a/opt.go
+++ b/opt.go
@@ -18,6 +18,10 @@ func WithConnectionString(connString string) Opt {
 			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithHostPort")
 		}
 
+		if client.routing {
+			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithRouting")
+		}
+
 		client.connStr = connString
 		return nil
 	}
diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..022f3be 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -58,7 +58,11 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 	}
 
 	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+		// only the scheme says routing, anything after it may contain it by chance
+		schemeEnd := strings.Index(leaderConnStr, "://")
+		if schemeEnd >= 0 {
+			leaderConnStr = strings.Replace(leaderConnStr[:schemeEnd], "+routing", "", -1) + leaderConnStr[schemeEnd:]
+		}
 	}
 
 	if numConns == 0 || numConns == 1 {
@@ -557,5 +561,10 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	}
 
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
+
+	if r.userPassPart == "" {
+		return fmt.Sprintf("bolt://%s%s", hostPort, r.tlsInfo)
+	}
+
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
-- 
2.43.0


From 278fbf979389333182a015e5cf01734a7da5a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 20/21] fix: lend live connections of the routing pool to one
 borrower at a time and close what it removes

Borrowing, starting and stopping take the lock exclusively; removed connections
are always closed and can be replaced; connections to servers that left the
table are found and retired; a table that shrank no longer makes the pool panic;
a failed refresh changes nothing.
---
 routing/pool.go | 186 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 134 insertions(+), 52 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 022f3be..acbff1e 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -36,7 +36,6 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
 	borrowedConns map[string]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
@@ -90,7 +89,6 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
 		borrowedConns: map[string]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
@@ -107,14 +105,14 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
-		err := conn.Connection.Close()
-		if err != nil {
-			return err
-		}
+	delete(r.heldConns, conn.Connection.GetConnectionId())
+
+	// the socket is released whatever state the connection is in
+	err := conn.Connection.Close()
+	if err != nil {
+		log.Error(err)
 	}
 
-	delete(r.heldConns, conn.Connection.GetConnectionId())
 	return nil
 }
 
@@ -127,7 +125,7 @@ func (r *routingPool) addWriteConn() error {
 	r.rwIndex++
 
 	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
+	if r.rwIndex >= len(r.rwStrings) {
 		r.rwIndex = 0
 	}
 
@@ -152,7 +150,7 @@ func (r *routingPool) addReadConn() error {
 	r.readIndex++
 
 	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
+	if r.readIndex >= len(r.readStrings) {
 		r.readIndex = 0
 	}
 
@@ -203,66 +201,71 @@ func (r *routingPool) refreshConnections() {
 	defer conn.Close()
 
 	err = r.routingHandler.refreshClusterInfo(conn)
+	if err != nil {
+		log.Error(err)
+		return
+	}
 
 	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
 	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
 
-	var deadStrs, actualWrites, actualReads []string
+	var actualWrites, actualReads []string
+
+	for i, newStr := range newWriteStrs {
+		newWriteStrs[i] = r.addAuthInfoToConnStr(newStr)
+	}
+
+	for i, newStr := range newReadStrs {
+		newReadStrs[i] = r.addAuthInfoToConnStr(newStr)
+	}
 
 	// check for dead strings
 	for _, curStr := range r.rwStrings {
 		// string is not found, so it must be dead
-		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
+		if stringSliceContains(newWriteStrs, curStr) {
 			actualWrites = append(actualWrites, curStr)
 		}
 	}
 
 	for _, curStr := range r.readStrings {
 		// string is not found, so it must be dead
-		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
+		if stringSliceContains(newReadStrs, curStr) {
 			actualReads = append(actualReads, curStr)
 		}
 	}
 
 	// add anything new
 	for _, newStr := range newWriteStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualWrites, newStr) {
 			actualWrites = append(actualWrites, newStr)
 		}
 	}
 
 	for _, newStr := range newReadStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualReads, newStr) {
 			actualReads = append(actualReads, newStr)
 		}
 	}
 
-	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
-			}
+	r.rwStrings = actualWrites
+	r.readStrings = actualReads
 
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
+	// mark what is connected to a dead string for deletion, system will rebalance elsewhere
+	r.markRetired(r.heldConns)
+	r.markRetired(r.borrowedConns)
+}
 
-				markedConn.markForDeletion = true
-			}
+func (r *routingPool) markRetired(conns map[string]*connectionPoolWrapper) {
+	for _, connWrap := range conns {
+		connStrs := r.readStrings
+		if connWrap.ConnType == bolt_mode.WriteMode {
+			connStrs = r.rwStrings
 		}
-	}
 
-	r.rwStrings = actualWrites
-	r.readStrings = actualReads
+		if !stringSliceContains(connStrs, connWrap.ConnStr) {
+			connWrap.markForDeletion = true
+		}
+	}
 }
 
 func (r *routingPool) prune() {
@@ -270,7 +273,7 @@ func (r *routingPool) prune() {
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
 		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
@@ -351,6 +354,13 @@ func (r *routingPool) refreshHandler() {
 		// block routine until interval is up
 		<-time.After(r.refreshInterval)
 		r.mutex.Lock()
+
+		// stopped while waiting
+		if !r.isRunning() {
+			r.mutex.Unlock()
+			return
+		}
+
 		// refresh connections and mark dead conns
 		r.refreshConnections()
 		// remove dead conns
@@ -362,6 +372,9 @@ func (r *routingPool) refreshHandler() {
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
@@ -390,6 +403,7 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
 		if err != nil {
+			r.stop()
 			return err
 		}
 	}
@@ -397,6 +411,7 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxReadIdle; i++ {
 		err := r.addReadConn()
 		if err != nil {
+			r.stop()
 			return err
 		}
 	}
@@ -407,10 +422,18 @@ func (r *routingPool) Start() error {
 }
 
 func (r *routingPool) Stop() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
 
+	return r.stop()
+}
+
+// stop ends the pool and closes every idle connection
+func (r *routingPool) stop() error {
 	r.setRunning(false)
 
 	for r.readQueue.Size() != 0 {
@@ -430,6 +453,9 @@ func (r *routingPool) Stop() error {
 	return nil
 }
 
+// errStaleQueue says that there is no idle connection left
+var errStaleQueue = errors.New("stale queue")
+
 func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
 	if queue == nil {
 		return nil, errors.New("queue can not be nil")
@@ -437,7 +463,7 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 
 	conn := queue.Dequeue()
 	if conn == nil {
-		return nil, fmt.Errorf("stale queue")
+		return nil, errStaleQueue
 	}
 
 	if conn.markForDeletion {
@@ -463,10 +489,21 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 }
 
 func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
+	if !r.isRunning() {
+		return nil, errors.New("pool is not running")
+	}
 
 	connWrap, err := r.internalBorrow(r.readQueue)
+	if err == errStaleQueue && r.countConns(bolt_mode.ReadMode) < r.maxReadIdle {
+		// connections that were removed are replaced
+		if err = r.addReadConn(); err == nil {
+			connWrap, err = r.internalBorrow(r.readQueue)
+		}
+	}
+
 	if err != nil {
 		return nil, err
 	}
@@ -475,10 +512,21 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
+	if !r.isRunning() {
+		return nil, errors.New("pool is not running")
+	}
 
 	connWrap, err := r.internalBorrow(r.writeQueue)
+	if err == errStaleQueue && r.countConns(bolt_mode.WriteMode) < r.maxWriteIdle {
+		// connections that were removed are replaced
+		if err = r.addWriteConn(); err == nil {
+			connWrap, err = r.internalBorrow(r.writeQueue)
+		}
+	}
+
 	if err != nil {
 		return nil, err
 	}
@@ -486,6 +534,24 @@ func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
 	return connWrap.Connection, nil
 }
 
+// countConns counts the connections of a mode, idle or borrowed
+func (r *routingPool) countConns(connType bolt_mode.AccessMode) int {
+	count := 0
+	for _, connWrap := range r.heldConns {
+		if connWrap.ConnType == connType {
+			count++
+		}
+	}
+
+	for _, connWrap := range r.borrowedConns {
+		if connWrap.ConnType == connType {
+			count++
+		}
+	}
+
+	return count
+}
+
 func (r *routingPool) isRunning() bool {
 	return atomic.LoadInt32(r.running) == 1
 }
@@ -514,12 +580,24 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	if !r.isRunning() {
-		return errors.New("pool is not running")
+	if conn == nil {
+		return errors.New("can not reclaim nil connection")
 	}
 
 	connId := conn.GetConnectionId()
 
+	if !r.isRunning() {
+		// nobody is going to use the connection any more
+		delete(r.borrowedConns, connId)
+
+		err := conn.Close()
+		if err != nil {
+			log.Error(err)
+		}
+
+		return errors.New("pool is not running")
+	}
+
 	connWrap, ok := r.borrowedConns[connId]
 	if !ok {
 		err := conn.Close()
@@ -529,22 +607,26 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 		return fmt.Errorf("connection not found with id [%s]", connId)
 	}
 
-	// remove from borrowed and replace in held
+	// remove from borrowed
 	delete(r.borrowedConns, connId)
-	r.heldConns[connId] = connWrap
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
+	// check if the connection is dead or retired, if it is discard and make a new one
+	if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() || connWrap.Connection.MakeIdle() != nil {
 		err := r.removeConn(connWrap)
 		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
+			return err
+		}
+
+		if connWrap.ConnType == bolt_mode.WriteMode {
+			return r.addWriteConn()
+		} else {
+			return r.addReadConn()
 		}
 	}
 
+	// and replace in held
+	r.heldConns[connId] = connWrap
+
 	if connWrap.ConnType == bolt_mode.WriteMode {
 		r.writeQueue.Enqueue(connWrap)
 	} else {
-- 
2.43.0


From 8ed1e300f3017d56e62c0c39009fbc6cbf4201d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 21/21] fix: guard the random source that all routing pools
 share

---
 routing/util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/routing/util.go b/routing/util.go
index 8d4e151..217343e 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,20 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
+// randMutex guards seededRand, which every pool uses
+var randMutex sync.Mutex
+
 func stringWithCharset(length int, charset string) string {
+	randMutex.Lock()
+	defer randMutex.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0

