From 017b3e6cae5689dd84d9f73b7e2c51ddcd4aeda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 01/31] fix: decode string, list, map and struct sizes as
 unsigned

Sizes of 128-255 (8-bit class) and 32768-65535 (16-bit class) were read as
negative numbers: strings and lists panicked and maps came back empty.
---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 026873b5412f71cfdd4cb38e1a9cfa4aff411313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 02/31] fix: report truncated values when decoding instead of
 shortened ones

A truncated integer or float surfaced as a bare io.EOF, which row iteration
reported as the normal end of the results, and a truncated string was returned
shortened without an error. Lists and maps were allocated by the size declared
on the wire, before any of their items had been seen.
---
 encoding/decoder.go | 53 ++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..65d0df4 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -130,26 +130,36 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		return int64(int8(marker)), nil
 	case marker == Int8Marker:
 		var out int8
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 	case marker == Int16Marker:
 		var out int16
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 	case marker == Int32Marker:
 		var out int32
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 	case marker == Int64Marker:
 		var out int64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 
 	// FLOAT
 	case marker == FloatMarker:
 		var out float64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return out, err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a float")
+		}
+		return out, nil
 
 	// STRING
 	case marker >= TinyStringMarker && marker <= TinyStringMarker+0x0F:
@@ -157,25 +167,25 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,21 +256,30 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("Couldn't read expected bytes for string. Available: %d Expected: %d.", buffer.Len(), size)
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// The size comes from the wire, so don't allocate for it up front
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	// The size comes from the wire, so don't allocate for it up front
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From dffe5fa83d61088e5462d7d5c85edec23d4fe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 03/31] fix: reject ill-typed identities and sequences in graph
 structures

Decoding a node, relationship or path whose identity or sequence is not an
integer panicked on the type assertion.
---
 encoding/decoder.go | 30 +++++++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 65d0df4..bb56e0f 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -344,7 +344,11 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	var ok bool
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -375,25 +379,34 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -460,13 +473,16 @@ func (d Decoder) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..f968c17 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From c31246131d3664c46c95c64f2706fc4053183dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 04/31] fix: check the number of fields when decoding a
 structure

The declared number of fields was ignored, so a structure with another number
of fields swallowed, or gave up, the values that follow it.
---
 encoding/decoder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index bb56e0f..7c6b198 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -10,6 +10,17 @@ import (
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
 )
 
+// structSizes holds the number of fields of the structures that have any
+var structSizes = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+	messages.RecordMessageSignature:    1,
+	messages.FailureMessageSignature:   1,
+	messages.SuccessMessageSignature:   1,
+}
+
 // Decoder decodes a message from the bolt protocol stream
 // Attempts to support all builtin golang types, when it can be confidently
 // mapped to a data type from: http://alpha.neohq.net/docs/server-manual/bolt-serialization.html#bolt-packstream-structures
@@ -307,6 +318,10 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Unexpected number of fields for struct with signature %x. Got: %d Expected: %d.", signature, size, expected)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
-- 
2.43.0


From 4889ade223639f9f26c1c5f0e904cc841df4485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 05/31] fix: never write a chunk longer than its 16-bit header
 can express

What was left in the buffer at the end of a message was written as one chunk,
so from 65536 bytes on the length in its header was truncated and the stream
corrupted. A chunk size of 0 wrote an end marker before every piece.
---
 encoding/encoder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..bb458db 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -89,6 +89,10 @@ type Encoder struct {
 
 // NewEncoder Creates a new Encoder object
 func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
+	if chunkSize == 0 {
+		// A chunk can't be empty, that would end the message
+		chunkSize = math.MaxUint16
+	}
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -131,13 +135,16 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > math.MaxUint16 {
+			length = math.MaxUint16
+		}
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From e61ccaf82d81d4b638cd2f25f855ddfa102fe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 06/31] fix: write nothing of a message that cannot be encoded

---
 encoding/encoder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index bb458db..9fa998a 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -161,13 +161,25 @@ func (e Encoder) flush() error {
 // Encode encodes an object to the stream
 func (e Encoder) Encode(iVal interface{}) error {
 
-	err := e.encode(iVal)
-	if err != nil {
+	// Frame the whole message before sending any of it, so that
+	// a value that can't be encoded doesn't leave part of a message
+	// in the stream
+	framed := &bytes.Buffer{}
+	msg := Encoder{w: framed, buf: e.buf, chunkSize: e.chunkSize}
+	if err := msg.encode(iVal); err != nil {
+		e.buf.Reset()
 		return err
 	}
 
 	// Whatever is left in the buffer for the chunk at the end, write it out
-	return e.flush()
+	if err := msg.flush(); err != nil {
+		return err
+	}
+
+	if _, err := e.w.Write(framed.Bytes()); err != nil {
+		return errors.Wrap(err, "An error occurred writing an encoded message")
+	}
+	return nil
 }
 
 // Encode encodes an object to the stream
-- 
2.43.0


From fb4a1d2e56f2246a8e4c7357ba0b53ea84e01e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 07/31] fix: require the complete handshake reply and an
 offered version

---
 conn.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/conn.go b/conn.go
index 72f8117..cbcf0b8 100644
--- a/conn.go
+++ b/conn.go
@@ -237,24 +237,18 @@ func (c *boltConn) tlsConfig() (*tls.Config, error) {
 
 func (c *boltConn) handShake() error {
 
-	numWritten, err := c.Write(handShake)
-	if numWritten != 20 {
-		log.Errorf("Couldn't write expected bytes for magic preamble + supported versions. Written: %d. Expected: 4", numWritten)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
-		}
-		return err
+	if _, err := c.Write(handShake); err != nil {
+		return errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
 	}
 
-	numRead, err := c.Read(c.serverVersion)
-	if numRead != 4 {
-		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred reading server version")
-		}
-		return err
-	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
+	if _, err := io.ReadFull(c, c.serverVersion); err != nil {
+		return errors.Wrap(err, "An error occurred reading server version")
+	}
+
+	if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version that wasn't offered: %x", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From 2a3f63a81ef6bb0f80a69eb78eb76e14b3fa44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 08/31] fix: never use a connection again after it was lost or
 corrupted

---
 conn.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index cbcf0b8..a22d148 100644
--- a/conn.go
+++ b/conn.go
@@ -312,6 +312,11 @@ func (c *boltConn) initialize() error {
 
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil || c.closed {
+		// Nothing read after an error can be trusted
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -323,7 +328,7 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
 		err = driver.ErrBadConn
 	}
@@ -332,6 +337,11 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil || c.closed {
+		// The server may be anywhere in the conversation after an error
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
@@ -403,7 +413,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding ack failure message response")
 		}
@@ -437,7 +447,7 @@ func (c *boltConn) reset() error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
@@ -542,10 +552,20 @@ func (c *boltConn) SetTimeout(timeout time.Duration) {
 	c.timeout = timeout
 }
 
+// decode reads the next message from the stream. If that fails, it's unknown where
+// the next message starts, so the connection can't be used anymore
+func (c *boltConn) decode() (interface{}, error) {
+	respInt, err := encoding.NewDecoder(c).Decode()
+	if err != nil && c.connErr == nil {
+		c.connErr = errors.Wrap(err, "An error occurred decoding a message from stream")
+	}
+	return respInt, err
+}
+
 func (c *boltConn) consume() (interface{}, error) {
 	log.Info("Consuming response from bolt stream")
 
-	respInt, err := encoding.NewDecoder(c).Decode()
+	respInt, err := c.decode()
 	if err != nil {
 		return respInt, err
 	}
-- 
2.43.0


From 3e917c27fa9621261cbe13fe00e986a72fadd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 09/31] fix: report a refused initialization as such and never
 pool its connection

---
 conn.go   | 15 ++++++++++++++-
 driver.go |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index a22d148..d790afc 100644
--- a/conn.go
+++ b/conn.go
@@ -284,6 +284,7 @@ func (c *boltConn) initialize() error {
 	}
 
 	if err := c.handShake(); err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
@@ -292,6 +293,7 @@ func (c *boltConn) initialize() error {
 
 	respInt, err := c.sendInit()
 	if err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
@@ -632,7 +634,18 @@ func (c *boltConn) sendInit() (interface{}, error) {
 		return nil, errors.Wrap(err, "An error occurred sending init message")
 	}
 
-	return c.consume()
+	respInt, err := c.decode()
+	if err != nil {
+		return nil, err
+	}
+
+	if failure, isFail := respInt.(messages.FailureMessage); isFail {
+		// The server ends the session here, so there's nothing to acknowledge
+		log.Errorf("Got failure message initializing connection: %#v", failure)
+		return nil, errors.Wrap(failure, "Neo4J refused to initialize the connection")
+	}
+
+	return respInt, nil
 }
 
 func (c *boltConn) sendRun(query string, args map[string]interface{}) error {
diff --git a/driver.go b/driver.go
index 1bbf0c6..e826b04 100644
--- a/driver.go
+++ b/driver.go
@@ -177,6 +177,10 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil || conn.closed {
+		if conn.conn != nil {
+			// It won't be used anymore
+			conn.conn.Close()
+		}
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
-- 
2.43.0


From 0c9ac940eca1c13f34570be40fee35b35583615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:53 +0000
Subject: [PATCH 10/31] fix: bound the TLS handshake by the configured timeout

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index d790afc..4c91cf3 100644
--- a/conn.go
+++ b/conn.go
@@ -183,7 +183,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 003631919e0eeb56aa286f3af68754fa1a824ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:27 +0000
Subject: [PATCH 11/31] fix: always finish closing rows and statements and
 never wait for more after their end

---
 rows.go | 65 +++++++++++++++++++++++++++++++++++++++++++++------------
 stmt.go | 13 ++++++------
 2 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/rows.go b/rows.go
index 4eb6782..bdc1f10 100644
--- a/rows.go
+++ b/rows.go
@@ -58,7 +58,9 @@ type boltRows struct {
 	closed          bool
 	consumed        bool
 	finishedConsume bool
+	consumeErr      error
 	pipelineIndex   int
+	next            *boltRows
 	closeStatement  bool
 }
 
@@ -123,6 +125,27 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	// Whatever happens below, there's nothing left to close afterwards
+	r.closed = true
+
+	if r.next != nil {
+		// The rest of the pipeline is in the set of rows that came after this one
+		return r.next.Close()
+	}
+
+	err := r.drain()
+	r.statement.rows = nil
+
+	if r.closeStatement {
+		if e := r.statement.Close(); err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
+// drain gets all messages that are left for the rows off the stream
+func (r *boltRows) drain() error {
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -160,12 +183,6 @@ func (r *boltRows) Close() error {
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
-
-	if r.closeStatement {
-		return r.statement.Close()
-	}
 	return nil
 }
 
@@ -195,6 +212,12 @@ func (r *boltRows) Next(dest []driver.Value) error {
 
 }
 
+// finish marks that no more messages will come for these rows and why
+func (r *boltRows) finish(err error) {
+	r.finishedConsume = true
+	r.consumeErr = err
+}
+
 // NextNeo gets the next row result
 // When the rows are completed, returns the success metadata
 // and io.EOF
@@ -203,23 +226,28 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		return nil, nil, errors.New("Rows are already closed")
 	}
 
+	if r.finishedConsume {
+		return nil, nil, r.consumeErr
+	}
+
 	if !r.consumed {
 		r.consumed = true
 		if err := r.statement.conn.sendPullAll(); err != nil {
-			r.finishedConsume = true
+			r.finish(err)
 			return nil, nil, err
 		}
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		r.finish(err)
 		return nil, nil, err
 	}
 
 	switch resp := respInt.(type) {
 	case messages.SuccessMessage:
 		log.Infof("Got success message: %#v", resp)
-		r.finishedConsume = true
+		r.finish(io.EOF)
 		return nil, resp.Metadata, io.EOF
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
@@ -252,8 +280,17 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		return nil, nil, nil, errors.New("Rows are already closed")
 	}
 
+	if r.next != nil {
+		return nil, nil, nil, errors.New("Rows are already completed")
+	}
+
+	if r.finishedConsume {
+		return nil, nil, nil, r.consumeErr
+	}
+
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		r.finish(err)
 		return nil, nil, nil, err
 	}
 
@@ -262,12 +299,13 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got success message: %#v", resp)
 
 		if r.pipelineIndex == len(r.statement.queries)-1 {
-			r.finishedConsume = true
+			r.finish(io.EOF)
 			return nil, nil, nil, err
 		}
 
 		successResp, err := r.statement.conn.consume()
-		if err != nil && err != io.EOF {
+		if err != nil {
+			r.finish(err)
 			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
 		}
 
@@ -276,9 +314,10 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 			return nil, nil, nil, errors.New("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
 		}
 
-		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
-		r.statement.rows.closeStatement = r.closeStatement
-		return nil, success.Metadata, r.statement.rows, nil
+		r.next = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
+		r.next.closeStatement = r.closeStatement
+		r.statement.rows = r.next
+		return nil, success.Metadata, r.next, nil
 
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
diff --git a/stmt.go b/stmt.go
index 42a6f32..2ffab10 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,16 +59,17 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
-			return err
-		}
+	// Rows that close the statement find it closed already
+	s.closed = true
+
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
 	}
 
-	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From 440450e738e866bdad13fda9fda1cd245cd8075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 12/31] fix: free the connection when a query on it fails

---
 conn.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 4c91cf3..27bc4cd 100644
--- a/conn.go
+++ b/conn.go
@@ -804,22 +804,24 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newStmt(query, c)
+	// The connection lets go of the statement if it gets closed meanwhile
+	stmt := newStmt(query, c)
+	c.statement = stmt
 
 	// Pipeline the run + pull all for this
-	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)
+	successResp, err := c.sendRunPullAllConsumeRun(stmt.query, params)
 	if err != nil {
-		c.statement.Close()
+		stmt.Close()
 		return nil, err
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
-		c.statement.Close()
+		stmt.Close()
 		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
 	}
 
-	c.statement.rows = newQueryRows(c.statement, success.Metadata)
-	return c.statement.rows, nil
+	stmt.rows = newQueryRows(stmt, success.Metadata)
+	return stmt.rows, nil
 }
 
 func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interface{}) (PipelineRows, error) {
@@ -830,9 +832,11 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newPipelineStmt(queries, c)
-	rows, err := c.statement.QueryPipeline(params...)
+	stmt := newPipelineStmt(queries, c)
+	c.statement = stmt
+	rows, err := stmt.QueryPipeline(params...)
 	if err != nil {
+		stmt.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 3edd26f57d53a9217571aeba3ad3a1356d1b359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 13/31] fix: send nothing of a pipeline that cannot be sent
 completely

---
 conn.go | 25 +++++++++++++++++++++++++
 stmt.go | 18 ++++++++----------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 27bc4cd..7cd67fe 100644
--- a/conn.go
+++ b/conn.go
@@ -695,6 +695,31 @@ func (c *boltConn) sendRunPullAll(query string, args map[string]interface{}) err
 	return c.sendPullAll()
 }
 
+// sendPipeline sends a RUN and a PULL_ALL message for each of the queries
+func (c *boltConn) sendPipeline(queries []string, params []map[string]interface{}) error {
+	// Encode all queries before sending any of them, so that nothing
+	// is pending on the server if one of them can't be encoded
+	runs := make([]*bytes.Buffer, len(queries))
+	for i, query := range queries {
+		runs[i] = &bytes.Buffer{}
+		runMessage := messages.NewRunMessage(query, params[i])
+		if err := encoding.NewEncoder(runs[i], c.chunkSize).Encode(runMessage); err != nil {
+			return errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
+		}
+	}
+
+	for i, query := range queries {
+		if _, err := c.Write(runs[i].Bytes()); err != nil {
+			return errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
+		}
+		if err := c.sendPullAll(); err != nil {
+			return errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
+		}
+	}
+
+	return nil
+}
+
 func (c *boltConn) sendRunPullAllConsumeRun(query string, args map[string]interface{}) (interface{}, error) {
 	err := c.sendRunPullAll(query, args)
 	if err != nil {
diff --git a/stmt.go b/stmt.go
index 2ffab10..ac5c927 100644
--- a/stmt.go
+++ b/stmt.go
@@ -132,11 +132,8 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
 
-	for i, query := range s.queries {
-		err := s.conn.sendRunPullAll(query, params[i])
-		if err != nil {
-			return nil, errors.Wrap(err, "Error running exec query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
-		}
+	if err := s.conn.sendPipeline(s.queries, params); err != nil {
+		return nil, err
 	}
 
 	log.Info("Successfully ran all pipeline queries")
@@ -220,11 +217,12 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
 
-	for i, query := range s.queries {
-		err := s.conn.sendRunPullAll(query, params[i])
-		if err != nil {
-			return nil, errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
-		}
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must pass at least one query")
+	}
+
+	if err := s.conn.sendPipeline(s.queries, params); err != nil {
+		return nil, err
 	}
 
 	log.Info("Successfully ran all pipeline queries")
-- 
2.43.0


From 9827d1101c7b5d075443c492d8d34932f9a34b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 14/31] fix: never use a connection again after a response to
 something else

---
 conn.go | 19 ++++++++++++++++---
 rows.go | 14 ++++++++++----
 stmt.go | 12 ++++++------
 tx.go   |  8 ++++----
 4 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/conn.go b/conn.go
index 7cd67fe..99ac922 100644
--- a/conn.go
+++ b/conn.go
@@ -529,14 +529,14 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
+		return nil, c.unexpected("Unrecognized response type beginning transaction", successInt)
 	}
 
 	log.Infof("Got success message beginning transaction: %#v", success)
 
 	success, ok = pullInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type pulling transaction:  %#v", success)
+		return nil, c.unexpected("Unrecognized response type pulling transaction", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", success)
@@ -564,6 +564,14 @@ func (c *boltConn) decode() (interface{}, error) {
 	return respInt, err
 }
 
+// unexpected is used when a response isn't one to the request that was made. Any
+// other response can't be trusted either, so the connection can't be used anymore
+func (c *boltConn) unexpected(msg string, resp interface{}) error {
+	err := errors.New("%s: %#v", msg, resp)
+	c.connErr = err
+	return err
+}
+
 func (c *boltConn) consume() (interface{}, error) {
 	log.Info("Consuming response from bolt stream")
 
@@ -603,6 +611,10 @@ func (c *boltConn) consumeAll() ([]interface{}, interface{}, error) {
 			return responses, success, nil
 		}
 
+		if _, isRecord := respInt.(messages.RecordMessage); !isRecord {
+			return nil, respInt, c.unexpected("Unexpected response consuming records", respInt)
+		}
+
 		responses = append(responses, respInt)
 	}
 }
@@ -841,8 +853,9 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
+		err := c.unexpected("Unexpected response querying neo from connection", successResp)
 		stmt.Close()
-		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
+		return nil, err
 	}
 
 	stmt.rows = newQueryRows(stmt, success.Metadata)
diff --git a/rows.go b/rows.go
index bdc1f10..0f0fffa 100644
--- a/rows.go
+++ b/rows.go
@@ -157,7 +157,7 @@ func (r *boltRows) drain() error {
 		case messages.SuccessMessage:
 			log.Infof("Got success message: %#v", resp)
 		default:
-			return errors.New("Unrecognized response type discarding all rows: Value: %#v", resp)
+			return r.statement.conn.unexpected("Unrecognized response type discarding all rows", resp)
 		}
 
 	} else if !r.finishedConsume {
@@ -253,7 +253,9 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil
 	default:
-		return nil, nil, errors.New("Unrecognized response type getting next query row: %#v", resp)
+		err := r.statement.conn.unexpected("Unrecognized response type getting next query row", resp)
+		r.finish(err)
+		return nil, nil, err
 	}
 }
 
@@ -311,7 +313,9 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		success, ok := successResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, nil, nil, errors.New("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
+			err := r.statement.conn.unexpected("Unexpected response getting next set of rows from pipeline command", successResp)
+			r.finish(err)
+			return nil, nil, nil, err
 		}
 
 		r.next = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
@@ -323,6 +327,8 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil, nil
 	default:
-		return nil, nil, nil, errors.New("Unrecognized response type getting next pipeline row: %#v", resp)
+		err := r.statement.conn.unexpected("Unrecognized response type getting next pipeline row", resp)
+		r.finish(err)
+		return nil, nil, nil, err
 	}
 }
diff --git a/stmt.go b/stmt.go
index ac5c927..4ae77a5 100644
--- a/stmt.go
+++ b/stmt.go
@@ -104,7 +104,7 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 
 	success, ok := runResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type when running exec query: %#v", success)
+		return nil, s.conn.unexpected("Unrecognized response type when running exec query", runResp)
 
 	}
 
@@ -112,7 +112,7 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 
 	success, ok = pullResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response when discarding exec rows: %#v", success)
+		return nil, s.conn.unexpected("Unrecognized response when discarding exec rows", pullResp)
 	}
 
 	log.Infof("Got discard all success message: %#v", success)
@@ -147,7 +147,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok := runResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query result: %#v", runResp)
+			return nil, s.conn.unexpected("Unexpected response when getting exec query result", runResp)
 		}
 
 		_, pullResp, err := s.conn.consumeAll()
@@ -157,7 +157,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok = pullResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query discard result: %#v", pullResp)
+			return nil, s.conn.unexpected("Unexpected response when getting exec query discard result", pullResp)
 		}
 
 		results[i] = newResult(success.Metadata)
@@ -197,7 +197,7 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 
 	resp, ok := respInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type running query: %#v", resp)
+		return nil, s.conn.unexpected("Unrecognized response type running query", respInt)
 	}
 
 	log.Infof("Got success message on run query: %#v", resp)
@@ -234,7 +234,7 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 
 	success, ok := resp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Got unexpected return message when consuming initial pipeline command: %#v", resp)
+		return nil, s.conn.unexpected("Got unexpected return message when consuming initial pipeline command", resp)
 	}
 
 	s.rows = newPipelineRows(s, success.Metadata, 0)
diff --git a/tx.go b/tx.go
index e70bbef..b458aa2 100644
--- a/tx.go
+++ b/tx.go
@@ -43,14 +43,14 @@ func (t *boltTx) Commit() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type committing transaction: %#v", success)
+		return t.conn.unexpected("Unrecognized response type committing transaction", successInt)
 	}
 
 	log.Infof("Got success message committing transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+		return t.conn.unexpected("Unrecognized response type pulling transaction", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
@@ -78,14 +78,14 @@ func (t *boltTx) Rollback() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
+		return t.conn.unexpected("Unrecognized response type rolling back transaction", successInt)
 	}
 
 	log.Infof("Got success message rolling back transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction: %#v", pull)
+		return t.conn.unexpected("Unrecognized response type pulling transaction", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
-- 
2.43.0


From 592f8c99a0e2ab6306943859b26266a3dd77f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 15/31] fix: always release a connection that is closed, and
 only once

---
 conn.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index 99ac922..b9972c4 100644
--- a/conn.go
+++ b/conn.go
@@ -370,27 +370,36 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	// Problems closing the statement or transaction are reported, but
+	// don't keep the connection from being closed
+	var closeErr error
 	if c.statement != nil {
-		if err := c.statement.Close(); err != nil {
-			return err
-		}
+		closeErr = c.statement.Close()
 	}
 
-	if c.transaction != nil {
+	if c.transaction != nil && c.connErr == nil {
 		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+			// Don't let anyone else run within the transaction
+			c.connErr = errors.Wrap(err, "Error rolling back transaction when closing connection")
+			closeErr = c.connErr
 		}
 	}
 
+	if c.closed {
+		// Closing the statement or transaction dropped the session
+		return closeErr
+	}
+
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
 		err := c.poolDriver.reclaim(c)
+		c.closed = true
 		if err != nil {
 			log.Errorf("An error occurred reclaiming connection for pool: %s", err)
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return closeErr
 	}
 
 	if c.conn != nil {
@@ -402,7 +411,7 @@ func (c *boltConn) Close() error {
 		}
 	}
 
-	return nil
+	return closeErr
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
@@ -463,6 +472,7 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
+			c.connErr = errors.Wrap(resp, "Error resetting session")
 			err = c.Close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
-- 
2.43.0


From ab23b13aca126b2236279a6a8584d37854471953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 16/31] fix: keep track of the open transaction of a connection

---
 conn.go | 12 ++++++++++--
 tx.go   |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index b9972c4..194356b 100644
--- a/conn.go
+++ b/conn.go
@@ -522,7 +522,7 @@ func (c *boltConn) prepare(query string) (*boltStmt, error) {
 
 // Begin begins a new transaction with the Neo4J Database
 func (c *boltConn) Begin() (driver.Tx, error) {
-	if c.transaction != nil {
+	if c.transaction != nil && !c.transaction.ending {
 		return nil, errors.New("An open transaction already exists")
 	}
 	if c.statement != nil {
@@ -534,6 +534,13 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	successInt, pullInt, err := c.sendRunPullAllConsumeSingle("BEGIN", nil)
 	if err != nil {
+		if _, ran := successInt.(messages.SuccessMessage); ran && c.connErr == nil {
+			// The server may have started the transaction nevertheless
+			c.transaction = newTx(c)
+			if e := c.transaction.Rollback(); e != nil {
+				c.connErr = errors.Wrap(e, "Error rolling back transaction that failed to begin")
+			}
+		}
 		return nil, errors.Wrap(err, "An error occurred beginning transaction")
 	}
 
@@ -551,7 +558,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index b458aa2..315ccc6 100644
--- a/tx.go
+++ b/tx.go
@@ -17,6 +17,7 @@ type Tx interface {
 type boltTx struct {
 	conn   *boltConn
 	closed bool
+	ending bool // Asked the server to end it. It may have, even if that failed
 }
 
 func newTx(conn *boltConn) *boltTx {
@@ -27,7 +28,7 @@ func newTx(conn *boltConn) *boltTx {
 
 // Commit commits and closes the transaction
 func (t *boltTx) Commit() error {
-	if t.closed {
+	if t.closed || t.conn.transaction != t {
 		return errors.New("Transaction already closed")
 	}
 	if t.conn.statement != nil {
@@ -36,6 +37,7 @@ func (t *boltTx) Commit() error {
 		}
 	}
 
+	t.ending = true
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred committing transaction")
@@ -62,7 +64,7 @@ func (t *boltTx) Commit() error {
 
 // Rollback rolls back and closes the transaction
 func (t *boltTx) Rollback() error {
-	if t.closed {
+	if t.closed || t.conn.transaction != t {
 		return errors.New("Transaction already closed")
 	}
 	if t.conn.statement != nil {
@@ -71,6 +73,7 @@ func (t *boltTx) Rollback() error {
 		}
 	}
 
+	t.ending = true
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred rolling back transaction")
-- 
2.43.0


From b27a89a712072c792bfd7b393f93dc48b904108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 17/31] fix: close the connections of a pool without waiting
 for or touching those in use

---
 driver.go | 56 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/driver.go b/driver.go
index e826b04..c780cb9 100644
--- a/driver.go
+++ b/driver.go
@@ -5,6 +5,7 @@ import (
 	"time"
 	"database/sql"
 	"database/sql/driver"
+	"net"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
 	"sync"
 )
@@ -87,7 +88,9 @@ type boltDriverPool struct {
 	connStr  string
 	maxConns int
 	pool     chan *boltConn
-	connRefs []*boltConn
+	done     chan struct{}
+	openLock sync.RWMutex
+	connRefs map[net.Conn]struct{}
 	refLock  sync.Mutex
 	closed   bool
 }
@@ -107,6 +110,8 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 		connStr:  connStr,
 		maxConns: max,
 		pool:     make(chan *boltConn, max),
+		done:     make(chan struct{}),
+		connRefs: map[net.Conn]struct{}{},
 	}
 
 	for i := 0; i < max; i++ {
@@ -123,20 +128,29 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 
 // OpenPool opens a returns a Bolt connection from the pool to the Neo4J database.
 func (d *boltDriverPool) OpenPool() (Conn, error) {
+	var conn *boltConn
+	select {
+	case conn = <-d.pool:
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	}
+
 	// For each connection request we need to block in case the Close function is called. This gives us a guarantee
 	// when closing the pool no new connections are made.
-	d.refLock.Lock()
-	defer d.refLock.Unlock()
+	d.openLock.RLock()
+	defer d.openLock.RUnlock()
 	if !d.closed {
-		conn := <-d.pool
 		if connectionNilOrClosed(conn) {
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
-			d.connRefs = append(d.connRefs, conn)
+			d.refLock.Lock()
+			d.connRefs[conn.conn] = struct{}{}
+			d.refLock.Unlock()
 		}
 		return conn, nil
 	}
+	d.pool <- conn
 	return nil, errors.New("Driver pool has been closed")
 }
 
@@ -156,21 +170,28 @@ func connectionNilOrClosed(conn *boltConn) (bool) {
 
 // Close all connections in the pool
 func (d *boltDriverPool) Close() error {
-	// Lock the connection ref so no new connections can be added
+	// Lock so no new connections can be opened
+	d.openLock.Lock()
+	defer d.openLock.Unlock()
+	if d.closed {
+		return nil
+	}
+	// Mark the pool as closed to stop any new connections
+	d.closed = true
+	close(d.done)
+
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	for _, conn := range d.connRefs {
-		// Remove the reference to the pool, to allow a clean up of the connection
-		conn.poolDriver = nil
-		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
+	var closeErr error
+	for conn := range d.connRefs {
+		// The connection objects may be in use, so only
+		// close the network connection they use
+		if err := conn.Close(); err != nil && closeErr == nil {
+			closeErr = errors.Wrap(err, "An error occurred closing a connection of the pool")
 		}
 	}
-	// Mark the pool as closed to stop any new connections
-	d.closed = true
-	return nil
+	d.connRefs = nil
+	return closeErr
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
@@ -179,6 +200,9 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	if conn.connErr != nil || conn.closed {
 		if conn.conn != nil {
 			// It won't be used anymore
+			d.refLock.Lock()
+			delete(d.connRefs, conn.conn)
+			d.refLock.Unlock()
 			conn.conn.Close()
 		}
 		newConn, err = newPooledBoltConn(d.connStr, d)
-- 
2.43.0


From 1db9db91166f43db8093dbfae07c3f58e5eab45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 18/31] fix: start each use of a pooled connection with its
 configured settings

---
 driver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/driver.go b/driver.go
index c780cb9..c25db7a 100644
--- a/driver.go
+++ b/driver.go
@@ -214,6 +214,15 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		// it isn't held on to
 		newConn = &boltConn{}
 		*newConn = *conn
+		if newConn.url != nil {
+			// Don't keep the settings made on it either
+			defaults := createBoltConn(d.connStr)
+			if _, err = defaults.parseURL(); err != nil {
+				return err
+			}
+			newConn.timeout = defaults.timeout
+			newConn.chunkSize = defaults.chunkSize
+		}
 	}
 
 	d.pool <- newConn
-- 
2.43.0


From 208eaf96713c718c84bb584482d3a6acb12a7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 19/31] fix: report malformed counters instead of panicking

---
 result.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/result.go b/result.go
index 6011a86..3802f38 100644
--- a/result.go
+++ b/result.go
@@ -50,24 +50,16 @@ func (r boltResult) RowsAffected() (int64, error) {
 	}
 
 	var rowsAffected int64
-	nodesCreated, ok := stats["nodes-created"]
-	if ok {
-		rowsAffected += nodesCreated.(int64)
-	}
-
-	relsCreated, ok := stats["relationships-created"]
-	if ok {
-		rowsAffected += relsCreated.(int64)
-	}
-
-	nodesDeleted, ok := stats["nodes-deleted"]
-	if ok {
-		rowsAffected += nodesDeleted.(int64)
-	}
-
-	relsDeleted, ok := stats["relationships-deleted"]
-	if ok {
-		rowsAffected += relsDeleted.(int64)
+	for _, counter := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
+		value, ok := stats[counter]
+		if !ok {
+			continue
+		}
+		count, ok := value.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for %s in stats metadata: %#v", counter, r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	return rowsAffected, nil
-- 
2.43.0


From 24c2e10b07aae8b428c4cfc39ad74423356633cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 20/31] fix: refuse sql parameters that are not an encoded map

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e16ab7..e47f2bb 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		params, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, errors.New("You must pass only a gob encoded map to the Exec/Query args")
+		}
+
+		for k, v := range params {
 			output[k] = v
 		}
 
-- 
2.43.0


From f2dc5a56fc24ba81e4894dc45997a25847c9c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 21/31] fix: refuse rows that don't match their columns in the
 sql interface

---
 rows.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rows.go b/rows.go
index 0f0fffa..9ddbf87 100644
--- a/rows.go
+++ b/rows.go
@@ -193,6 +193,10 @@ func (r *boltRows) Next(dest []driver.Value) error {
 		return err
 	}
 
+	if len(data) != len(dest) {
+		return errors.New("Got a row with %d values for %d columns", len(data), len(dest))
+	}
+
 	for i, item := range data {
 		switch item := item.(type) {
 		case []interface{}, map[string]interface{}, graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:
-- 
2.43.0


From 2a998b019e17ace61f65e578cc5a1c19eda3d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 22/31] fix: record reads of a single byte

---
 recorder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recorder.go b/recorder.go
index 41ba2ca..b43ea8e 100644
--- a/recorder.go
+++ b/recorder.go
@@ -160,7 +160,7 @@ func (r *recorder) record(data []byte, isWrite bool) {
 	}
 
 	event.Event = append(event.Event, data...)
-	if data[len(data)-2] == byte(0x00) && data[len(data)-1] == byte(0x00) {
+	if bytes.HasSuffix(event.Event, encoding.EndMessage) {
 		event.Completed = true
 	}
 }
-- 
2.43.0


From 671b5a4bda379888e6e28be087a6d88111554c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 23/31] fix: replay fragmented reads and errors as they were
 recorded

---
 recorder.go | 54 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/recorder.go b/recorder.go
index b43ea8e..b3380cc 100644
--- a/recorder.go
+++ b/recorder.go
@@ -77,19 +77,20 @@ func (r *recorder) Read(b []byte) (n int, err error) {
 		return 0, errors.New("Recorder expected Read, got Write! %#v, Event: %#v", r, event)
 	}
 
-	for i := 0; i < len(b); i++ {
-		if len(event.Event) == 0 {
-			return i, errors.New("Attempted to read past current event in recorder! Bytes: %s. Recorder %#v, Event; %#v", b, r, event)
-		}
-		b[i] = event.Event[0]
-		event.Event = event.Event[1:]
+	if len(event.Event) == 0 && event.Error != nil {
+		r.currentEvent++
+		return 0, event.Error
 	}
 
-	if len(event.Event) == 0 {
+	// The rest may be in the next event, just like it
+	// may have been in the next read from the net conn
+	n = copy(b, event.Event)
+	event.Event = event.Event[n:]
+	if len(event.Event) == 0 && event.Error == nil {
 		r.currentEvent++
 	}
 
-	return len(b), nil
+	return n, nil
 }
 
 // Close the net conn, outputting the recording
@@ -139,13 +140,17 @@ func (r *recorder) Write(b []byte) (n int, err error) {
 	}
 
 	for i := 0; i < len(b); i++ {
+		if len(event.Event) == 0 && event.Error != nil {
+			r.currentEvent++
+			return i, event.Error
+		}
 		if len(event.Event) == 0 {
 			return i, errors.New("Attempted to write past current event in recorder! %#v, Event: %#v", r, event)
 		}
 		event.Event = event.Event[1:]
 	}
 
-	if len(event.Event) == 0 {
+	if len(event.Event) == 0 && event.Error == nil {
 		r.currentEvent++
 	}
 
@@ -282,6 +287,37 @@ type Event struct {
 	Error     error
 }
 
+// eventJSON is how an event is stored. An error can only be stored as text
+type eventJSON struct {
+	Event     []byte
+	IsWrite   bool
+	Completed bool
+	Error     *string
+}
+
+// MarshalJSON stores the event in a recording
+func (e *Event) MarshalJSON() ([]byte, error) {
+	stored := eventJSON{Event: e.Event, IsWrite: e.IsWrite, Completed: e.Completed}
+	if e.Error != nil {
+		text := e.Error.Error()
+		stored.Error = &text
+	}
+	return json.Marshal(stored)
+}
+
+// UnmarshalJSON loads the event from a recording
+func (e *Event) UnmarshalJSON(data []byte) error {
+	stored := eventJSON{}
+	if err := json.Unmarshal(data, &stored); err != nil {
+		return err
+	}
+	e.Event, e.IsWrite, e.Completed = stored.Event, stored.IsWrite, stored.Completed
+	if stored.Error != nil {
+		e.Error = errors.New("%s", *stored.Error)
+	}
+	return nil
+}
+
 func newEvent(isWrite bool) *Event {
 	return &Event{
 		Timestamp: time.Now().UnixNano(),
-- 
2.43.0


From 7938f5c497bd286464e29cab9426971cb4b5c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 24/31] fix: refuse values nested too deep to be decoded on the
 stack

---
 encoding/decoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 7c6b198..7e8934d 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -21,6 +21,10 @@ var structSizes = map[byte]int{
 	messages.SuccessMessageSignature:   1,
 }
 
+// maxDepth is how deep values can be nested. Decoding
+// them recurses, so they could exceed the stack otherwise
+const maxDepth = 100000
+
 // Decoder decodes a message from the bolt protocol stream
 // Attempts to support all builtin golang types, when it can be confidently
 // mapped to a data type from: http://alpha.neohq.net/docs/server-manual/bolt-serialization.html#bolt-packstream-structures
@@ -30,8 +34,9 @@ var structSizes = map[byte]int{
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type Decoder struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new Decoder object
@@ -111,6 +116,13 @@ func (d Decoder) Decode() (interface{}, error) {
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
+	// The decoder is passed by value, so this counts
+	// the values the one being decoded is nested in
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Values are nested more than %d deep", maxDepth)
+	}
+
 	marker, err := buffer.ReadByte()
 	if err != nil {
 		return nil, errors.Wrap(err, "Error reading marker")
-- 
2.43.0


From 7d143e15fe86fac0443067df44057959387ef010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 25/31] fix: skip the fields of messages without known fields

---
 encoding/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 7e8934d..30a976c 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -332,6 +332,14 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 
 	if expected, ok := structSizes[signature]; ok && size != expected {
 		return nil, errors.New("Unexpected number of fields for struct with signature %x. Got: %d Expected: %d.", signature, size, expected)
+	} else if !ok {
+		// No fields of the other structures are used. Skip any
+		// there are, so that they aren't taken for what follows
+		for i := 0; i < size; i++ {
+			if _, err := d.decode(buffer); err != nil {
+				return nil, err
+			}
+		}
 	}
 
 	switch signature {
-- 
2.43.0


From 654f5890e441d2f37fb9b98e5db32d83c72e353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 26/31] fix: refuse structures that can't be encoded

---
 encoding/encoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 9fa998a..835bf85 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -458,6 +458,12 @@ func (e Encoder) encodeMap(val map[string]interface{}) error {
 
 func (e Encoder) encodeStructure(val structures.Structure) error {
 
+	if ptr := reflect.ValueOf(val); ptr.Kind() == reflect.Ptr && ptr.IsNil() {
+		return errors.New("Can't encode a nil structure: %T", val)
+	} else if val.Signature() < 0 || val.Signature() > math.MaxUint8 {
+		return errors.New("Structure signature is not a byte: %d", val.Signature())
+	}
+
 	fields := val.AllFields()
 	length := len(fields)
 	switch {
-- 
2.43.0


From 957d5e73b0ec9ba6a7429f76eef1bb2c049db3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 27/31] fix: refuse a CA file without usable certificates

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 194356b..21d2c2d 100644
--- a/conn.go
+++ b/conn.go
@@ -210,7 +210,9 @@ func (c *boltConn) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, errors.New("No usable certificates in CA cert file: %s", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
-- 
2.43.0


From 3e2cd562856b04e2bf58a81032360b7760a1cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:19 +0000
Subject: [PATCH 28/31] fix: report an error when the stats counters add up to
 more than fits

---
 result.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/result.go b/result.go
index 3802f38..9dd79e1 100644
--- a/result.go
+++ b/result.go
@@ -59,7 +59,11 @@ func (r boltResult) RowsAffected() (int64, error) {
 		if !ok {
 			return -1, errors.New("Unrecognized type for %s in stats metadata: %#v", counter, r.metadata)
 		}
-		rowsAffected += count
+		sum := rowsAffected + count
+		if (count > 0) != (sum > rowsAffected) {
+			return -1, errors.New("Stats metadata add up to more than fits an int64: %#v", r.metadata)
+		}
+		rowsAffected = sum
 	}
 
 	return rowsAffected, nil
-- 
2.43.0


From 6f45154f4fad4c037ed32eaaf755af5bc7bb74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 29/31] fix: a large message a server takes slowly was given up
 although it was moving

---
 conn.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 21d2c2d..310f6bb 100644
--- a/conn.go
+++ b/conn.go
@@ -346,12 +346,22 @@ func (c *boltConn) Write(b []byte) (n int, err error) {
 		return 0, driver.ErrBadConn
 	}
 
-	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
-		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
-		return 0, driver.ErrBadConn
-	}
+	// Every part gets the whole timeout, so that a server that takes
+	// a large message slowly isn't mistaken for one that takes nothing
+	for n < len(b) && err == nil {
+		if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
+			c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+			return n, driver.ErrBadConn
+		}
 
-	n, err = c.conn.Write(b)
+		part := b[n:]
+		if len(part) > math.MaxUint16 {
+			part = part[:math.MaxUint16]
+		}
+		var numWritten int
+		numWritten, err = c.conn.Write(part)
+		n += numWritten
+	}
 
 	if log.GetLevel() >= log.TraceLevel {
 		log.Tracef("Wrote %d of %d bytes to stream:\n\n%s\n", len(b), n, sprintByteHex(b[:n]))
-- 
2.43.0


From abc13ffed70d037296e406f13831ea70a13e5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 30/31] fix: a timeout out of range wrapped around to some
 other timeout

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 310f6bb..3c299b0 100644
--- a/conn.go
+++ b/conn.go
@@ -143,6 +143,9 @@ func (c *boltConn) parseURL() (*url.URL, error) {
 		}
 
 		c.timeout = time.Duration(timeoutInt) * time.Second
+		if int64(c.timeout/time.Second) != int64(timeoutInt) {
+			return url, errors.New("Invalid timeout: %s.  It is out of range", timeout)
+		}
 	}
 
 	useTLS := url.Query().Get("tls")
-- 
2.43.0


From 5f386ab7a2242de0556e5e666bf530db1f0e27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:33 +0000
Subject: [PATCH 31/31] fix: a server that reads nothing held up a large
 message for many timeouts

---
 conn.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/conn.go b/conn.go
index 3c299b0..65e14d6 100644
--- a/conn.go
+++ b/conn.go
@@ -349,23 +349,13 @@ func (c *boltConn) Write(b []byte) (n int, err error) {
 		return 0, driver.ErrBadConn
 	}
 
-	// Every part gets the whole timeout, so that a server that takes
-	// a large message slowly isn't mistaken for one that takes nothing
-	for n < len(b) && err == nil {
-		if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
-			c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
-			return n, driver.ErrBadConn
-		}
-
-		part := b[n:]
-		if len(part) > math.MaxUint16 {
-			part = part[:math.MaxUint16]
-		}
-		var numWritten int
-		numWritten, err = c.conn.Write(part)
-		n += numWritten
+	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
+		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		return 0, driver.ErrBadConn
 	}
 
+	n, err = c.conn.Write(b)
+
 	if log.GetLevel() >= log.TraceLevel {
 		log.Tracef("Wrote %d of %d bytes to stream:\n\n%s\n", len(b), n, sprintByteHex(b[:n]))
 	}
-- 
2.43.0

