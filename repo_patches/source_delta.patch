From d92aebfe118d2db786937f9a0136a2112514a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 01/86] fix: compact protocol decodes fields whose bool value
 is false

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..2a29230 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -813,8 +813,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From 2da44706d5a50ba6a15eab933d4a07067832214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 02/86] fix: compact protocol keeps all three bits of the
 message type (oneway is 4)

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 2a29230..03730a4 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -357,7 +357,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From b471f04968214cdf78c889068c9848f59d9f8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 03/86] fix: compact ReadMessageBegin reports the transport
 error of its first byte

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 03730a4..4bc3609 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -351,6 +351,9 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
-- 
2.43.0


From d2b5d7cd7db35590f7e2fbb7bb8e987a4aacb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 04/86] fix: compact ReadStructEnd pops the field id it
 restores

---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 4bc3609..4d44429 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -397,6 +397,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 9b7737ff1ed4fced2bf88eb41069bac650528d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 05/86] fix: compact ReadBinary rejects negative lengths and
 reports transport errors

---
 lib/go/src/thrift/tcompact_protocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 4d44429..6f4c96e 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -604,10 +604,13 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	if length == 0 {
 		return []byte{}, nil
 	}
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative length in ReadBinary")
+	}
 
 	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	_, e = p.trans.ReadAll(buf)
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
-- 
2.43.0


From 7d96a3a5980b42fec65d2c8f558133271a0c97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 06/86] fix: compact protocol writes BINARY with the wire type
 of STRING instead of panicking

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 6f4c96e..0e8473a 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -850,5 +850,5 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
  * Given a TType value, find the appropriate TCompactProtocol.Types constant.
  */
 func (p *TCompactProtocol) getCompactType(t TType) TCompactType {
-	return _TTypeToCompactType[int(t)]
+	return _TTypeToCompactType[int(t.ThriftTypeId())]
 }
-- 
2.43.0


From 6d81ed9352372274c7b66a3ca61e0222ff35efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 07/86] fix: compact ReadMapBegin reports unknown key and value
 types

---
 lib/go/src/thrift/tcompact_protocol.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0e8473a..fa6b759 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -466,8 +466,16 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
 	return
 }
 
-- 
2.43.0


From 7c02eba240e7517ddba9bc9600cb32b7ca11f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 08/86] fix: compact varints longer than 10 bytes are rejected
 instead of read without bound

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index fa6b759..8fcf3b1 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -770,6 +770,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 			break
 		}
 		shift += 7
+		if shift >= 70 {
+			return 0, NewTProtocolException(INVALID_DATA, "Varint longer than 10 bytes")
+		}
 	}
 	return result, nil
 }
-- 
2.43.0


From aaf4acf928413f8138957e398bbe6ed37e15e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 09/86] fix: binary protocol rejects negative string and binary
 lengths

---
 lib/go/src/thrift/tbinary_protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..354b65a 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -432,6 +432,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if isize < 0 {
+		return nil, NewTProtocolException(NEGATIVE_SIZE, "Negative length in ReadBinary")
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
@@ -479,7 +482,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
 	if size < 0 {
-		return "", nil
+		return "", NewTProtocolException(NEGATIVE_SIZE, "Negative length in ReadString")
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
-- 
2.43.0


From efa36c598b7246983849be80e9abf5ea0b9c41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 10/86] fix: ReadAllTransport reports a short read as an error
 and a full one as success

---
 lib/go/src/thrift/ttransport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..d263031 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -163,14 +163,14 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	for n < size {
 		ret, err = p.Read(buf[n:])
 		if ret <= 0 {
-			if err != nil {
+			if err == nil {
 				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
 			}
-			return ret, err
+			return n, err
 		}
 		n += ret
 	}
-	return n, err
+	return n, nil
 }
 
 var (
-- 
2.43.0


From f89408abf01de758d3b94ef9ce52637d3ea52dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 11/86] fix: TIOStreamTransport.Write does not dereference a
 nil error on a zero-byte write

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From e4859dc63592cf913d4afd9c2158fe3f30f212e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 12/86] fix: TIOStreamTransport.Close forgets the writer of a
 read-writer too

---
 lib/go/src/thrift/tiostream_transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 475633f..071ec58 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -167,9 +167,9 @@ func (p *TIOStreamTransport) Close() error {
 		}
 		p.Reader = nil
 	}
-	if p.Writer != nil && (!closedReader || !p.IsReadWriter) {
+	if p.Writer != nil {
 		c, ok := p.Writer.(io.Closer)
-		if ok {
+		if ok && (!closedReader || !p.IsReadWriter) {
 			e := c.Close()
 			if e != nil {
 				LOGGER.Print("Error closing output stream.", e)
-- 
2.43.0


From 6bdf9dd525d43a0e3064a51762e4eefab3e28b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 13/86] fix: TFramedTransport.Read reports the error of reading
 the next frame

---
 lib/go/src/thrift/tframed_transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..71867b8 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -73,7 +73,9 @@ func (p *TFramedTransport) Read(buf []byte) (int, error) {
 	}
 
 	// Read another frame of data
-	p.readFrame()
+	if _, err := p.readFrame(); err != nil {
+		return 0, NewTTransportExceptionFromOsError(err)
+	}
 
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 55bd1c1cc5b2b01addd20507d7308528844aa704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 14/86] fix: TFramedTransport rejects negative frame sizes on
 64-bit platforms

---
 lib/go/src/thrift/tframed_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 71867b8..509d159 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -115,7 +115,7 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	size := int(binary.BigEndian.Uint32(buf))
+	size := int(int32(binary.BigEndian.Uint32(buf)))
 	if size < 0 {
 		// TODO(pomack) log error
 		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
-- 
2.43.0


From ff23b1e2e2e228a460e582da4f95b7975af6b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 15/86] fix: THttpClient.Write and Flush report NOT_OPEN
 without a request buffer instead of panicking

---
 lib/go/src/thrift/thttp_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..2a78226 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -127,11 +127,17 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "Request buffer is empty, cannot write.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "Request buffer is empty, cannot flush.")
+	}
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 0ed4c60e5b3f6f8394a93f8109499c304687a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 16/86] fix: THttpClient.Flush closes the bodies of replaced
 and rejected responses

---
 lib/go/src/thrift/thttp_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 2a78226..cf8a13f 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -138,11 +138,16 @@ func (p *THttpClient) Flush() error {
 	if p.requestBuffer == nil {
 		return NewTTransportException(NOT_OPEN, "Request buffer is empty, cannot flush.")
 	}
+	if p.response != nil && p.response.Body != nil {
+		p.response.Body.Close()
+	}
+	p.response = nil
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if response.StatusCode != http.StatusOK {
+		response.Body.Close()
 		// TODO(pomack) log bad response
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
-- 
2.43.0


From 049a29b04296736540b1569140e76b571568a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 17/86] fix: THttpClient.Close also closes the request side
 when a response is pending

---
 lib/go/src/thrift/thttp_client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index cf8a13f..d607ada 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -102,15 +102,15 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
+	if p.requestBuffer != nil {
+		p.requestBuffer.Reset()
+		p.requestBuffer = nil
+	}
 	if p.response != nil && p.response.Body != nil {
 		err := p.response.Body.Close()
 		p.response = nil
 		return err
 	}
-	if p.requestBuffer != nil {
-		p.requestBuffer.Reset()
-		p.requestBuffer = nil
-	}
 	return nil
 }
 
-- 
2.43.0


From 8ad1317a0c94303a839480424e20e7d7c4756af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 18/86] fix: TSocket.Flush sets the write deadline for the
 write it performs

---
 lib/go/src/thrift/tsocket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..3db3cef 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -212,6 +212,7 @@ func (p *TSocket) Flush() error {
 	if !p.IsOpen() {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
+	p.pushDeadline(false, true)
 	_, err := p.writeBuffer.WriteTo(p.conn)
 	return NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From 37065ede6c5461ac3040083e4dc5ad2f58fa0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 19/86] fix: TNonblockingSocket.Write converts errors like the
 other socket operations

---
 lib/go/src/thrift/tnonblocking_socket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index a811149..3238e98 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -151,7 +151,8 @@ func (p *TNonblockingSocket) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
 	p.pushDeadline(false, true)
-	return p.conn.Write(buf)
+	n, err := p.conn.Write(buf)
+	return n, NewTTransportExceptionFromOsError(err)
 }
 
 /**
-- 
2.43.0


From 083f49c7cabc748cca5db9f0e90c91d881778fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 20/86] fix: TNonblockingSocket.Open honours the configured
 timeout

---
 lib/go/src/thrift/tnonblocking_socket.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index 3238e98..ac90e01 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -120,7 +120,12 @@ func (p *TNonblockingSocket) Open() error {
 	}
 
 	var err error
-	if p.conn, err = net.Dial(p.addr.Network(), p.addr.String()); err != nil {
+	if p.nsecTimeout > 0 {
+		p.conn, err = net.DialTimeout(p.addr.Network(), p.addr.String(), time.Duration(p.nsecTimeout))
+	} else {
+		p.conn, err = net.Dial(p.addr.Network(), p.addr.String())
+	}
+	if err != nil {
 		LOGGER.Print("Could not open socket", err.Error())
 		return NewTTransportException(NOT_OPEN, err.Error())
 	}
-- 
2.43.0


From 5d910e0cae79f5d52f498febb741c1cd3a28f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 21/86] fix: Skip reports errors and unknown types and honours
 its depth limit

---
 lib/go/src/thrift/tprotocol.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..bfaadff 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -118,6 +118,9 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
 	switch fieldType {
 	case STOP:
 		return
@@ -149,12 +152,19 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				if err = Skip(self, typeId, maxDepth-1); err != nil {
+					return err
+				}
+				if err = self.ReadFieldEnd(); err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -166,8 +176,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				if err = Skip(self, keyType, maxDepth-1); err != nil {
+					return err
+				}
+				if err = Skip(self, valueType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -179,7 +193,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -191,10 +207,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
 	}
-	return nil
+	return NewTProtocolException(INVALID_DATA, "Cannot skip unknown type "+fieldType.String())
 }
-- 
2.43.0


From 148f2ccd78d41c2238a5512c9198c69f155177b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 22/86] fix: binary protocol rejects negative container sizes

---
 lib/go/src/thrift/tbinary_protocol.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 354b65a..5cb9867 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -328,6 +328,10 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+		return
+	}
 	return kType, vType, size, nil
 }
 
@@ -348,6 +352,10 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadListBegin")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -368,6 +376,10 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadSetBegin")
+		return
+	}
 	return elemType, size, nil
 }
 
-- 
2.43.0


From fd3b90afab89baa4bbbbd2a7d3689a3ec4707e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 23/86] fix: compact protocol rejects negative container sizes

---
 lib/go/src/thrift/tcompact_protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 8fcf3b1..473fd88 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -459,6 +459,10 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -500,6 +504,10 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 			return
 		}
 		size = int(size2)
+		if size < 0 {
+			err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadListBegin")
+			return
+		}
 	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
-- 
2.43.0


From 798803718c8a8303dc4912ba84414feb26278423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 24/86] fix: TApplicationException.Write reports the error of
 beginning the struct

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From bedb342a803eba2639d38dec4427356fb6fc2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 25/86] fix: exception messages give field ids and frame sizes
 as numbers

---
 lib/go/src/thrift/tframed_transport.go   | 3 ++-
 lib/go/src/thrift/tprotocol_exception.go | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 509d159..4b58685 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"encoding/binary"
+	"strconv"
 )
 
 type TFramedTransport struct {
@@ -118,7 +119,7 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	size := int(int32(binary.BigEndian.Uint32(buf)))
 	if size < 0 {
 		// TODO(pomack) log error
-		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
+		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+strconv.Itoa(size)+")")
 	}
 	if size == 0 {
 		return 0, nil
diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index d023fb7..6c46385 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/base64"
+	"strconv"
 )
 
 /**
@@ -79,7 +80,7 @@ func NewTProtocolExceptionReadField(fieldId int, fieldName string, structName st
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to read field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to read field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName string, e TProtocolException) TProtocolException {
@@ -87,7 +88,7 @@ func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName s
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to write field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to write field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionReadStruct(structName string, e TProtocolException) TProtocolException {
-- 
2.43.0


From 3143d9d52283c3bf49d9343afe58e4ff2f31a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 26/86] fix: TFramedTransport.Read into an empty buffer keeps
 the rest of the frame

---
 lib/go/src/thrift/tframed_transport.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 4b58685..354dfe4 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -68,9 +68,7 @@ func (p *TFramedTransport) Close() error {
 func (p *TFramedTransport) Read(buf []byte) (int, error) {
 	if p.readBuffer.Len() > 0 {
 		got, err := p.readBuffer.Read(buf)
-		if got > 0 {
-			return got, NewTTransportExceptionFromOsError(err)
-		}
+		return got, NewTTransportExceptionFromOsError(err)
 	}
 
 	// Read another frame of data
-- 
2.43.0


From 88b01712dd6223eaff30d1d7b6b3eeee0b152dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 27/86] fix: servers stop processing a connection at its first
 error also while stopping

---
 lib/go/src/thrift/tnonblocking_server.go | 6 ++----
 lib/go/src/thrift/tsimple_server.go      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..e90f5d2 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -163,10 +163,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..e56a881 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -149,10 +149,8 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From b40215b0de57cc2f7eb5f24ac4153fe6bccacd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 28/86] fix: servers read and set their stop flag atomically

---
 lib/go/src/thrift/tnonblocking_server.go | 16 +++++++++-------
 lib/go/src/thrift/tsimple_server.go      | 12 ++++++++----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index e90f5d2..2dd8ad5 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -19,7 +19,9 @@
 
 package thrift
 
-import ()
+import (
+	"sync/atomic"
+)
 
 /**
  * A nonblocking TServer implementation. This allows for fairness amongst all
@@ -33,8 +35,8 @@ import ()
  * method call has been read off the wire. Clients must also use TFramedTransport.
  */
 type TNonblockingServer struct {
-	/** Flag for stopping the server */
-	stopped bool
+	/** Flag for stopping the server, set from another goroutine; use sync/atomic */
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -121,12 +123,12 @@ func (p *TNonblockingServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TNonblockingServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -139,13 +141,13 @@ func (p *TNonblockingServer) Serve() error {
 }
 
 func (p *TNonblockingServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) IsStopped() bool {
-	return p.stopped
+	return atomic.LoadInt32(&p.stopped) != 0
 }
 
 func (p *TNonblockingServer) processRequest(client TTransport) {
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index e56a881..02abf43 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -19,12 +19,16 @@
 
 package thrift
 
+import (
+	"sync/atomic"
+)
+
 /**
  * Simple singlethreaded server for testing.
  *
  */
 type TSimpleServer struct {
-	stopped bool
+	stopped int32 // set by Stop from another goroutine; use sync/atomic
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -111,12 +115,12 @@ func (p *TSimpleServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TSimpleServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -129,7 +133,7 @@ func (p *TSimpleServer) Serve() error {
 }
 
 func (p *TSimpleServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
-- 
2.43.0


From 3d63bb60dd9284e525b593e9f1fca5e17466993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:25 +0000
Subject: [PATCH 29/86] fix: TNonblockingServerSocket.Listen accepts a listener
 that is already open

---
 lib/go/src/thrift/tnonblocking_server_socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..1550ce1 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -71,6 +71,9 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
+	if p.IsOpen() {
+		return nil
+	}
 	return p.Open()
 }
 
-- 
2.43.0


From bf297104c07a300176853b2346fadc605ec92964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 30/86] fix: TServerSocket can be interrupted while another
 goroutine accepts

---
 lib/go/src/thrift/tserver_socket.go | 63 ++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..a02574d 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -21,9 +21,19 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 type TServerSocket struct {
+	/**
+	 * Guards the connection objects: Interrupt and Close are called while
+	 * another goroutine is accepting
+	 */
+	mutex sync.Mutex
+	/**
+	 * Interrupted since the last Listen or Open
+	 */
+	interrupted bool
 	/**
 	 * Underlying socket conection object
 	 */
@@ -84,6 +94,13 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 }
 
 func (p *TServerSocket) Listen() (err error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.interrupted = false
+	return p.listen()
+}
+
+func (p *TServerSocket) listen() (err error) {
 	if p.listener == nil {
 		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
 			return err
@@ -93,25 +110,40 @@ func (p *TServerSocket) Listen() (err error) {
 }
 
 func (p *TServerSocket) Accept() (TTransport, error) {
+	listener, err := p.acceptor()
+	if err != nil {
+		return nil, err
+	}
+	conn, err := listener.Accept()
+	if err != nil {
+		return nil, NewTTransportExceptionFromOsError(err)
+	}
+	return NewTSocketConnTimeout(conn, p.nsecClientTimeout)
+}
+
+func (p *TServerSocket) acceptor() (net.Listener, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.interrupted {
+		return nil, NewTTransportException(NOT_OPEN, "Server socket interrupted")
+	}
 	if p.listener == nil {
-		if err := p.Listen(); err != nil {
+		if err := p.listen(); err != nil {
 			return nil, NewTTransportExceptionFromOsError(err)
 		}
 		if p.listener == nil {
 			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 		}
 	}
-	conn, err := p.listener.Accept()
-	if err != nil {
-		return nil, NewTTransportExceptionFromOsError(err)
-	}
-	return NewTSocketConnTimeout(conn, p.nsecClientTimeout)
+	return p.listener, nil
 }
 
 /**
  * Checks whether the socket is connected.
  */
 func (p *TServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -119,12 +151,15 @@ func (p *TServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
 		}
 		p.listener = l
+		p.interrupted = false
 		return nil
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
@@ -167,7 +202,13 @@ func (p *TServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.close()
+}
+
+func (p *TServerSocket) close() (err error) {
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
@@ -185,6 +226,8 @@ func (p *TServerSocket) Close() (err error) {
 }
 
 func (p *TServerSocket) Interrupt() error {
-	// TODO(pomack) fix Interrupt as it is probably not right
-	return NewTTransportExceptionFromOsError(p.Close())
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.interrupted = true
+	return NewTTransportExceptionFromOsError(p.close())
 }
-- 
2.43.0


From 5a65bc8270b5a876e4e5543cde1820cd0db81728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:04 +0000
Subject: [PATCH 31/86] fix: TNonblockingServerSocket can be interrupted while
 another goroutine accepts

---
 .../src/thrift/tnonblocking_server_socket.go  | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index 1550ce1..ada48f8 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -21,12 +21,18 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 /**
  * Socket implementation of the TTransport interface. To be commented soon!
  */
 type TNonblockingServerSocket struct {
+	/**
+	 * Guards the listener: Interrupt and Close are called while another
+	 * goroutine is accepting
+	 */
+	mutex    sync.Mutex
 	listener net.Listener
 	addr     net.Addr
 	/**
@@ -91,6 +97,8 @@ func (p *TNonblockingServerSocket) SetTimeout(nsecTimeout int64) error {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -98,7 +106,9 @@ func (p *TNonblockingServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TNonblockingServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
@@ -139,10 +149,13 @@ func (p *TNonblockingServerSocket) Addr() net.Addr {
 }
 
 func (p *TNonblockingServerSocket) Accept() (TTransport, error) {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
 		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -157,7 +170,9 @@ func (p *TNonblockingServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From df1f437011a3ad743e4e6a9dc40a27e7599c687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:35 +0000
Subject: [PATCH 32/86] fix: TSocket does not send a closed connection's
 unflushed data on the next one

---
 lib/go/src/thrift/tsocket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 3db3cef..c9b46f4 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -178,6 +178,8 @@ func (p *TSocket) Close() error {
 			return err
 		}
 		p.conn = nil
+		// what was not flushed belongs to the closed connection
+		p.writeBuffer.Reset()
 	}
 	return nil
 }
-- 
2.43.0


From 71e507e3ecc03f24c8418f94622a5320c56e6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:37 +0000
Subject: [PATCH 33/86] fix: THttpClient does not send a failed request's data
 again with the next one

---
 lib/go/src/thrift/thttp_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index d607ada..a7ebc39 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -142,7 +142,10 @@ func (p *THttpClient) Flush() error {
 		p.response.Body.Close()
 	}
 	p.response = nil
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	// the request keeps its body, later writes belong to the next one
+	body := p.requestBuffer
+	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	response, err := http.Post(p.url.String(), "application/x-thrift", body)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
-- 
2.43.0


From 402554e93bf7519cf9b619fc29b67a9c5cdb36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 34/86] fix: TIOStreamTransport closes the streams it buffers

---
 lib/go/src/thrift/tiostream_transport.go | 39 ++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 071ec58..efb9ddd 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -81,6 +81,39 @@ func NewTIOStreamTransportFactory(reader io.Reader, writer io.Writer, isReadWrit
 	return &TIOStreamTransportFactory{Reader: reader, Writer: writer, IsReadWriter: isReadWriter}
 }
 
+/**
+ * A buffered stream that closes the stream below it.
+ */
+type bufferedReadCloser struct {
+	*bufio.Reader
+	io.Closer
+}
+
+type bufferedWriteCloser struct {
+	*bufio.Writer
+	io.Closer
+}
+
+func newBufferedReader(r io.Reader) io.Reader {
+	if b, ok := r.(*bufferedReadCloser); ok {
+		return b
+	}
+	if c, ok := r.(io.Closer); ok {
+		return &bufferedReadCloser{bufio.NewReader(r), c}
+	}
+	return bufio.NewReader(r)
+}
+
+func newBufferedWriter(w io.Writer) io.Writer {
+	if b, ok := w.(*bufferedWriteCloser); ok {
+		return b
+	}
+	if c, ok := w.(io.Closer); ok {
+		return &bufferedWriteCloser{bufio.NewWriter(w), c}
+	}
+	return bufio.NewWriter(w)
+}
+
 /**
  * Subclasses can invoke the default constructor and then assign the input
  * streams in the open method.
@@ -95,7 +128,7 @@ func NewTIOStreamTransportDefault() *TIOStreamTransport {
  * @param is Input stream to read from
  */
 func NewTIOStreamTransportR(r io.Reader) *TIOStreamTransport {
-	return &TIOStreamTransport{Reader: bufio.NewReader(r)}
+	return &TIOStreamTransport{Reader: newBufferedReader(r)}
 }
 
 /**
@@ -104,7 +137,7 @@ func NewTIOStreamTransportR(r io.Reader) *TIOStreamTransport {
  * @param os Output stream to read from
  */
 func NewTIOStreamTransportW(w io.Writer) *TIOStreamTransport {
-	return &TIOStreamTransport{Writer: bufio.NewWriter(w)}
+	return &TIOStreamTransport{Writer: newBufferedWriter(w)}
 }
 
 /**
@@ -114,7 +147,7 @@ func NewTIOStreamTransportW(w io.Writer) *TIOStreamTransport {
  * @param os Output stream to read from
  */
 func NewTIOStreamTransportRAndW(r io.Reader, w io.Writer) *TIOStreamTransport {
-	return &TIOStreamTransport{Reader: bufio.NewReader(r), Writer: bufio.NewWriter(w)}
+	return &TIOStreamTransport{Reader: newBufferedReader(r), Writer: newBufferedWriter(w)}
 }
 
 /**
-- 
2.43.0


From 17f74753ed1b5c00a3b98517569903d2a527aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:24 +0000
Subject: [PATCH 35/86] fix: TJSONProtocol recognises the type name it writes
 for i16

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..bdabdbc 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -509,7 +509,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From b52eeab9f6ec101c225b3cfe25ef820817707b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:27 +0000
Subject: [PATCH 36/86] fix: TJSONProtocol names the type of binary elements

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index bdabdbc..8f9abe7 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -477,7 +477,7 @@ func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 		return "i32"
 	case I64:
 		return "i64"
-	case STRING:
+	case STRING, BINARY:
 		return "str"
 	case STRUCT:
 		return "rec"
-- 
2.43.0


From 3ff32e138068067488afee6a61bcc4589eaa13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 37/86] fix: TJSONProtocol.WriteBinary reports failed writes

---
 lib/go/src/thrift/tjson_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 8f9abe7..48fc102 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -187,13 +187,19 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 	if e := p.OutputPreValue(); e != nil {
 		return e
 	}
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
 	if _, e := writer.Write(v); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if e := writer.Close(); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	return p.OutputPostValue()
 }
 
-- 
2.43.0


From 9e6b5ad19782de50f57daddb5c0040a2c23aafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:31 +0000
Subject: [PATCH 38/86] fix: JSON strings that are malformed are reported

---
 lib/go/src/thrift/tsimple_json_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..15e6ce4 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -846,7 +846,7 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	if i&0x01 == 1 {
 		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
 		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+			return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+string(JSON_QUOTE)+line)
 		}
 		return v, nil
 	}
-- 
2.43.0


From 8ec2bcd5c2f27bf04770b6202d252facc932c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:34 +0000
Subject: [PATCH 39/86] fix: JSON protocols decode the same however the stream
 is split into reads

---
 lib/go/src/thrift/tjson_protocol.go        |  4 +-
 lib/go/src/thrift/tsimple_json_protocol.go | 65 +++++++++-------------
 2 files changed, 27 insertions(+), 42 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 48fc102..0f3ecc9 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -247,8 +247,8 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
+	if e := p.readNonSignificantWhitespace(); e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
 	b, _ := p.reader.Peek(1)
 	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 15e6ce4..a223b4b 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,9 +337,6 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
@@ -735,9 +732,6 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
-	}
 	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
@@ -791,9 +785,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
-	if e := p.readNonSignificantWhitespace(); e != nil {
-		return NewTProtocolExceptionFromOsError(e)
-	}
+	// whitespace is left to the next value, there may be nothing more to read yet
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
 	switch cxt {
 	case _CONTEXT_IN_LIST_FIRST:
@@ -813,10 +805,10 @@ func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
-	for p.reader.Buffered() > 0 {
-		b, _ := p.reader.Peek(1)
-		if len(b) < 1 {
-			return nil
+	for {
+		b, e := p.reader.Peek(1)
+		if e != nil {
+			return e
 		}
 		switch b[0] {
 		case ' ', '\r', '\n', '\t':
@@ -1109,29 +1101,25 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 
 }
 
-func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
-	cont := true
-	for p.reader.Buffered() > 0 && cont {
-		b, _ := p.reader.Peek(1)
-		if len(b) < 1 {
-			return false, nil
-		}
-		switch b[0] {
-		default:
-			return false, nil
-		case JSON_NULL[0]:
-			cont = false
-			break
-		case ' ', '\n', '\r', '\t':
-			p.reader.ReadByte()
-			break
-		}
+/**
+ * Looks whether the next value is the given word, without waiting for more
+ * than its first byte if it is not.
+ */
+func (p *TSimpleJSONProtocol) nextIs(word []byte) bool {
+	b, _ := p.reader.Peek(1)
+	if len(b) < 1 || b[0] != word[0] {
+		return false
 	}
-	if p.reader.Buffered() == 0 {
-		return false, nil
+	b, _ = p.reader.Peek(len(word))
+	return string(b) == string(word)
+}
+
+func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
+	if e := p.readNonSignificantWhitespace(); e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if string(b) == string(JSON_NULL) {
+	if p.nextIs(JSON_NULL) {
+		b, _ := p.reader.Peek(len(JSON_NULL))
 		p.reader.Read(b[0:len(JSON_NULL)])
 		return true, nil
 	}
@@ -1139,9 +1127,6 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
@@ -1200,7 +1185,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 {
 				buffer := make([]byte, len(JSON_NAN))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1219,7 +1204,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
 				buffer := make([]byte, len(JSON_INFINITY))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1235,7 +1220,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
 				buffer[0] = JSON_NEGATIVE_INFINITY[0]
 				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
+				_, e := io.ReadFull(p.reader, buffer[2:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
-- 
2.43.0


From 0a0f8ff0c9eea508faf7ad233cedbcd0380be034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 40/86] fix: JSON protocols do not wait for data beyond the
 value they read

---
 lib/go/src/thrift/tjson_protocol.go        | 36 ++++++------
 lib/go/src/thrift/tsimple_json_protocol.go | 66 +++++++++++-----------
 2 files changed, 50 insertions(+), 52 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 0f3ecc9..0e24a9a 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -320,11 +320,15 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			b, _ = p.reader.Peek(len(JSON_TRUE))
+			if string(b) == string(JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -332,7 +336,8 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			b, _ = p.reader.Peek(len(JSON_FALSE))
+			if string(b) == string(JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -340,7 +345,8 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			b, _ = p.reader.Peek(len(JSON_NULL))
+			if string(b) == string(JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
@@ -383,7 +389,7 @@ func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -391,12 +397,9 @@ func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
+	} else if isNull, err := p.readIfNull(); err != nil {
+		return v, err
+	} else if !isNull {
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
 	}
 	return v, p.ParsePostValue()
@@ -407,7 +410,7 @@ func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -415,12 +418,9 @@ func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
+	} else if isNull, err := p.readIfNull(); err != nil {
+		return v, err
+	} else if !isNull {
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
 	}
 	return v, p.ParsePostValue()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index a223b4b..e55321a 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -425,11 +425,15 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			b, _ = p.reader.Peek(len(JSON_TRUE))
+			if string(b) == string(JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -437,7 +441,8 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			b, _ = p.reader.Peek(len(JSON_FALSE))
+			if string(b) == string(JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -445,7 +450,8 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			b, _ = p.reader.Peek(len(JSON_NULL))
+			if string(b) == string(JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
@@ -488,7 +494,7 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -496,12 +502,9 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
+	} else if isNull, err := p.readIfNull(); err != nil {
+		return v, err
+	} else if !isNull {
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
 	}
 	return v, p.ParsePostValue()
@@ -512,7 +515,7 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -520,12 +523,9 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
+	} else if isNull, err := p.readIfNull(); err != nil {
+		return v, err
+	} else if !isNull {
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
 	}
 	return v, p.ParsePostValue()
@@ -895,12 +895,11 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 		return 0, false, err
 	}
 	var value int64
-	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
-		isnull = true
-	} else {
+	isnull, err := p.readIfNull()
+	if err != nil {
+		return value, isnull, err
+	}
+	if !isnull {
 		num, err := p.readNumeric()
 		isnull = (num == nil)
 		if !isnull {
@@ -918,12 +917,11 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 		return 0, false, err
 	}
 	var value float64
-	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
-		isnull = true
-	} else {
+	isnull, err := p.readIfNull()
+	if err != nil {
+		return value, isnull, err
+	}
+	if !isnull {
 		num, err := p.readNumeric()
 		isnull = (num == nil)
 		if !isnull {
@@ -940,12 +938,12 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
 		return false, nil
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+	} else if p.nextIs(JSON_NULL) {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected '{' or null, but found '", string(b), "'"))
@@ -979,12 +977,12 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
+	b, e := p.reader.Peek(1)
 	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
 		return false, nil
-	} else if e == nil && len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
+	} else if p.nextIs(JSON_NULL) {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '{', received '%q'", b))
-- 
2.43.0


From 3c9ab2c1ae42d37d47e6b99ad3009ed325f76c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 41/86] fix: JSON containers and structs that are null read as
 empty ones

---
 lib/go/src/thrift/tjson_protocol.go        |  2 +-
 lib/go/src/thrift/tsimple_json_protocol.go | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 0e24a9a..9cdb0b7 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -251,7 +251,7 @@ func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolExcepti
 		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
 	b, _ := p.reader.Peek(1)
-	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
+	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] || b[0] == JSON_NULL[0] {
 		return "", STOP, -1, nil
 	}
 	fieldId, err := p.ReadI16()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index e55321a..0a34fdd 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -340,7 +340,7 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
-		case JSON_RBRACE[0]:
+		case JSON_RBRACE[0], JSON_NULL[0]:
 			return "", STOP, 0, nil
 		case JSON_QUOTE:
 			p.reader.ReadByte()
@@ -950,8 +950,10 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) ParseObjectEnd() TProtocolException {
-	if isNull, err := p.readIfNull(); isNull || err != nil {
+	if isNull, err := p.readIfNull(); err != nil {
 		return err
+	} else if isNull {
+		return p.ParsePostValue()
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
 	if cxt != _CONTEXT_IN_OBJECT_FIRST && cxt != _CONTEXT_IN_OBJECT_NEXT_KEY {
@@ -1003,8 +1005,10 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 }
 
 func (p *TSimpleJSONProtocol) ParseListEnd() TProtocolException {
-	if isNull, err := p.readIfNull(); isNull || err != nil {
+	if isNull, err := p.readIfNull(); err != nil {
 		return err
+	} else if isNull {
+		return p.ParsePostValue()
 	}
 	if _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) != _CONTEXT_IN_LIST {
 		return NewTProtocolException(INVALID_DATA, "Expected to be in the List Context, but not in List Context")
-- 
2.43.0


From 7291716756431590dd9f6aed12ce753238b9c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:41 +0000
Subject: [PATCH 42/86] fix: JSON numbers that cannot be parsed are errors

---
 lib/go/src/thrift/tsimple_json_protocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 0a34fdd..c6f7fcf 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -908,6 +908,9 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 		if err != nil {
 			return value, isnull, err
 		}
+		if _, e := strconv.ParseInt(num.String(), 10, 64); e != nil {
+			return 0, isnull, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected an integer, found ", num.String()))
+		}
 	}
 	return value, isnull, p.ParsePostValue()
 }
@@ -1250,5 +1253,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	if buf.Len() == 0 {
 		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprint("Unable to parse number from empty string ''"))
 	}
+	if _, e := strconv.ParseFloat(buf.String(), 64); e != nil {
+		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprint("Unable to parse number '", buf.String(), "'"))
+	}
 	return NewNumericFromJSONString(buf.String(), false), nil
 }
-- 
2.43.0


From dc4f8afc8627e81b6433beac27b93c1152ac33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 43/86] fix: JSON protocols reject negative container sizes

---
 lib/go/src/thrift/tjson_protocol.go        | 6 ++++++
 lib/go/src/thrift/tsimple_json_protocol.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 9cdb0b7..5e6ed3c 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -292,6 +292,9 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 	// read size
 	iSize, err := p.ReadI64()
 	size = int(iSize)
+	if err == nil && size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+	}
 	return keyType, valueType, size, err
 }
 
@@ -449,6 +452,9 @@ func (p *TJSONProtocol) readElemListBegin() (elemType TType, size int, e TProtoc
 	}
 	nSize, err2 := p.ReadI64()
 	size = int(nSize)
+	if err2 == nil && size < 0 {
+		err2 = NewTProtocolException(NEGATIVE_SIZE, "Negative size in list or set")
+	}
 	return elemType, size, err2
 }
 
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index c6f7fcf..2db5158 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -397,6 +397,9 @@ func (p *TSimpleJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, si
 	// read size
 	iSize, err := p.ReadI64()
 	size = int(iSize)
+	if err == nil && size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+	}
 	return keyType, valueType, size, err
 }
 
@@ -1004,6 +1007,9 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 	}
 	nSize, err2 := p.ReadI64()
 	size = int(nSize)
+	if err2 == nil && size < 0 {
+		err2 = NewTProtocolException(NEGATIVE_SIZE, "Negative size in list or set")
+	}
 	return elemType, size, err2
 }
 
-- 
2.43.0


From 502226a172b3788b5cc6d737fb9334e8adb976e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:44 +0000
Subject: [PATCH 44/86] fix: simple JSON protocol reads null structs inside
 containers as empty

---
 lib/go/src/thrift/tsimple_json_protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 2db5158..c0c92bf 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -334,6 +334,14 @@ func (p *TSimpleJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
+	switch _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) {
+	case _CONTEXT_IN_OBJECT_FIRST, _CONTEXT_IN_OBJECT_NEXT_KEY:
+	default:
+		// not inside an object: the struct is null and has no fields
+		if p.nextIs(JSON_NULL) {
+			return "", STOP, 0, nil
+		}
+	}
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-- 
2.43.0


From cfa2df6ca7653595726a01ea143b9b2241baf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 45/86] fix: JSON protocols reject integers that do not fit the
 type read

---
 lib/go/src/thrift/tjson_protocol.go        | 10 ++++++++++
 lib/go/src/thrift/tsimple_json_protocol.go |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 5e6ed3c..d1da5d5 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"encoding/base64"
 	"fmt"
+	"math"
 )
 
 const (
@@ -364,16 +365,25 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 
 func (p *TJSONProtocol) ReadByte() (byte, TProtocolException) {
 	v, err := p.ReadI64()
+	if err == nil && (v < math.MinInt8 || v > math.MaxUint8) {
+		err = NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a byte, found ", v))
+	}
 	return byte(v), err
 }
 
 func (p *TJSONProtocol) ReadI16() (int16, TProtocolException) {
 	v, err := p.ReadI64()
+	if err == nil && (v < math.MinInt16 || v > math.MaxInt16) {
+		err = NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a 16-bit integer, found ", v))
+	}
 	return int16(v), err
 }
 
 func (p *TJSONProtocol) ReadI32() (int32, TProtocolException) {
 	v, err := p.ReadI64()
+	if err == nil && (v < math.MinInt32 || v > math.MaxInt32) {
+		err = NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a 32-bit integer, found ", v))
+	}
 	return int32(v), err
 }
 
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index c0c92bf..db3437d 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -477,16 +477,25 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 
 func (p *TSimpleJSONProtocol) ReadByte() (byte, TProtocolException) {
 	v, err := p.ReadI64()
+	if err == nil && (v < math.MinInt8 || v > math.MaxUint8) {
+		err = NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a byte, found ", v))
+	}
 	return byte(v), err
 }
 
 func (p *TSimpleJSONProtocol) ReadI16() (int16, TProtocolException) {
 	v, err := p.ReadI64()
+	if err == nil && (v < math.MinInt16 || v > math.MaxInt16) {
+		err = NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a 16-bit integer, found ", v))
+	}
 	return int16(v), err
 }
 
 func (p *TSimpleJSONProtocol) ReadI32() (int32, TProtocolException) {
 	v, err := p.ReadI64()
+	if err == nil && (v < math.MinInt32 || v > math.MaxInt32) {
+		err = NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a 32-bit integer, found ", v))
+	}
 	return int32(v), err
 }
 
-- 
2.43.0


From 9ecfa54e41bee7bbe497bb2171f93b431130971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:47 +0000
Subject: [PATCH 46/86] fix: quoted JSON numbers end with their closing quote

---
 lib/go/src/thrift/tsimple_json_protocol.go | 33 ++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index db3437d..da865b4 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1154,11 +1154,15 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 	return false, nil
 }
 
-func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	b, _ := p.reader.Peek(1)
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
+func (p *TSimpleJSONProtocol) readQuote() TProtocolException {
+	c, e := p.reader.ReadByte()
+	if e != nil {
+		return NewTProtocolExceptionFromOsError(e)
 	}
+	if c != JSON_QUOTE {
+		return NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected '\"' after quoted number but found '%c'", c))
+	}
+	return nil
 }
 
 func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
@@ -1222,7 +1226,9 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readQuote(); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NAN, nil
 			} else {
@@ -1241,7 +1247,9 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readQuote(); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return INFINITY, nil
 			} else if buf.Len() == 1 && buf.Bytes()[0] == JSON_NEGATIVE_INFINITY[0] {
@@ -1257,7 +1265,9 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readQuote(); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NEGATIVE_INFINITY, nil
 			} else {
@@ -1265,14 +1275,21 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			}
 		case JSON_QUOTE:
 			if !inQuotes {
+				if buf.Len() > 0 {
+					return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number '%s\"'", buf.String()))
+				}
 				inQuotes = true
 			} else {
-				break
+				inQuotes = false
+				continueFor = false
 			}
 		default:
 			return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c'", c))
 		}
 	}
+	if inQuotes {
+		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number '\"%s', the quotes do not end", buf.String()))
+	}
 	if buf.Len() == 0 {
 		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprint("Unable to parse number from empty string ''"))
 	}
-- 
2.43.0


From bd19274eb592ccd1db5572f9d2a39afea5d07541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:00 +0000
Subject: [PATCH 47/86] fix: JSON protocols report transport failures inside
 null

---
 lib/go/src/thrift/tsimple_json_protocol.go | 29 +++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index da865b4..24b8991 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -338,7 +338,9 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	case _CONTEXT_IN_OBJECT_FIRST, _CONTEXT_IN_OBJECT_NEXT_KEY:
 	default:
 		// not inside an object: the struct is null and has no fields
-		if p.nextIs(JSON_NULL) {
+		if isNull, e := p.nextIs(JSON_NULL); e != nil {
+			return "", STOP, 0, NewTProtocolExceptionFromOsError(e)
+		} else if isNull {
 			return "", STOP, 0, nil
 		}
 	}
@@ -966,7 +968,9 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
 		return false, nil
-	} else if p.nextIs(JSON_NULL) {
+	} else if isNull, e := p.nextIs(JSON_NULL); e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	} else if isNull {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected '{' or null, but found '", string(b), "'"))
@@ -1007,7 +1011,9 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
 		return false, nil
-	} else if p.nextIs(JSON_NULL) {
+	} else if isNull, e := p.nextIs(JSON_NULL); e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	} else if isNull {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '{', received '%q'", b))
@@ -1133,20 +1139,25 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
  * Looks whether the next value is the given word, without waiting for more
  * than its first byte if it is not.
  */
-func (p *TSimpleJSONProtocol) nextIs(word []byte) bool {
-	b, _ := p.reader.Peek(1)
+func (p *TSimpleJSONProtocol) nextIs(word []byte) (bool, error) {
+	b, e := p.reader.Peek(1)
 	if len(b) < 1 || b[0] != word[0] {
-		return false
+		return false, e
+	}
+	b, e = p.reader.Peek(len(word))
+	if string(b) == string(word) {
+		return true, nil
 	}
-	b, _ = p.reader.Peek(len(word))
-	return string(b) == string(word)
+	return false, e
 }
 
 func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 	if e := p.readNonSignificantWhitespace(); e != nil {
 		return false, NewTProtocolExceptionFromOsError(e)
 	}
-	if p.nextIs(JSON_NULL) {
+	if isNull, e := p.nextIs(JSON_NULL); e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	} else if isNull {
 		b, _ := p.reader.Peek(len(JSON_NULL))
 		p.reader.Read(b[0:len(JSON_NULL)])
 		return true, nil
-- 
2.43.0


From a362b07c6a340684ca36b0ddc977d269c6eb4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:22 +0000
Subject: [PATCH 48/86] fix: simple JSON protocol rejects a comma after the
 last field

---
 lib/go/src/thrift/tsimple_json_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 24b8991..714692d 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -782,6 +782,9 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				if e := p.readNonSignificantWhitespace(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
+				if b, _ = p.reader.Peek(1); len(b) > 0 && b[0] == JSON_RBRACE[0] {
+					return NewTProtocolException(INVALID_DATA, "Expected a field after \",\" in object context, but found \"}\"")
+				}
 				return nil
 			default:
 				return NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected \"}\" or \",\" in object context, but found \"", string(b), "\""))
-- 
2.43.0


From 88ee5cf6f4a66dabced3d2a1abcd2164ce812695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:06 +0000
Subject: [PATCH 49/86] fix: CoerceData converts text that is a number and
 refuses other text

---
 lib/go/src/thrift/ttype.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..027eb68 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -699,7 +699,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return byte(int(i1)), true
 			}
 		}
@@ -764,7 +764,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			d1, err := strconv.ParseFloat(b, 64)
-			if err != nil {
+			if err == nil {
 				return d1, true
 			}
 		}
@@ -823,7 +823,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int16(i1), true
 			}
 		}
@@ -882,7 +882,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int32(i1), true
 			}
 		}
@@ -941,7 +941,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.ParseInt(b, 10, 64)
-			if err != nil {
+			if err == nil {
 				return i1, true
 			}
 		}
-- 
2.43.0


From f2b8a4402a92117f2fbbe182c8e9a6dd108aba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:08 +0000
Subject: [PATCH 50/86] fix: CoerceData of a Numeric is the number, not whether
 it is zero

---
 lib/go/src/thrift/ttype.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 027eb68..7e4a62a 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -712,7 +712,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Float64() != 0.0), true
+			return b.Float64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return float64(b), true
@@ -777,7 +777,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int16(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int16() != 0), true
+			return b.Int16(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int16(b), true
@@ -836,7 +836,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int32(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int32() != 0), true
+			return b.Int32(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int32(b), true
@@ -898,7 +898,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int64(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int64() != 0), true
+			return b.Int64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int64(b), true
-- 
2.43.0


From d866f2badf9e8baed6d40e3dbb3b8d9ae014a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:10 +0000
Subject: [PATCH 51/86] fix: CoerceData gives integers as decimal text

---
 lib/go/src/thrift/ttype.go | 48 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 7e4a62a..8656fe9 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -952,7 +952,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return string(i1), true
+				return strconv.Itoa(i1), true
 			}
 			return b.String(), true
 		}
@@ -963,10 +963,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(int); ok {
-			return string(b), true
+			return strconv.Itoa(b), true
 		}
 		if b, ok := data.(byte); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -975,31 +975,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return "false", true
 		}
 		if b, ok := data.(int8); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int16); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int32); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int64); ok {
-			return string(b), true
+			return strconv.FormatInt(b, 10), true
 		}
 		if b, ok := data.(uint); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint8); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint16); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint32); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint64); ok {
-			return string(b), true
+			return strconv.FormatUint(b, 10), true
 		}
 		if b, ok := data.(float32); ok {
 			return strconv.FormatFloat(float64(b), 'g', -1, 32), true
@@ -1014,7 +1014,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return []byte(string(i1)), true
+				return []byte(strconv.Itoa(i1)), true
 			}
 			return []byte(b.String()), true
 		}
@@ -1025,10 +1025,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte(b), true
 		}
 		if b, ok := data.(int); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.Itoa(b)), true
 		}
 		if b, ok := data.(byte); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1037,31 +1037,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte("false"), true
 		}
 		if b, ok := data.(int8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(b, 10)), true
 		}
 		if b, ok := data.(uint); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(b, 10)), true
 		}
 		if b, ok := data.(float32); ok {
 			return []byte(strconv.FormatFloat(float64(b), 'g', -1, 32)), true
-- 
2.43.0


From 99f6214a522cc5c65440e609345a15e475203834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:12 +0000
Subject: [PATCH 52/86] fix: CoerceData refuses values that are no struct for
 STRUCT

---
 lib/go/src/thrift/ttype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 8656fe9..bd5c85c 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -1074,7 +1074,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(TStruct); ok {
 			return b, true
 		}
-		return NewTStructEmpty(""), true
+		return NewTStructEmpty(""), false
 	case MAP:
 		if b, ok := data.(TMap); ok {
 			return b, true
-- 
2.43.0


From 765dddcf0cfc94313a75313a68d21dd6f3bad292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:14 +0000
Subject: [PATCH 53/86] fix: the text of a Numeric denotes its value

---
 lib/go/src/thrift/tnumeric.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index aa8daa9..5a2797c 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -62,21 +62,21 @@ func NewNumericFromDouble(dValue float64) Numeric {
 		return NAN
 	}
 	iValue := int64(dValue)
-	sValue := strconv.FormatFloat(dValue, 'g', 10, 64)
+	sValue := strconv.FormatFloat(dValue, 'g', -1, 64)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI64(iValue int64) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(iValue, 10)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI32(iValue int32) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: int64(iValue), dValue: dValue, sValue: sValue, isNil: isNil}
 }
-- 
2.43.0


From 586506b1a35fadc7675cef5cc865e45e5754a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 54/86] fix: Less of types, lists, sets and maps tells what is
 smaller

---
 lib/go/src/thrift/tlist.go | 3 +--
 lib/go/src/thrift/tmap.go  | 2 +-
 lib/go/src/thrift/tset.go  | 2 +-
 lib/go/src/thrift/ttype.go | 2 +-
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..e5f1ef0 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -119,8 +119,7 @@ func (p *tList) Contains(data interface{}) bool {
 }
 
 func (p *tList) Less(i, j int) bool {
-	_, less := p.elemType.Compare(p.l[i], p.l[j])
-	return less
+	return p.elemType.Less(p.l[i], p.l[j])
 }
 
 func (p *tList) Iter() <-chan interface{} {
diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..f2307e7 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -735,7 +735,7 @@ func (p *tMap) ValueIter() <-chan interface{} {
 
 func (p *tMap) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tMap) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..3c393de 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -103,7 +103,7 @@ func (p *tSet) Remove(data interface{}) {
 
 func (p *tSet) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tSet) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index bd5c85c..ccfcc56 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -254,7 +254,7 @@ func (p TType) LessType(other interface{}) bool {
 
 func (p TType) Less(i, j interface{}) bool {
 	cmp, ok := p.Compare(i, j)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-- 
2.43.0


From 33242e44eae9707289f04ba5cc81179bb132ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 55/86] fix: CompareInt64 compares 64-bit integers

---
 lib/go/src/thrift/tcompare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..80d6897 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
-- 
2.43.0


From 4a1cf51b7fea8798c9abf2c6f5fc6afaef29b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:55 +0000
Subject: [PATCH 56/86] fix: Compare does not panic on values that Go cannot
 compare

---
 lib/go/src/thrift/ttype.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index ccfcc56..0250b16 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"reflect"
 	"strconv"
 )
 
@@ -259,7 +260,7 @@ func (p TType) Less(i, j interface{}) bool {
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
 	if p != BINARY {
-		if i == j {
+		if identical(i, j) {
 			return 0, true
 		}
 	}
@@ -285,7 +286,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		return 0, false
 	}
 	if p != BINARY {
-		if ci == cj {
+		if identical(ci, cj) {
 			return 0, true
 		}
 	}
@@ -487,6 +488,14 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+// identical is i == j, except that values that cannot be compared differ.
+func identical(i, j interface{}) bool {
+	if t := reflect.TypeOf(i); t != nil && !t.Comparable() {
+		return false
+	}
+	return i == j
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From c34a9e7737ece85f1181f319ca9990874efaa8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:58 +0000
Subject: [PATCH 57/86] fix: comparing structs that differ leaves no goroutine
 behind

---
 lib/go/src/thrift/ttype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 0250b16..5e335ac 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -413,7 +413,11 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if cmp, ok := si.TStructFields().CompareTo(sj.TStructFields()); !ok || cmp != 0 {
 			return cmp, ok
 		}
+		fields := make([]TField, 0, si.TStructFields().Len())
 		for field := range si.TStructFields().Iter() {
+			fields = append(fields, field)
+		}
+		for _, field := range fields {
 			a := si.AttributeFromFieldId(field.Id())
 			b := sj.AttributeFromFieldId(field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
-- 
2.43.0


From 38bd7618dcefc059c8c30e059a05abc1043077e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 58/86] fix: TSet keeps an element that is smaller than all the
 others

---
 lib/go/src/thrift/tset.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 3c393de..2f41910 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -79,18 +79,15 @@ func (p *tSet) Contains(data interface{}) bool {
 
 func (p *tSet) Add(other interface{}) {
 	if data, ok := p.elemType.CoerceData(other); ok {
-		if p.l.Front() == nil {
-			p.l.PushFront(data)
-		} else {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
-					if cmp > 0 {
-						p.l.InsertBefore(data, elem)
-					}
-					return
+		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
+				if cmp > 0 {
+					p.l.InsertBefore(data, elem)
 				}
+				return
 			}
 		}
+		p.l.PushBack(data)
 	}
 }
 
-- 
2.43.0


From 6e32b68b2d1f5d9fc8caca4bbc224f026c2c5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:32 +0000
Subject: [PATCH 59/86] fix: an empty TSet has length 0

---
 lib/go/src/thrift/tset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 2f41910..72d81dd 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -67,10 +67,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
-- 
2.43.0


From 01c189ed76df4f94c3d5d2895131b9a846129b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:34 +0000
Subject: [PATCH 60/86] fix: TSet without an element type takes that of the
 first element

---
 lib/go/src/thrift/tset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 72d81dd..4e33713 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -75,6 +75,9 @@ func (p *tSet) Contains(data interface{}) bool {
 }
 
 func (p *tSet) Add(other interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(other)
+	}
 	if data, ok := p.elemType.CoerceData(other); ok {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
 			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
-- 
2.43.0


From 3b754d487a463d700d67f0a292b3c79bac4325e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:36 +0000
Subject: [PATCH 61/86] fix: looking for bytes does not panic on a nil element

---
 lib/go/src/thrift/tlist.go | 2 +-
 lib/go/src/thrift/tset.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index e5f1ef0..88ad235 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -152,7 +152,7 @@ func (p *tList) indexOf(data interface{}) int {
 	size := len(p.l)
 	if p.elemType == BINARY {
 		for i := 0; i < size; i++ {
-			if bytes.Compare(data.([]byte), p.l[i].([]byte)) == 0 {
+			if v, ok := p.l[i].([]byte); ok && bytes.Compare(data.([]byte), v) == 0 {
 				return i
 			}
 		}
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 4e33713..382806e 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -127,7 +127,7 @@ func (p *tSet) find(data interface{}) *list.Element {
 	}
 	if p.elemType == BINARY {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if bytes.Compare(data.([]byte), elem.Value.([]byte)) == 0 {
+			if v, ok := elem.Value.([]byte); ok && bytes.Compare(data.([]byte), v) == 0 {
 				return elem
 			}
 		}
-- 
2.43.0


From 242635fad08b3e5f007f855149315c576fed5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 62/86] fix: TList.Set one past the end appends

---
 lib/go/src/thrift/tlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 88ad235..c437f3b 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -74,7 +74,7 @@ func (p *tList) Set(i int, data interface{}) {
 		p.elemType = TypeFromValue(data)
 	}
 	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+		if i < len(p.l) {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
-- 
2.43.0


From 33266316e3fd51d0d34d9d93b6efa95e9b023936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:40 +0000
Subject: [PATCH 63/86] fix: TList.Insert keeps elements of the element type

---
 lib/go/src/thrift/tlist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index c437f3b..56e92d3 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -105,6 +105,13 @@ func (p *tList) Swap(i, j int) {
 }
 
 func (p *tList) Insert(i int, data interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(data)
+	}
+	data, ok := p.elemType.CoerceData(data)
+	if !ok {
+		return
+	}
 	newl := make([]interface{}, 1)
 	newl[0] = data
 	p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
-- 
2.43.0


From 4e226839835f59ce8943dd0180bd1575ac230748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 64/86] fix: TMap.Get tells that a boolean key is absent

---
 lib/go/src/thrift/tmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index f2307e7..5b1f779 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -156,7 +156,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
-- 
2.43.0


From e20ab11835835521ab79cb87a4df15a9ede1a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:44 +0000
Subject: [PATCH 65/86] fix: TMap keeps values of the value type

---
 lib/go/src/thrift/tmap.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 5b1f779..d22b04e 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -355,43 +355,43 @@ func (p *tMap) Set(key, value interface{}) {
 			p.b = make(map[bool]interface{})
 		}
 		b := coercedKey.(bool)
-		p.b[b] = value
+		p.b[b] = coercedValue
 	case BYTE:
 		if p.i08 == nil {
 			p.i08 = make(map[byte]interface{})
 		}
 		b := coercedKey.(byte)
-		p.i08[b] = value
+		p.i08[b] = coercedValue
 	case DOUBLE:
 		if p.f64 == nil {
 			p.f64 = make(map[float64]interface{})
 		}
 		b := coercedKey.(float64)
-		p.f64[b] = value
+		p.f64[b] = coercedValue
 	case I16:
 		if p.i16 == nil {
 			p.i16 = make(map[int16]interface{})
 		}
 		b := coercedKey.(int16)
-		p.i16[b] = value
+		p.i16[b] = coercedValue
 	case I32:
 		if p.i32 == nil {
 			p.i32 = make(map[int32]interface{})
 		}
 		b := coercedKey.(int32)
-		p.i32[b] = value
+		p.i32[b] = coercedValue
 	case I64:
 		if p.i64 == nil {
 			p.i64 = make(map[int64]interface{})
 		}
 		b := coercedKey.(int64)
-		p.i64[b] = value
+		p.i64[b] = coercedValue
 	case STRING, UTF8, UTF16:
 		if p.s == nil {
 			p.s = make(map[string]interface{})
 		}
 		b := coercedKey.(string)
-		p.s[b] = value
+		p.s[b] = coercedValue
 	case BINARY, STRUCT, MAP, SET, LIST:
 		panic("Should never be here because type is " + p.KeyType().String())
 	default:
-- 
2.43.0


From 536ccb11872a80fafd35ce0735eee0eb313ad3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:46 +0000
Subject: [PATCH 66/86] fix: TMap iterates over keys that are maps

---
 lib/go/src/thrift/tmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index d22b04e..1ad8e73 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -604,7 +604,7 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, LIST, SET, MAP:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
@@ -661,7 +661,7 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, LIST, SET, MAP:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
@@ -717,7 +717,7 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, LIST, SET, MAP:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
-- 
2.43.0


From dc13ca704da54407dd6e0e302c0f18a397c7b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:48 +0000
Subject: [PATCH 67/86] fix: an empty TMap has length 0

---
 lib/go/src/thrift/tmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 1ad8e73..54e3b01 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -120,9 +120,9 @@ func (p *tMap) Len() int {
 	case STRING, UTF8, UTF16:
 		return len(p.s)
 	default:
-		return p.size
+		return p.l.Len()
 	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
-- 
2.43.0


From 916e9c55e7f764db28488e66de1352351e8e2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:50 +0000
Subject: [PATCH 68/86] fix: the keys and values of a TMap have one order, so
 equal maps compare equal

---
 lib/go/src/thrift/tmap.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 54e3b01..b47b42a 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -23,6 +23,7 @@ import (
 	"bytes"
 	"container/list"
 	"reflect"
+	"sort"
 )
 
 /**
@@ -747,24 +748,33 @@ func (p *tMap) CompareTo(other interface{}) (int, bool) {
 	return TType(MAP).Compare(p, other)
 }
 
+// entries returns the entries in the order of their keys, so that it
+// does not depend on the order in which Go iterates over a map.
+func (p *tMap) entries() []TMapElem {
+	elems := make([]TMapElem, 0, p.Len())
+	for e := range p.Iter() {
+		elems = append(elems, e)
+	}
+	sort.SliceStable(elems, func(i, j int) bool {
+		return p.KeyType().Less(elems[i].Key(), elems[j].Key())
+	})
+	return elems
+}
+
 func (p *tMap) Keys() []interface{} {
-	size := p.Len()
-	values := make([]interface{}, size, size)
-	i := 0
-	for k := range p.KeyIter() {
-		values[i] = k
-		i++
+	elems := p.entries()
+	keys := make([]interface{}, len(elems))
+	for i, e := range elems {
+		keys[i] = e.Key()
 	}
-	return values
+	return keys
 }
 
 func (p *tMap) Values() []interface{} {
-	size := p.Len()
-	values := make([]interface{}, size, size)
-	i := 0
-	for v := range p.ValueIter() {
-		values[i] = v
-		i++
+	elems := p.entries()
+	values := make([]interface{}, len(elems))
+	for i, e := range elems {
+		values[i] = e.Value()
 	}
 	return values
 }
-- 
2.43.0


From 56319f23decb2e1ac8947c1271e6dc4353607cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:47 +0000
Subject: [PATCH 69/86] fix: comparing fields with different ids gives an order

---
 lib/go/src/thrift/tfield.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 72aaf50..a19df93 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -253,8 +253,9 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 		if cmp := CompareInt(p.Len(), data.Len()); cmp != 0 {
 			return cmp, true
 		}
-		for _, field := range p.fields {
-			if cmp, ok3 := field.CompareTo(data.At(field.Id())); !ok3 || cmp != 0 {
+		others := fieldsById(data)
+		for i, field := range fieldsById(p) {
+			if cmp, ok3 := field.CompareTo(others[i]); !ok3 || cmp != 0 {
 				return cmp, ok3
 			}
 		}
@@ -263,6 +264,16 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 	return 0, false
 }
 
+// fieldsById returns the fields of a container sorted by their ids.
+func fieldsById(c TFieldContainer) []TField {
+	fields := make([]TField, 0, c.Len())
+	for field := range c.Iter() {
+		fields = append(fields, field)
+	}
+	sort.Sort(tFieldArray(fields))
+	return fields
+}
+
 func (p *tFieldContainer) Iter() <-chan TField {
 	c := make(chan TField)
 	go p.iterate(c)
-- 
2.43.0


From 5091db2d33f02c4cf4f6805cec9c430d310ce2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 70/86] fix: the text of fields and messages has their numbers
 in decimal

---
 lib/go/src/thrift/tfield.go   | 3 ++-
 lib/go/src/thrift/tmessage.go | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index a19df93..c6e0254 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"sort"
+	"strconv"
 )
 
 /**
@@ -75,7 +76,7 @@ func (p *tField) String() string {
 	if p == nil {
 		return "<nil>"
 	}
-	return "<TField name:'" + p.name + "' type:" + string(p.typeId) + " field-id:" + string(p.id) + ">"
+	return "<TField name:'" + p.name + "' type:" + p.typeId.String() + " field-id:" + strconv.Itoa(p.id) + ">"
 }
 
 func (p *tField) CompareTo(other interface{}) (int, bool) {
diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index caca516..02c3337 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 /**
  * Helper class that encapsulates struct metadata.
  *
@@ -56,7 +60,7 @@ func (p *tMessage) SeqId() int {
 }
 
 func (p *tMessage) String() string {
-	return "<TMessage name:'" + p.name + "' type: " + string(p.typeId) + " seqid:" + string(p.seqid) + ">"
+	return "<TMessage name:'" + p.name + "' type: " + strconv.Itoa(int(p.typeId)) + " seqid:" + strconv.Itoa(p.seqid) + ">"
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
-- 
2.43.0


From 5f04da2d41adf7c347ad522a1ca8f2f44ddfb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 71/86] fix: a TType equals its code in every kind of integer

---
 lib/go/src/thrift/ttype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 5e335ac..ae70484 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -231,12 +231,16 @@ func (p TType) Coerce(other interface{}) TType {
 		return TType(byte(b))
 	case int8:
 		return TType(byte(b))
+	case int16:
+		return TType(byte(b))
 	case int32:
 		return TType(byte(b))
 	case int64:
 		return TType(byte(b))
 	case uint:
 		return TType(byte(b))
+	case uint16:
+		return TType(byte(b))
 	case uint32:
 		return TType(byte(b))
 	case uint64:
-- 
2.43.0


From c8cb10ffac104e733e73366bd6151fca4d3d2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 72/86] fix: emitted packages compile when nothing uses an
 import or the client

---
 compiler/cpp/src/generate/t_go_generator.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index eafbb71..877685e 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -546,7 +546,9 @@ string t_go_generator::go_imports()
                "func init() {\n"
                "\tvar temporaryAndUnused int32 = math.MinInt32\n"
                "\ttemporaryAndUnused++\n"
-               "}\n\n");
+               "}\n\n"
+               "var _ = fmt.Sprint\n"
+               "var _ thrift.TType\n\n");
 }
 
 /**
@@ -1822,6 +1824,9 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "        \"" << service_module << "\"" << endl <<
              indent() << ")" << endl <<
              indent() << endl <<
+             indent() << "var _ = math.MinInt32" << endl <<
+             indent() << "var _ = strconv.Atoi" << endl <<
+             indent() << endl <<
              indent() << "func Usage() {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Usage of \", os.Args[0], \" [-h host:port] [-u url] [-f[ramed]] function [arg1 [arg2...]]:\\n\")" << endl <<
              indent() << "  flag.PrintDefaults()" << endl <<
@@ -1927,7 +1932,13 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "  fmt.Fprint(os.Stderr, \"Error opening socket to \", host, \":\", port, \" \", err.Error())" << endl <<
              indent() << "  os.Exit(1)" << endl <<
              indent() << "}" << endl <<
-             indent() << endl <<
+             indent() << endl;
+
+    if (functions.empty()) {
+        f_remote << indent() << "_ = client" << endl;
+    }
+
+    f_remote <<
              indent() << "switch cmd {" << endl;
 
     for (f_iter = functions.begin(); f_iter != functions.end(); ++f_iter) {
-- 
2.43.0


From cca160d8a2e945d0fae9e81ae6ae512728d6a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 73/86] fix: a binary constant is emitted as a variable

---
 compiler/cpp/src/generate/t_go_generator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 877685e..3ed7c96 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -659,7 +659,10 @@ void t_go_generator::generate_const(t_const* tconst)
     string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
     t_const_value* value = tconst->get_value();
 
-    if (type->is_base_type() || type->is_enum()) {
+    t_type* true_type = get_true_type(type);
+    bool is_binary = true_type->is_base_type() && ((t_base_type*)true_type)->is_binary();
+
+    if ((type->is_base_type() && !is_binary) || type->is_enum()) {
         indent(f_types_) << "const " << name << " = " << render_const_value(type, value, name) << endl;
     } else {
         f_types_ <<
-- 
2.43.0


From ecc5fd312ba16b66a952aa395d3d27fa1f72ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 74/86] fix: the default values of containers and structs are
 built in their field

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 3ed7c96..aaa2be9 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -958,7 +958,7 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const bool type_is_enum = type->is_enum();
 
         if (has_default_value) {
-            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, base_field_name) << endl;
+            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, full_field_name) << endl;
         } else if (type_is_enum) {
             out << indent() << full_field_name << " = math.MinInt32 - 1" << endl;
         }
-- 
2.43.0


From 0131da2071714e6e2a2ea3849eb04bd68f64bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 75/86] fix: fields without ids are emitted as valid Go

---
 compiler/cpp/src/generate/t_go_generator.cc | 43 ++++++++++++++-------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index aaa2be9..01cabbe 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -242,6 +242,7 @@ private:
     static std::string publicize(const std::string& value);
     static std::string privatize(const std::string& value);
     static std::string variable_name_to_go_name(const std::string& value);
+    static std::string field_id_to_go_name(int32_t field_id);
     static bool can_be_nil(t_type* value);
 
 };
@@ -291,6 +292,22 @@ std::string t_go_generator::privatize(const std::string& value)
     return value2;
 }
 
+/**
+ * Names the id of a field so that it can be part of a Go identifier
+ */
+std::string t_go_generator::field_id_to_go_name(int32_t field_id)
+{
+    std::ostringstream name;
+
+    if (field_id < 0) {
+        name << "_" << -field_id;
+    } else {
+        name << field_id;
+    }
+
+    return name.str();
+}
+
 std::string t_go_generator::variable_name_to_go_name(const std::string& value)
 {
     if (value.size() <= 0) {
@@ -918,8 +935,8 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         for (m_iter = members.begin(); m_iter != members.end(); ++m_iter) {
             // This fills in default values, as opposed to nulls
             out <<
-                indent() << publicize((*m_iter)->get_name()) << " " <<
-                type_to_enum((*m_iter)->get_type()) << endl;
+                indent() << publicize(variable_name_to_go_name((*m_iter)->get_name())) << " " <<
+                type_to_go_type((*m_iter)->get_type()) << endl;
         }
     }
 
@@ -1206,13 +1223,13 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else if fieldTypeId == thrift.VOID {" << endl <<
             indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "}" << endl;
         indent_down();
@@ -1250,7 +1267,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         string field_name(publicize((*f_iter)->get_name()));
         int32_t field_id = (*f_iter)->get_key();
         out <<
-            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id_to_go_name(field_id) << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
         generate_deserialize_field(out, *f_iter, false, "p.");
         indent_down();
@@ -1258,7 +1275,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") ReadField" << field_name << "(iprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  return p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -1297,13 +1314,13 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             if (can_be_nil((*fr_iter)->get_type()) && fieldId != 0) {
                 out <<
                     indent() << "case p." << publicize(variable_name_to_go_name(field_name)) << " != nil:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             } else {
                 out <<
                     indent() << "default:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             }
@@ -1317,7 +1334,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name = escape_string(field_name);
             fieldId = (*f_iter)->get_key();
             out <<
-                indent() << "err = p.WriteField" << fieldId << "(oprot)" << endl <<
+                indent() << "err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot)" << endl <<
                 indent() << "if err != nil { return err }" << endl;
         }
     }
@@ -1342,7 +1359,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
         field_required = (*f_iter)->get_req();
         field_can_be_nil = can_be_nil((*f_iter)->get_type());
         out <<
-            indent() << "func (p *" << tstruct_name << ") WriteField" << fieldId << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") WriteField" << field_id_to_go_name(fieldId) << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
 
         // Write field header
@@ -1394,7 +1411,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") WriteField" << publicize(field_name) << "(oprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.WriteField" << fieldId << "(oprot)" << endl <<
+            indent() << "  return p.WriteField" << field_id_to_go_name(fieldId) << "(oprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -2088,8 +2105,8 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << (i + 1) << "(" << jsProt << ")" << endl <<
+                         indent() << "containerStruct" << i << " := " << package_name_ << ".New" << publicize(funcName + "_args") << "()" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << field_id_to_go_name(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
-- 
2.43.0


From bde58ec9f6352ee9d00622d89428e3811428d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 76/86] fix: a service extending one of the same program
 compiles

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 01cabbe..91f4661 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1427,14 +1427,16 @@ void t_go_generator::generate_service(t_service* tservice)
     f_service_.open(f_service_name.c_str());
     f_service_ <<
                go_autogen_comment() <<
-               go_package() <<
-               go_imports();
+               go_package();
 
-    if (tservice->get_extends() != NULL) {
+    if (tservice->get_extends() != NULL && tservice->get_extends()->get_program() != program_) {
         f_service_ <<
                    "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
     }
 
+    f_service_ <<
+               go_imports();
+
     f_service_ <<
                //             "import (" << endl <<
                // indent() << "        \"os\"" << endl <<
@@ -3217,7 +3219,7 @@ string t_go_generator::type_name(t_type* ttype)
 {
     t_program* program = ttype->get_program();
 
-    if (ttype->is_service()) {
+    if (ttype->is_service() && program != program_) {
         return get_real_go_module(program) + "." + ttype->get_name();
     }
 
-- 
2.43.0


From 83ec3c96a2035677132130f20cc75a2b14cf1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 77/86] fix: emitted code names arguments, results and
 exceptions as they are declared

---
 compiler/cpp/src/generate/t_go_generator.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 91f4661..a29870d 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1696,7 +1696,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl <<
                    indent() << "func (p *" << serviceName << "Client) Send" << function_signature(*f_iter) << "(err error) {" << endl;
         indent_up();
-        std::string argsname = privatize((*f_iter)->get_name()) + "Args";
+        std::string argsname = publicize((*f_iter)->get_name() + "_args");
         // Serialize the request header
         string args(tmp("args"));
         f_service_ <<
@@ -1707,7 +1707,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
                    indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
-                   indent() << args << " := New" << publicize(argsname) << "()" << endl;
+                   indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
@@ -1725,7 +1725,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl;
 
         if (true) { //!(*f_iter)->is_oneway() || true) {}
-            std::string resultname = privatize((*f_iter)->get_name()) + "Result";
+            std::string resultname = publicize((*f_iter)->get_name() + "_result");
             // Open function
             f_service_ << endl <<
                        indent() << "func (p *" << serviceName << "Client) Recv" << publicize((*f_iter)->get_name()) <<
@@ -1777,7 +1777,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"ping failed: out of sequence response\")" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
-                       indent() << result << " := New" << publicize(resultname) << "()" << endl <<
+                       indent() << result << " := New" << resultname << "()" << endl <<
                        indent() << "err = " << result << ".Read(iprot)" << endl <<
                        indent() << "iprot.ReadMessageEnd()" << endl;
 
@@ -1793,8 +1793,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
-                           indent() << "if " << result << "." << publicize((*x_iter)->get_name()) << " != nil {" << endl <<
-                           indent() << "  " << (*x_iter)->get_name() << " = " << result << "." << publicize((*x_iter)->get_name()) << endl <<
+                           indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
+                           indent() << "  " << variable_name_to_go_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
@@ -2095,7 +2095,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string argName(publicize(args[i]->get_name()));
+                std::string argName(publicize(variable_name_to_go_name(args[i]->get_name())));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2236,7 +2236,7 @@ void t_go_generator::generate_service_server(t_service* tservice)
         }
     }
 
-    string pServiceName(privatize(serviceName));
+    string pServiceName(privatize(tservice->get_name()));
     // Generate the header portion
     string self(tmp("self"));
 
@@ -2340,8 +2340,8 @@ void t_go_generator::generate_process_function(t_service* tservice,
 {
     // Open function
     string processorName = privatize(tservice->get_name()) + "Processor" + publicize(tfunction->get_name());
-    string argsname = publicize(tfunction->get_name()) + "Args";
-    string resultname = publicize(tfunction->get_name()) + "Result";
+    string argsname = publicize(tfunction->get_name() + "_args");
+    string resultname = publicize(tfunction->get_name() + "_result");
     //t_struct* xs = tfunction->get_xceptions();
     //const std::vector<t_field*>& xceptions = xs->get_members();
     vector<t_field*>::const_iterator x_iter;
-- 
2.43.0


From d12cb56ff17762807929edff3b73d3d6ce2b4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 78/86] fix: the emitted command converts i16 and binary
 arguments to their types

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index a29870d..49d1f00 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2002,7 +2002,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_STRING:
                     f_remote <<
-                             indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                             indent() << "argvalue" << i << " := " << type_to_go_type(the_type2) << "(flag.Arg(" << flagArg << "))" << endl;
                     break;
 
                 case t_base_type::TYPE_BOOL:
@@ -2027,7 +2027,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
-                             indent() << "argvalue" << i << " := byte(tmp" << i << ")" << endl;
+                             indent() << "argvalue" << i << " := int16(tmp" << i << ")" << endl;
                     break;
 
                 case t_base_type::TYPE_I32:
-- 
2.43.0


From 9f1cb51f032b2d846b48b63702f30798d28aacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 79/86] fix: a typedef of a struct is emitted as the struct

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 49d1f00..417299b 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2070,7 +2070,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string tstruct_name(publicize(the_type->get_name()));
+                std::string tstruct_name(publicize(the_type2->get_name()));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -3343,6 +3343,13 @@ string t_go_generator::type_to_go_type(t_type* type)
         //string elemType = type_to_go_type(t->get_elem_type());
         //return string("[]") + elemType;
     } else if (type->is_typedef()) {
+        t_type* true_type = get_true_type(type);
+
+        if (true_type->is_struct() || true_type->is_xception()) {
+            // a Go type defined as a pointer has none of the methods of the struct
+            return type_to_go_type(true_type);
+        }
+
         return publicize(((t_typedef*)type)->get_symbolic());
     }
 
-- 
2.43.0


From e5f0e55e3be88f438a7c108d6d5d4e9aaaa93e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:44 +0000
Subject: [PATCH 80/86] fix: emitted code writes and reads containers of enums
 and typedefs

---
 compiler/cpp/src/generate/t_go_generator.cc | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 417299b..18dfd10 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -213,6 +213,7 @@ public:
     std::string argument_list(t_struct* tstruct);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
+    std::string type_to_go_element_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
 
     static std::string get_real_go_module(const t_program* program) {
@@ -2576,11 +2577,8 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
             "\", " << structName << ", " << err2 << "); }" << endl;
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
-            if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
-            } else {
-                indent(out) << name << " := " << v << endl;
-            }
+            // an element of a container, which has no enums or typedefs
+            indent(out) << name << " := " << v << endl;
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
                 indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
@@ -2926,7 +2924,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         t_map* tmap = (t_map*)ttype;
         out <<
             indent() << "for " << miter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_type(tmap->get_val_type()) << ")" << endl;
+            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_element_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_element_type(tmap->get_val_type()) << ")" << endl;
         indent_up();
         generate_serialize_map_element(out, tmap, kiter, viter);
         indent_down();
@@ -2937,7 +2935,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := " << prefix << ".Front(); " << iter << " != nil; " << iter << " = " << iter << ".Next() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_type(tset->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_element_type(tset->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_set_element(out, tset, iter2);
         indent_down();
@@ -2948,7 +2946,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_type(tlist->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_element_type(tlist->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_list_element(out, tlist, iter2);
         indent_down();
@@ -3357,6 +3355,21 @@ string t_go_generator::type_to_go_type(t_type* type)
 }
 
 
+/**
+ * Converts the parse type to the go type its values have in a container
+ */
+string t_go_generator::type_to_go_element_type(t_type* type)
+{
+    type = get_true_type(type);
+
+    if (type->is_enum()) {
+        return "int32";
+    }
+
+    return type_to_go_type(type);
+}
+
+
 /**
  * Converts the parse type to a go tyoe
  */
-- 
2.43.0


From e4a589231af91f0dda8c8faa9a7ed9c495ac5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:45 +0000
Subject: [PATCH 81/86] fix: emitted readers make containers of the declared
 element types

---
 compiler/cpp/src/generate/t_go_generator.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 18dfd10..6646e31 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2626,13 +2626,7 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
         string err)
 {
     string size = tmp("_size");
-    string ktype = tmp("_ktype");
-    string vtype = tmp("_vtype");
-    string etype = tmp("_etype");
     t_field fsize(g_type_i32, size);
-    t_field fktype(g_type_byte, ktype);
-    t_field fvtype(g_type_byte, vtype);
-    t_field fetype(g_type_byte, etype);
     string eq(" = ");
 
     if (declare) {
@@ -2642,34 +2636,34 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
     // Declare variables, read header
     if (ttype->is_map()) {
         out <<
-            indent() << ktype << ", " << vtype << ", " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
+            indent() << "_, _, " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTMap(" << ktype << ", " << vtype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTMap(" << type_to_enum(((t_map*)ttype)->get_key_type()) << ", " << type_to_enum(((t_map*)ttype)->get_val_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_set()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTSet(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTSet(" << type_to_enum(((t_set*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_list()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTList(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTList(" << type_to_enum(((t_list*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else {
         throw "INVALID TYPE IN generate_deserialize_container '" + ttype->get_name() + "' for prefix '" + prefix + "'";
     }
-- 
2.43.0


From 52fa489a0dcbdf7b84a2007ecd874124191aee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:04 +0000
Subject: [PATCH 82/86] fix: double constants and defaults keep all their
 digits

---
 compiler/cpp/src/generate/t_go_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 6646e31..0af5b72 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -728,6 +728,7 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             if (value->get_type() == t_const_value::CV_INTEGER) {
                 out << value->get_integer();
             } else {
+                out.precision(17);
                 out << value->get_double();
             }
 
@@ -1085,7 +1086,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
             indent_up();
             string s_check_value;
             int64_t i_check_value;
-            double d_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1120,9 +1120,9 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                     break;
 
                 case t_base_type::TYPE_DOUBLE:
-                    d_check_value = (field_default_value == NULL) ? 0.0 : field_default_value->get_double();
+                    s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-                        indent() << "return p." << field_name << " != " << d_check_value << endl;
+                        indent() << "return p." << field_name << " != " << s_check_value << endl;
                     break;
 
                 default:
-- 
2.43.0


From 77b2f8259458dc2c2d3b2f1670b599de6c4ca5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:31 +0000
Subject: [PATCH 83/86] fix: an enum with two names for a value compiles

---
 compiler/cpp/src/generate/t_go_generator.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 0af5b72..d1c3399 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -623,6 +623,7 @@ void t_go_generator::generate_enum(t_enum* tenum)
                         indent() << "  switch s {" << endl;
     vector<t_enum_value*> constants = tenum->get_constants();
     vector<t_enum_value*>::iterator c_iter;
+    vector<int> values;
     int value = -1;
 
     for (c_iter = constants.begin(); c_iter != constants.end(); ++c_iter) {
@@ -636,9 +637,20 @@ void t_go_generator::generate_enum(t_enum* tenum)
         string iter_name((*c_iter)->get_name());
         f_types_ <<
                  indent() << "  " << tenum_name << "_" << iter_name << ' ' << tenum_name << " = " << value << endl;
-        // Dictionaries to/from string names of enums
-        to_string_mapping <<
-                          indent() << "  case " << tenum_name << "_" << iter_name << ": return \"" << tenum_name << "_" << iter_std_name << "\"" << endl;
+        // Dictionaries to/from string names of enums; a value goes by the first of its names
+        bool named = false;
+
+        for (vector<int>::iterator v_iter = values.begin(); v_iter != values.end(); ++v_iter) {
+            if (*v_iter == value) {
+                named = true;
+            }
+        }
+
+        if (!named) {
+            values.push_back(value);
+            to_string_mapping <<
+                              indent() << "  case " << tenum_name << "_" << iter_name << ": return \"" << tenum_name << "_" << iter_std_name << "\"" << endl;
+        }
 
         if (iter_std_name != escape_string(iter_name)) {
             from_string_mapping <<
-- 
2.43.0


From f24aa6eafe6d98a14f6fd50a337f9f0e8cb164b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:19 +0000
Subject: [PATCH 84/86] fix: a client made from its protocols can send

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d1c3399..219adc1 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1714,7 +1714,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
         string args(tmp("args"));
         f_service_ <<
                    indent() << "oprot := p.OutputProtocol" << endl <<
-                   indent() << "if oprot != nil {" << endl <<
+                   indent() << "if oprot == nil {" << endl <<
                    indent() << "  oprot = p.ProtocolFactory.GetProtocol(p.Transport)" << endl <<
                    indent() << "  p.OutputProtocol = oprot" << endl <<
                    indent() << "}" << endl <<
-- 
2.43.0


From 87f46bc0b2805faee3e7ddcade1c24b351a81f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:20 +0000
Subject: [PATCH 85/86] fix: the emitted client and processor report errors of
 sending and receiving

---
 compiler/cpp/src/generate/t_go_generator.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 219adc1..93d802a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1719,7 +1719,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "  p.OutputProtocol = oprot" << endl <<
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
-                   indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
+                   indent() << "if err = oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId); err != nil { return }" << endl <<
                    indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
@@ -1729,9 +1729,9 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
         // Write to the stream
         f_service_ <<
-                   indent() << "err = " << args << ".Write(oprot)" << endl <<
-                   indent() << "oprot.WriteMessageEnd()" << endl <<
-                   indent() << "oprot.Transport().Flush()" << endl <<
+                   indent() << "if err = " << args << ".Write(oprot); err != nil { return }" << endl <<
+                   indent() << "if err = oprot.WriteMessageEnd(); err != nil { return }" << endl <<
+                   indent() << "err = oprot.Transport().Flush()" << endl <<
                    indent() << "return" << endl;
         indent_down();
         f_service_ <<
@@ -1791,8 +1791,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
                        indent() << result << " := New" << resultname << "()" << endl <<
-                       indent() << "err = " << result << ".Read(iprot)" << endl <<
-                       indent() << "iprot.ReadMessageEnd()" << endl;
+                       indent() << "if err = " << result << ".Read(iprot); err != nil { return }" << endl <<
+                       indent() << "if err = iprot.ReadMessageEnd(); err != nil { return }" << endl;
 
             // Careful, only return _result if not a void function
             if (!(*f_iter)->get_returntype()->is_void()) {
@@ -2366,8 +2366,11 @@ void t_go_generator::generate_process_function(t_service* tservice,
     indent_up();
     f_service_ <<
                indent() << "args := New" << argsname << "()" << endl <<
-               indent() << "if err = args.Read(iprot); err != nil {" << endl <<
-               indent() << "  iprot.ReadMessageEnd()" << endl <<
+               indent() << "err = args.Read(iprot)" << endl <<
+               indent() << "if err2 := iprot.ReadMessageEnd(); err == nil && err2 != nil {" << endl <<
+               indent() << "  err = err2" << endl <<
+               indent() << "}" << endl <<
+               indent() << "if err != nil {" << endl <<
                indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
                indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
                indent() << "  x.Write(oprot)" << endl <<
@@ -2375,7 +2378,6 @@ void t_go_generator::generate_process_function(t_service* tservice,
                indent() << "  oprot.Transport().Flush()" << endl <<
                indent() << "  return" << endl <<
                indent() << "}" << endl <<
-               indent() << "iprot.ReadMessageEnd()" << endl <<
                indent() << "result := New" << resultname << "()" << endl <<
                indent() << "if ";
 
-- 
2.43.0


From cf6f566f8797ccb4fc8311f844528c265774f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:20 +0000
Subject: [PATCH 86/86] fix: no reply to a oneway call

---
 compiler/cpp/src/generate/t_go_generator.cc | 85 +++++++++++++--------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 93d802a..b724bef 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2370,15 +2370,27 @@ void t_go_generator::generate_process_function(t_service* tservice,
                indent() << "if err2 := iprot.ReadMessageEnd(); err == nil && err2 != nil {" << endl <<
                indent() << "  err = err2" << endl <<
                indent() << "}" << endl <<
-               indent() << "if err != nil {" << endl <<
-               indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
-               indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-               indent() << "  x.Write(oprot)" << endl <<
-               indent() << "  oprot.WriteMessageEnd()" << endl <<
-               indent() << "  oprot.Transport().Flush()" << endl <<
+               indent() << "if err != nil {" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
+                   indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
+                   indent() << "  x.Write(oprot)" << endl <<
+                   indent() << "  oprot.WriteMessageEnd()" << endl <<
+                   indent() << "  oprot.Transport().Flush()" << endl;
+    }
+
+    f_service_ <<
                indent() << "  return" << endl <<
-               indent() << "}" << endl <<
-               indent() << "result := New" << resultname << "()" << endl <<
+               indent() << "}" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "result := New" << resultname << "()" << endl;
+    }
+
+    f_service_ <<
                indent() << "if ";
 
     if (!tfunction->is_oneway()) {
@@ -2413,29 +2425,42 @@ void t_go_generator::generate_process_function(t_service* tservice,
         f_service_ << "args." << publicize(variable_name_to_go_name((*f_iter)->get_name()));
     }
 
-    f_service_ << "); err != nil {" << endl <<
-               indent() << "  x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, \"Internal error processing " << escape_string(tfunction->get_name()) << ": \" + err.Error())" << endl <<
-               indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-               indent() << "  x.Write(oprot)" << endl <<
-               indent() << "  oprot.WriteMessageEnd()" << endl <<
-               indent() << "  oprot.Transport().Flush()" << endl <<
-               indent() << "  return" << endl <<
-               indent() << "}" << endl <<
-               indent() << "if err2 := oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.REPLY, seqId); err2 != nil {" << endl <<
-               indent() << "  err = err2" << endl <<
-               indent() << "}" << endl <<
-               indent() << "if err2 := result.Write(oprot); err == nil && err2 != nil {" << endl <<
-               indent() << "  err = err2" << endl <<
-               indent() << "}" << endl <<
-               indent() << "if err2 := oprot.WriteMessageEnd(); err == nil && err2 != nil {" << endl <<
-               indent() << "  err = err2" << endl <<
-               indent() << "}" << endl <<
-               indent() << "if err2 := oprot.Transport().Flush(); err == nil && err2 != nil {" << endl <<
-               indent() << "  err = err2" << endl <<
-               indent() << "}" << endl <<
-               indent() << "if err != nil {" << endl <<
+    f_service_ << "); err != nil {" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "  x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, \"Internal error processing " << escape_string(tfunction->get_name()) << ": \" + err.Error())" << endl <<
+                   indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
+                   indent() << "  x.Write(oprot)" << endl <<
+                   indent() << "  oprot.WriteMessageEnd()" << endl <<
+                   indent() << "  oprot.Transport().Flush()" << endl;
+    }
+
+    f_service_ <<
                indent() << "  return" << endl <<
-               indent() << "}" << endl <<
+               indent() << "}" << endl;
+
+    // nobody waits for a reply to a oneway call
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "if err2 := oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.REPLY, seqId); err2 != nil {" << endl <<
+                   indent() << "  err = err2" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "if err2 := result.Write(oprot); err == nil && err2 != nil {" << endl <<
+                   indent() << "  err = err2" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "if err2 := oprot.WriteMessageEnd(); err == nil && err2 != nil {" << endl <<
+                   indent() << "  err = err2" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "if err2 := oprot.Transport().Flush(); err == nil && err2 != nil {" << endl <<
+                   indent() << "  err = err2" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "if err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl;
+    }
+
+    f_service_ <<
                indent() << "return true, err" << endl;
     indent_down();
     f_service_ <<
-- 
2.43.0

