From dd5e1aa1c48e6a776ba1f947a48fd7273ae1ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 01/51] fix: limit variable byte integers to four bytes when
 reading and writing

---
 mqtt/packets/primitives/varint.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..c6393fe 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -53,6 +53,11 @@ func (v *VariableByteInt) Length(property bool) (result VariableByteInt) {
 }
 
 func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
+	// SPEC: The encoded value can be at most 268,435,455 [1.5.5 Variable Byte Integer]
+	if *v > 268_435_455 {
+		return 0, errors.New("variable byte integer is out of range")
+	}
+
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
@@ -106,7 +111,10 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 			break
 		}
 
-		mul += 7
+		// SPEC: The maximum number of bytes in the Variable Byte Integer field is four
+		if mul += 7; mul > 21 {
+			return 0, errors.New("malformed variable byte integer")
+		}
 	}
 
 	*v = VariableByteInt(val)
-- 
2.43.0


From c7ae0cb2f9d319cb61c9d8fb7c3beb5fd58b8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 02/51] fix: read fields completely when the connection
 delivers them in fragments

---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 mqtt/packets/publish.go           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index c6393fe..5aea7d7 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -97,7 +97,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..06ba5b5 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,7 +187,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From a868861b9c90fac07916048e1cc2a506023933e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 03/51] fix: refuse to encode strings longer than 65535 bytes

---
 mqtt/packets/primitives/string.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..af617db 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,18 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// SPEC: The maximum size of a UTF-8 Encoded String is 65,535 bytes [1.5.4 UTF-8 Encoded String]
+	if len(*p) > 65_535 {
+		return 0, errors.New("string is too long")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From 04d11b083c12b40ddf516e25241cee733e26caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 04/51] fix: count the identifier byte of string properties

---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index af617db..17ef5f5 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -58,11 +58,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From d371e3780262b9653d3dc8be1d6a761befb91114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 05/51] fix: compute the CONNECT remaining length and will
 property length correctly

---
 mqtt/packets/connect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..faa123d 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,9 +145,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		// The payload format indicator is always sent
+		willPropertiesLen += 2
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,9 +174,9 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
-- 
2.43.0


From e989a4e5dc5c4d07c70deda146153910e000ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 06/51] fix: use the property identifiers the standard assigns
 in CONNECT

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index faa123d..8837217 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -241,7 +241,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -255,7 +255,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -323,7 +323,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From c6060ffc4d02a3256f0b548ae9be20253cd518f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 07/51] fix: write the reason code and the property length of
 AUTH packets

---
 mqtt/packets/auth.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..349770d 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -115,20 +115,12 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate remaining length
-	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
-	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
-	}
 
-	if len(a.AuthenticationData) > 0 {
-		l := primitives.VariableByteInt(len(a.AuthenticationData))
-		propertiesLen += 3 + l
+		// The authentication data is only written along with the authentication method
+		propertiesLen += a.AuthenticationData.Length(true)
 	}
 
 	if len(a.ReasonString) > 0 {
@@ -140,7 +132,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -150,7 +146,22 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if variableHeaderLen == 0 {
+		return
+	}
+
+	// Write the reason code
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
-- 
2.43.0


From 605601fae5855bd7622e656377d12c7928db9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 08/51] fix: count and write every property of DISCONNECT
 packets

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..489d11f 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -109,7 +109,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := d.ReasonCode.Length(false)
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -117,6 +117,10 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.SessionExpiryInterval.Length(true)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	for k, v := range d.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
@@ -125,7 +129,7 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -181,6 +185,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From fa4e9db06e339a0cf1b37d57d7958257cf924890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 09/51] fix: accept DISCONNECT and AUTH packets with a
 remaining length of zero

---
 mqtt/packets/auth.go       | 6 ++++++
 mqtt/packets/disconnect.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 349770d..8e3a6b7 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,12 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 489d11f..c687fae 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,12 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnection) and
+	//       there are no Properties. In this case the DISCONNECT has a Remaining Length of 0.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
-- 
2.43.0


From 637f01d28c219689a82e32e0e2bf6fc3c37400ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 10/51] fix: do not add the remaining length to the bytes read
 from a CONNACK

---
 mqtt/packets/connack.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..45f0716 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -190,7 +190,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
-	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
 }
-- 
2.43.0


From e70231badf9e6dfb3bf94c87c462aecf4241e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 11/51] fix: account for the real size of the fixed header a
 PUBLISH reads itself

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 06ba5b5..94b84d5 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -95,7 +95,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
-- 
2.43.0


From ee25b348837b51e0a40ed77ad0e263f493424cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 12/51] fix: write into the remainder of the PUBLISH payload
 instead of its beginning

---
 mqtt/packets/publish.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 94b84d5..bd42d0b 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,9 +63,13 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
+	if n < len(buf) {
+		err = io.ErrShortWrite
+	}
+
 	return
 }
 
-- 
2.43.0


From 9aa1ac937dde82b584f85eb54e28b5376a548bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 13/51] fix: decide the no local option of short and of shared
 topic filters correctly

---
 mqtt/packets/topic.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..91cff58 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -24,7 +24,11 @@
 
 package packets
 
-import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+import (
+	"strings"
+
+	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+)
 
 type Topic struct {
 	filter  primitives.PrimitiveString
@@ -44,22 +48,26 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	t.filter = primitives.PrimitiveString(filter)
+	if t.isShared() {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
 	}
-	t.filter = primitives.PrimitiveString(filter)
 	return t
 }
 
+func (t *Topic) isShared() bool {
+	return strings.HasPrefix(string(t.filter), "$share/")
+}
+
 func (t *Topic) SetNoLocal(on bool) *Topic {
 	// Set bit 2
 	t.options &= ^primitives.PrimitiveByte(1 << 2)
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !t.isShared() {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From 223faebd6df2a3ffd5097c4df0490b06483615ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 14/51] fix: keep decoders within the control packet and refuse
 malformed packets

---
 mqtt/packets/auth.go       | 15 +++++++++++----
 mqtt/packets/connack.go    | 19 +++++++++++--------
 mqtt/packets/disconnect.go | 11 +++++++++++
 mqtt/packets/packet.go     | 14 ++++++++++++++
 mqtt/packets/puback.go     | 11 +++++++++++
 mqtt/packets/publish.go    | 20 ++++++++++++++++----
 mqtt/packets/suback.go     | 19 +++++++++++--------
 mqtt/packets/unsuback.go   | 19 +++++++++++--------
 8 files changed, 96 insertions(+), 32 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 8e3a6b7..049c973 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,10 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := a.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the AUTH has a Remaining Length of 0.
 	if a.Header.Remaining == 0 {
@@ -66,10 +70,6 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -108,11 +108,18 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 45f0716..5faab2e 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -59,6 +59,10 @@ type Connack struct {
 func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := c.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	/* Variable header begin */
 	// Connect acknowledgement flags
 	if count, err = c.Flags.ReadFrom(r); err != nil {
@@ -68,10 +72,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
 	}
@@ -90,10 +90,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 
 	for remaining > 0 {
@@ -185,11 +181,18 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	/* Properties end */
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index c687fae..77e0009 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,10 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := d.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnection) and
 	//       there are no Properties. In this case the DISCONNECT has a Remaining Length of 0.
 	if d.Header.Remaining == 0 {
@@ -104,10 +108,17 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
diff --git a/mqtt/packets/packet.go b/mqtt/packets/packet.go
index a660299..902dbdb 100644
--- a/mqtt/packets/packet.go
+++ b/mqtt/packets/packet.go
@@ -25,6 +25,7 @@
 package packets
 
 import (
+	"errors"
 	"io"
 
 	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
@@ -146,3 +147,16 @@ func (f *FixedHeader) ReadFrom(r io.Reader) (n int64, err error) {
 
 	return
 }
+
+// limit restricts reading from r to the bytes of the control packet that follow the fixed header.
+func (f *FixedHeader) limit(r io.Reader) *io.LimitedReader {
+	return &io.LimitedReader{R: r, N: int64(f.Remaining)}
+}
+
+// endPacket reports the control packet as malformed if its fields do not end exactly where the control packet ends.
+func endPacket(body *io.LimitedReader, n *int64, err *error) {
+	incomplete := errors.Is(*err, io.EOF) || errors.Is(*err, io.ErrUnexpectedEOF)
+	if (*err == nil && body.N > 0) || (incomplete && body.N <= 0) {
+		*n, *err = 0, ErrControlPacketIsMalformed
+	}
+}
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..3011fe1 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -80,6 +80,10 @@ func (p *Pubcomp) WriteTo(w io.Writer) (n int64, err error) {
 func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := p.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	if n, err = p.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
@@ -133,11 +137,18 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index bd42d0b..422de7b 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -102,11 +102,20 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		offset = count
 	}
 
+	body := p.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	// Parse flags
 	p.Retain = (p.Header.GetFlags() & 0x01) != 0
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
 	p.Duplicate = ((p.Header.GetFlags() >> 3) & 0x01) != 0
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4]
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Read variable header
 	if count, err = p.Topic.ReadFrom(r); err != nil {
 		return 0, err
@@ -127,10 +136,6 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -181,10 +186,17 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..66ae0e2 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -45,14 +45,14 @@ type Suback struct {
 func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := s.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	/* Variable header begin */
 	if n, err = s.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
-
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
 	/* Variable header end */
 
 	/* Properties header start */
@@ -62,10 +62,6 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -96,11 +92,18 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..2cf0b42 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -45,14 +45,14 @@ type Unsuback struct {
 func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := u.Header.limit(r)
+	defer endPacket(body, &n, &err)
+	r = body
+
 	/* Variable header begin */
 	if n, err = u.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
-
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
 	/* Variable header end */
 
 	/* Properties header start */
@@ -62,10 +62,6 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -96,11 +92,18 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property does not end where the properties end
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From 34f530ff1838badc289780d7430c2fcffac94f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 15/51] fix: match topics to filters as the standard says

A filter that is longer than the topic because of a wildcard level was
compared by the wrong position, '+' at the end of a topic matched filters with
further levels, "/#" did not match the parent level and wildcards matched
topics that begin with $.
---
 mqtt/client.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..f872e47 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -32,6 +32,7 @@ import (
 	"math/rand"
 	"net"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -1124,6 +1125,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if strings.HasPrefix(topic, "$") && (strings.HasPrefix(filter, "#") || strings.HasPrefix(filter, "+")) {
+		return false
+	}
+
 	for filterPos < len(filter) {
 		if filter[filterPos] == '#' {
 			// Encountered multi-level wildcard.
@@ -1155,17 +1163,12 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// The topic is used up. Only a multi-level wildcard below its last level can still match.
+			return filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1175,7 +1178,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From 2fd077145f974fcab3cfa10fac881e35e9af496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 16/51] fix: let connected clients, and only those, disconnect

The check was inverted: a connected client could not disconnect, and a client
that was not connected wrote a DISCONNECT packet.
---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index f872e47..a4e81df 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -339,7 +339,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
@@ -396,7 +396,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From 63f6f09ac6d53265dc28cb67a2775efa5a1c4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 17/51] fix: a client that the server disconnected is not
 connected any more

---
 mqtt/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index a4e81df..867fcf2 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1098,6 +1098,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 		// Close the connection
+		c.isConnected = false
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-- 
2.43.0


From c5fde84c0377e91127407019e4e1b9a1ea77b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 18/51] fix: disconnect when the server exceeds the receive
 maximum

Poll already holds the connection lock when it disconnects, so it waited for
itself; afterwards it went on to acknowledge and deliver the message.
---
 mqtt/client.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 867fcf2..c8e9053 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -395,6 +395,8 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
+// disconnectWithReason sends the DISCONNECT packet with the specified reason and closes the connection. Both connMutex and
+// mutex must be held by the caller.
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
 	if !c.isConnected {
 		return ErrClientNotConnected
@@ -406,10 +408,6 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -438,8 +436,6 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
 	c.isConnected = false
 
 	// Signal disconnect
@@ -888,10 +884,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
-			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
+			err = c.disconnectWithReason(ctx, 0x93)
+			c.mutex.Unlock()
+			if err != nil {
 				return err
 			}
+
+			// Do not process the publish any further
+			return ReasonCode(0x93)
 		} else {
 			// Decrement the receive quota counter
 			c.receiveQuota--
-- 
2.43.0


From 94cf1abde871bc9d431bdebd08062d545b160054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 19/51] fix: send nothing after DISCONNECT even if closing the
 connection fails

---
 mqtt/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index c8e9053..45570df 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -379,6 +379,8 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		return err
 	}
 
+	c.isConnected = false
+
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
@@ -387,8 +389,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected = false
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
 
@@ -430,13 +430,14 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 		return err
 	}
 
+	c.isConnected = false
+
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
-- 
2.43.0


From 8982be2f9deb86ae2bae6c04429d2ac2bee86fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 20/51] fix: take and release the locks of Unsubscribe like
 those of Subscribe

Unsubscribe kept the client locked when it failed, and wrote its packet without
holding the connection.
---
 mqtt/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 45570df..26046bb 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -544,8 +544,6 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
-
 	if !c.isConnected {
 		return ErrClientNotConnected
 	}
@@ -556,6 +554,10 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		deadline = time.Time{}
 	}
 
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -567,6 +569,8 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+
+	c.mutex.Lock()
 	unsubscribe := &packets.Unsubscribe{
 		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
 		Topics:           _topics,
@@ -581,9 +585,11 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		c.mutex.Unlock()
 		return err
 	}
 
+	unlockConn.Do(c.connMutex.Unlock)
 	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
-- 
2.43.0


From 91bdf28984be983efe51cded1610d95ec41d10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 21/51] fix: release the lock when processing an
 acknowledgement fails

---
 mqtt/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 26046bb..d5bd770 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -962,6 +962,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
 			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -987,11 +988,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original publish from persistent storage
 			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 
 			// Store the incoming PUBREC to persistent storage
 			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1004,6 +1007,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		if err = c.send(pubrel); err != nil {
+			c.mutex.Unlock()
 			return err
 		}
 
@@ -1022,6 +1026,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1068,6 +1073,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
-- 
2.43.0


From ae8a4e857c1358b3244f2819e44b4ee4a25c20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 22/51] fix: process acknowledgements of packets that are not
 in the storage

A PUBREL that was repeated, or whose PUBLISH could not be stored, was never
answered with PUBCOMP.
---
 mqtt/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index d5bd770..761da40 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -961,7 +961,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
 				return err
 			}
@@ -987,7 +987,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1025,7 +1025,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Lock()
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1072,7 +1072,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
 				return err
 			}
-- 
2.43.0


From f8bcc96a1d595cfe47d5a626dcae812bada3207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 23/51] fix: take the connection lock before the state lock
 everywhere

---
 mqtt/client.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 761da40..6f911b4 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -210,6 +210,10 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
@@ -219,10 +223,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -336,6 +336,10 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
@@ -349,10 +353,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -768,6 +768,10 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 
@@ -788,10 +792,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
-- 
2.43.0


From 4be1b52bb05717ab2aab3f03519e37f96a71259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 24/51] fix: count receive quotas as the standard says

---
 mqtt/client.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 6f911b4..2c0fc9f 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -281,11 +281,15 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
-	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	// SPEC: If the Receive Maximum value is absent, then its value defaults to 65,535.
+	if connack.ReceiveMaximum == 0 {
+		c.serverReceiveMaximum = 65535
+	} else {
+		c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = 65535
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
@@ -899,7 +903,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 			// Do not process the publish any further
 			return ReasonCode(0x93)
-		} else {
+		} else if publish.QoS > 0 {
 			// Decrement the receive quota counter
 			c.receiveQuota--
 		}
-- 
2.43.0


From cfe1d9d228e17ece22d359c6e8ab23dd6a587d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 25/51] fix: end the exchange when PUBREC reports a failure

---
 mqtt/client.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 2c0fc9f..3dbeea4 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -983,9 +983,16 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
+		refused := pubrec.ReasonCode >= 0x80
+		if refused {
 			if c.sendQuota < c.serverReceiveMaximum {
 				c.sendQuota++
+
+				// Potentially allow a blocked call to Publish to continue.
+				select {
+				case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
+				default: // No call to Publish is pending
+				}
 			}
 		}
 
@@ -997,22 +1004,28 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 
 			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				c.mutex.Unlock()
-				return err
+			if !refused {
+				if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+					c.mutex.Unlock()
+					return err
+				}
 			}
 		}
 
 		// Send PUBREL control packet
-		pubrel := &packets.Pubrel{
-			Puback: packets.Puback{
-				PacketIdentifier: pubrec.PacketIdentifier,
-			},
-		}
+		// SPEC: If PUBACK or PUBREC is received containing a Reason Code of 0x80 or greater the corresponding PUBLISH
+		//       packet is treated as acknowledged, and MUST NOT be retransmitted [MQTT-4.4.0-2].
+		if !refused {
+			pubrel := &packets.Pubrel{
+				Puback: packets.Puback{
+					PacketIdentifier: pubrec.PacketIdentifier,
+				},
+			}
 
-		if err = c.send(pubrel); err != nil {
-			c.mutex.Unlock()
-			return err
+			if err = c.send(pubrel); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
 		}
 
 		c.mutex.Unlock()
-- 
2.43.0


From b24279c178f9ed96e3bdc3d0ed0bd17db2cff1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 26/51] fix: store PUBREC for QoS 2 messages only

---
 mqtt/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3dbeea4..fd88a45 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -932,7 +932,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
+		if publish.QoS == packets.QoS2 && c.storage != nil {
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
 					PacketIdentifier: publish.PacketIdentifier,
-- 
2.43.0


From b36e894ddda7813f81d94e9eee9a45eccf0320bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 27/51] fix: name reason code 0x99 as the standard does

---
 mqtt/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..3a19402 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -89,7 +89,7 @@ func (r ReasonCode) Error() string {
 	case 0x98:
 		return "administrative action"
 	case 0x99:
-		return "retain not supported"
+		return "payload format invalid"
 	case 0x9A:
 		return "retain not supported"
 	case 0x9B:
-- 
2.43.0


From 0046af9aa7cd6b596759f944a96bb725e7889225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 28/51] fix: acknowledge messages that arrive late in the time
 of the poll

---
 mqtt/client.go | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index fd88a45..224c7b0 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -688,23 +688,12 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -726,23 +715,12 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -911,11 +889,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
+			if err = c.sendPuback(publish); err != nil {
 				return err
 			}
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 49e88fa0b87a45ce8d3f63eccb0079573e79649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 29/51] fix: a keep alive of zero turns the keep alive
 mechanism off

---
 mqtt/client.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 224c7b0..e128537 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -275,7 +275,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
+	} else {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
@@ -765,13 +765,9 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
-	defer cancel()
-
 	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
+	if c.keepAliveInterval > 0 {
+		deadline = time.Now().Add(time.Second * time.Duration(c.keepAliveInterval.Seconds()*1.5))
 	}
 
 	// Set I/O deadline
@@ -809,7 +805,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.isConnected = false
-- 
2.43.0


From 2c12dc3a3296d0f06b331792a4287630731317d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 30/51] fix: do not lose the first byte of a packet when the
 poll times out behind it

---
 mqtt/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index e128537..4990036 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -834,8 +834,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	//}
 
 	// Attempt to receive a control packet header
-	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	var first [1]byte
+	if _, err = io.ReadFull(c.conn, first[:]); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
@@ -853,6 +853,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.conn.SetDeadline(time.Time{})
 	}
 
+	// Receive the rest of the control packet header
+	header := packets.FixedHeader{}
+	if _, err = header.ReadFrom(io.MultiReader(bytes.NewReader(first[:]), c.conn)); err != nil {
+		return
+	}
+
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
-- 
2.43.0


From 9a3d0219b296e3adb163ea108af8ba6d828d55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 31/51] fix: keep to the send quota and never lose or leak any
 of it

---
 mqtt/client.go | 197 +++++++++++++++++++++++++++++--------------------
 1 file changed, 119 insertions(+), 78 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4990036..0538853 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -90,6 +90,8 @@ func NewClient(conn net.Conn) *Client {
 		responseChan:    make(map[int]chan any),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
+
+		pendingSendSemaphore: make(chan struct{}, 1),
 	}
 }
 
@@ -299,7 +301,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 
-	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
+	c.notifyPendingSend()
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -384,6 +386,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 
 	c.isConnected = false
+	c.notifyPendingSend()
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
@@ -435,6 +438,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 
 	c.isConnected = false
+	c.notifyPendingSend()
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
@@ -617,6 +621,53 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	return
 }
 
+// notifyPendingSend potentially allows a blocked call to Publish to continue. It never blocks.
+func (c *Client) notifyPendingSend() {
+	select {
+	case c.pendingSendSemaphore <- struct{}{}:
+	default: // A notification is pending already
+	}
+}
+
+// reserveSendQuota takes one from the send quota. It waits until one of the unacknowledged publishes is acknowledged if
+// the send quota is zero.
+func (c *Client) reserveSendQuota(ctx context.Context) error {
+	for {
+		c.mutex.Lock()
+		if !c.isConnected {
+			// Other calls may be waiting too
+			c.notifyPendingSend()
+			c.mutex.Unlock()
+			return ErrClientNotConnected
+		}
+
+		if c.sendQuota > 0 {
+			c.sendQuota--
+			if c.sendQuota > 0 {
+				c.notifyPendingSend()
+			}
+			c.mutex.Unlock()
+			return nil
+		}
+		c.mutex.Unlock()
+
+		// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+		select {
+		case <-c.pendingSendSemaphore:
+		case <-ctx.Done():
+			return ctx.Err()
+		}
+	}
+}
+
+// releaseSendQuota gives back one to the send quota. The mutex must be held by the caller.
+func (c *Client) releaseSendQuota() {
+	if c.sendQuota < c.serverReceiveMaximum {
+		c.sendQuota++
+		c.notifyPendingSend()
+	}
+}
+
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
 	if !c.isConnected {
@@ -629,33 +680,6 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
-	// Perform preflight packet persistence operations
-	if pub.QoS > 0 {
-		// Assign a packet identifier if none is set
-		c.mutex.Lock()
-		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
-		}
-
-		if c.storage != nil {
-			// Store this publish control packet
-			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
-				c.mutex.Unlock()
-				return err
-			}
-		}
-		c.mutex.Unlock()
-	}
-
 	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
 	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
 	//       [MQTT-4.9.0-2].
@@ -663,27 +687,60 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
 	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
 	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
+	if pub.QoS > 0 {
 		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
-		c.connMutex.Lock()
+		if err = c.reserveSendQuota(ctx); err != nil {
+			return err
+		}
 	}
-	// Write the publish
-	if err = c.send(pub); err != nil {
+
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
+	var packet []byte
+	if packet, err = c.preparePublish(deadline, pub); err != nil {
+		if pub.QoS > 0 {
+			// Nothing will be sent
+			c.mutex.Lock()
+			c.releaseSendQuota()
+			c.mutex.Unlock()
+		}
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
+	// Write the publish
+	_, err = c.conn.Write(packet)
+	return err
+}
 
-	if pub.QoS > 0 {
-		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
-		c.mutex.Unlock()
+// preparePublish does everything that has to be done before the PUBLISH control packet can be written to the connection
+// and returns the encoded packet. The connMutex must be held by the caller.
+func (c *Client) preparePublish(deadline time.Time, pub *packets.Publish) (packet []byte, err error) {
+	// Set I/O deadline
+	if err = c.conn.SetDeadline(deadline); err != nil {
+		return nil, err
 	}
 
-	return
+	// Assign a packet identifier if none is set
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if pub.QoS > 0 && pub.PacketIdentifier == 0 {
+		pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+	}
+
+	if packet, err = encode(pub); err != nil {
+		return nil, err
+	}
+
+	// Perform preflight packet persistence operations
+	if pub.QoS > 0 && c.storage != nil {
+		// Store this publish control packet
+		if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
+			return nil, err
+		}
+	}
+
+	return packet, nil
 }
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
@@ -809,6 +866,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.isConnected = false
+		c.notifyPendingSend()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -931,17 +989,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota()
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
@@ -965,15 +1013,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Lock()
 		refused := pubrec.ReasonCode >= 0x80
 		if refused {
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
-
-				// Potentially allow a blocked call to Publish to continue.
-				select {
-				case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-				default: // No call to Publish is pending
-				}
-			}
+			c.releaseSendQuota()
 		}
 
 		if c.storage != nil {
@@ -1055,17 +1095,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota()
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
@@ -1109,6 +1139,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		// Close the connection
 		c.isConnected = false
+		c.notifyPendingSend()
 		if err = c.conn.Close(); err != nil {
 			return
 		}
@@ -1198,18 +1229,28 @@ func (c *Client) matchTopic(topic, filter string) bool {
 }
 
 func (c *Client) send(w io.WriterTo) (err error) {
-	// Allocate a new buffer
-	buf := bytes.NewBuffer(make([]byte, 0, 128))
-
-	// Write to the buffer
-	if _, err = w.WriteTo(buf); err != nil {
+	var packet []byte
+	if packet, err = encode(w); err != nil {
 		return err
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
+	if _, err = c.conn.Write(packet); err != nil {
 		return err
 	}
 
 	return nil
 }
+
+// encode returns the bytes of a control packet.
+func encode(w io.WriterTo) ([]byte, error) {
+	// Allocate a new buffer
+	buf := bytes.NewBuffer(make([]byte, 0, 128))
+
+	// Write to the buffer
+	if _, err := w.WriteTo(buf); err != nil {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
+}
-- 
2.43.0


From 868d2e9b7eb32d16648565459fd6e4afe47f4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 32/51] fix: deliver a repeated QoS 2 message once

---
 mqtt/client.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0538853..447561f 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -67,6 +67,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// receiving holds the packet identifiers of the QoS 2 messages for which no PUBREL has been received yet
+	receiving map[uint16]struct{}
+
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
@@ -88,6 +91,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
+		receiving:       make(map[uint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 
@@ -303,6 +307,11 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	c.notifyPendingSend()
 
+	// Incoming exchanges continue only if the server continues the session
+	if !connack.SessionPresent {
+		c.receiving = make(map[uint16]struct{})
+	}
+
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 
@@ -926,6 +935,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		c.mutex.Lock()
+		if _, ok := c.receiving[publish.PacketIdentifier.Value()]; ok && publish.QoS == packets.QoS2 {
+			// This message was delivered before. Only acknowledge it again.
+			// SPEC: Until it has received the corresponding PUBREL packet, the receiver MUST acknowledge any subsequent
+			//       PUBLISH packet with the same Packet Identifier by sending a PUBREC. It MUST NOT cause duplicate
+			//       messages to be delivered to any onward recipients in this case [MQTT-4.3.3-10].
+			c.mutex.Unlock()
+			return c.sendPubrec(publish)
+		}
+
 		if c.receiveQuota == 0 && publish.QoS > 0 {
 			// The server has sent more publishes than this client is willing to accept. Send disconnect.
 			// SPEC: The Server MUST NOT send more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets for which it has
@@ -956,6 +974,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
+
+			c.mutex.Lock()
+			c.receiving[publish.PacketIdentifier.Value()] = struct{}{}
+			c.mutex.Unlock()
 		}
 
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
@@ -1067,6 +1089,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				return err
 			}
 		}
+		_, ok := c.receiving[pubrel.PacketIdentifier.Value()]
+		delete(c.receiving, pubrel.PacketIdentifier.Value())
 		c.mutex.Unlock()
 
 		// Send PUBCOMP control packet
@@ -1081,9 +1105,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
-		if c.receiveQuota < c.clientReceiveMaximum {
+		c.mutex.Lock()
+		if ok && c.receiveQuota < c.clientReceiveMaximum {
 			c.receiveQuota++
 		}
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel, nil)
 	case packets.PUBCOMP:
-- 
2.43.0


From d50e17b38684fa9c7ef0f3d21786abda9781a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 33/51] fix: close every event channel once

---
 mqtt/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 447561f..ca5141c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -58,6 +58,7 @@ type Client struct {
 
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
+	openChans  map[int]struct{}
 
 	responseChan map[int]chan any
 
@@ -90,6 +91,7 @@ func NewClient(conn net.Conn) *Client {
 		conn:            conn,
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
+		openChans:       make(map[int]struct{}),
 		responseChan:    make(map[int]chan any),
 		receiving:       make(map[uint16]struct{}),
 		evChanIdCounter: 1,
@@ -142,12 +144,14 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 	// Track this chan so fanout signalling can occur later
 	c.eventChans[c.evChanIdCounter] = result
+	c.openChans[c.evChanIdCounter] = struct{}{}
 	c.evChanIdCounter++
 
 	return result
 }
 
-// CloseEventChannel closes the event channel. No further events will be signalled on the channel.
+// CloseEventChannel closes the event channel. No further events will be signalled on the channel. Closing a channel that
+// is closed already does nothing.
 func (c *Client) CloseEventChannel(channel EventChannel) {
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
@@ -156,6 +160,12 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 }
 
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	// Closing a channel a second time would panic
+	if _, ok := c.openChans[channel.id]; !ok {
+		return
+	}
+	delete(c.openChans, channel.id)
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -614,11 +624,13 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	case <-respChan:
 		c.mutex.Lock()
 		// Close any event channels bound to the topics
+		c.eventMutex.Lock()
 		for _, topic := range topics {
 			if channel, ok := c.topicChans[topic]; ok {
 				c.closeEventChannelInternal(channel)
 			}
 		}
+		c.eventMutex.Unlock()
 		c.mutex.Unlock()
 	}
 
-- 
2.43.0


From 393d09921f1bc3554e058f2911ff0b0e5d327b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 34/51] fix: bind and route to event channels that are open,
 under their lock

---
 mqtt/client.go | 104 ++++++++++++++++++++++++++-----------------------
 1 file changed, 56 insertions(+), 48 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index ca5141c..dfa3de1 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -184,7 +184,7 @@ func (c *Client) closeEventChannelInternal(channel EventChannel) {
 
 // signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
 // internally.
-func (c *Client) signal(packetType packets.PacketType, data any, channel chan<- *Event) {
+func (c *Client) signal(packetType packets.PacketType, data any) {
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
@@ -193,29 +193,30 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 		Data:       data,
 	}
 
-	if channel != nil {
-		// Signal this channel directly
-		select {
-		case channel <- e:
-			// Signalled
-		default:
-			// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-			//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-			//       event channels will stop receiving new events when they are full.
-			// Already has a pending event. This channel will miss the current event
-		}
-	} else {
-		// Fanout to all other channels
-		for _, channel := range c.eventChans {
-			select {
-			case channel.channel <- e:
-				// Signalled
-			default:
-				// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-				//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-				//       event channels will stop receiving new events when they are full.
-				// Already has a pending event. This channel will miss the current event
-			}
+	// Fanout to all channels that are not bound to a topic
+	for _, channel := range c.eventChans {
+		c.signalChannel(e, channel)
+	}
+
+	// Sleep this goroutine to allow other goroutines to consume their event channels
+	time.Sleep(time.Nanosecond)
+}
+
+// route signals the PUBLISH on all event channels that are bound to a topic filter which matches its topic.
+func (c *Client) route(publish *packets.Publish) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	e := &Event{
+		PacketType: packets.PUBLISH,
+		Data:       publish,
+	}
+
+	for filter, channel := range c.topicChans {
+		// Does the topic match any known filter?
+		if c.matchTopic(publish.Topic.String(), filter) {
+			// Signal the publish on this channel
+			c.signalChannel(e, channel)
 		}
 	}
 
@@ -223,6 +224,19 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 	time.Sleep(time.Nanosecond)
 }
 
+// signalChannel signals the event on one event channel. The eventMutex must be held by the caller.
+func (c *Client) signalChannel(e *Event, channel EventChannel) {
+	select {
+	case channel.channel <- e:
+		// Signalled
+	default:
+		// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
+		//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
+		//       event channels will stop receiving new events when they are full.
+		// Already has a pending event. This channel will miss the current event
+	}
+}
+
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
@@ -335,7 +349,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.isConnected = true
 
 	// Signal CONNACK event
-	c.signal(packets.CONNACK, connack, nil)
+	c.signal(packets.CONNACK, connack)
 
 	return
 }
@@ -416,7 +430,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	unlockConn.Do(c.connMutex.Unlock)
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return nil
 }
@@ -467,7 +481,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return
 }
@@ -539,15 +553,15 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 			} else {
 				// TODO: Consider session retention details here
 
-				if chanid := topics[i].channel.id; chanid != 0 {
+				c.eventMutex.Lock()
+				if _, ok := c.openChans[topics[i].channel.id]; ok {
 					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
+					c.topicChans[topics[i].Topic.Filter()] = topics[i].channel
 
 					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
+					delete(c.eventChans, topics[i].channel.id)
 				}
+				c.eventMutex.Unlock()
 			}
 		}
 	}
@@ -993,13 +1007,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
-		for filter, channel := range c.topicChans {
-			// Does the topic match any known filter?
-			if c.matchTopic(publish.Topic.String(), filter) {
-				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
-			}
-		}
+		c.route(publish)
 
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
@@ -1014,7 +1022,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.RUnlock()
 
-		c.signal(packets.PUBLISH, publish, nil)
+		c.signal(packets.PUBLISH, publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if _, err = puback.ReadFrom(c.conn); err != nil {
@@ -1034,7 +1042,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBACK, puback, nil)
+		c.signal(packets.PUBACK, puback)
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
@@ -1084,7 +1092,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREC, pubrec, nil)
+		c.signal(packets.PUBREC, pubrec)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
@@ -1123,7 +1131,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREL, pubrel, nil)
+		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
@@ -1145,7 +1153,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBCOMP, pubcomp, nil)
+		c.signal(packets.PUBCOMP, pubcomp)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if _, err = suback.ReadFrom(c.conn); err != nil {
@@ -1157,7 +1165,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- suback
 		}
 
-		c.signal(packets.SUBACK, suback, nil)
+		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
 		if _, err = unsuback.ReadFrom(c.conn); err != nil {
@@ -1169,7 +1177,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- unsuback
 		}
 
-		c.signal(packets.UNSUBACK, unsuback, nil)
+		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
@@ -1181,13 +1189,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-		c.signal(packets.DISCONNECT, disconnect, nil)
+		c.signal(packets.DISCONNECT, disconnect)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if _, err = auth.ReadFrom(c.conn); err != nil {
 			return
 		}
-		c.signal(packets.AUTH, auth, nil)
+		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
-- 
2.43.0


From e6bc67149d20a7694df89f7e2fccbd063e691a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 35/51] fix: answer every SUBSCRIBE and UNSUBSCRIBE once, as
 the server decided

---
 mqtt/client.go | 129 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 36 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index dfa3de1..98f767c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -418,8 +418,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		return err
 	}
 
-	c.isConnected = false
-	c.notifyPendingSend()
+	c.connectionClosed()
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
@@ -470,8 +469,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 		return err
 	}
 
-	c.isConnected = false
-	c.notifyPendingSend()
+	c.connectionClosed()
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
@@ -530,26 +528,41 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
 	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
+	c.mutex.Unlock()
+
+	// Remove the channel from the map
+	defer c.dropResponseChan(int(subscribe.PacketIdentifier))
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
-		c.mutex.Unlock()
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
 	select {
+	case <-ctx.Done():
+		return ctx.Err()
 	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
+		suback, ok := resp.(*packets.Suback)
+		if !ok {
+			return unexpectedResponse(resp)
+		}
+
+		// SPEC: The order of Reason Codes in the SUBACK packet MUST match the order of Topic Filters in the SUBSCRIBE
+		//       packet [MQTT-3.9.3-1].
+		if len(suback.ReasonCodes) != len(topics) {
+			return packets.ErrControlPacketIsMalformed
+		}
 
 		// Check all reason codes
 		for i, code := range suback.ReasonCodes {
 			if code >= 0x80 {
 				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
+				if err == nil {
+					err = ReasonCode(code)
+				}
 			} else {
 				// TODO: Consider session retention details here
 
@@ -566,14 +579,6 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		}
 	}
 
-	// Close the chan
-	close(respChan)
-
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
-
 	return
 }
 
@@ -623,37 +628,91 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
 	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
+	c.mutex.Unlock()
+
+	// Remove the channel from the map
+	defer c.dropResponseChan(int(unsubscribe.PacketIdentifier))
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
-		c.mutex.Unlock()
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
 	select {
-	case <-respChan:
-		c.mutex.Lock()
+	case <-ctx.Done():
+		return ctx.Err()
+	case resp := <-respChan:
+		unsuback, ok := resp.(*packets.Unsuback)
+		if !ok {
+			return unexpectedResponse(resp)
+		}
+
+		// SPEC: The order of Reason Codes in the UNSUBACK packet MUST match the order of Topic Filters in the
+		//       UNSUBSCRIBE packet [MQTT-3.11.3-1].
+		if len(unsuback.ReasonCodes) != len(topics) {
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Close any event channels bound to the topics
 		c.eventMutex.Lock()
-		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
+		for i, topic := range topics {
+			if code := unsuback.ReasonCodes[i]; code >= 0x80 {
+				// The subscription remains
+				if err == nil {
+					err = ReasonCode(code)
+				}
+			} else if channel, ok := c.topicChans[topic]; ok {
 				c.closeEventChannelInternal(channel)
 			}
 		}
 		c.eventMutex.Unlock()
-		c.mutex.Unlock()
 	}
 
+	return
+}
+
+// dropResponseChan forgets the channel on which the response to the control packet with the identifier is received.
+func (c *Client) dropResponseChan(identifier int) {
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
+	delete(c.responseChan, identifier)
 	c.mutex.Unlock()
+}
 
-	return
+// respond passes a response to the call that waits for it. It never blocks.
+func (c *Client) respond(identifier int, response any) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if respChan, ok := c.responseChan[identifier]; ok {
+		select {
+		case respChan <- response:
+		default: // There is a response already
+		}
+	}
+}
+
+// unexpectedResponse returns the error for a response that does not belong to the request.
+func unexpectedResponse(response any) error {
+	if err, ok := response.(error); ok {
+		return err
+	}
+	return ErrUnexpectedPacketTypeReceived
+}
+
+// connectionClosed tells all waiting calls that the client is not connected any more. The mutex must be held by the
+// caller.
+func (c *Client) connectionClosed() {
+	c.isConnected = false
+	c.notifyPendingSend()
+	for _, respChan := range c.responseChan {
+		select {
+		case respChan <- ErrClientNotConnected:
+		default: // There is a response already
+		}
+	}
 }
 
 // notifyPendingSend potentially allows a blocked call to Publish to continue. It never blocks.
@@ -900,8 +959,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected = false
-		c.notifyPendingSend()
+		c.mutex.Lock()
+		c.connectionClosed()
+		c.mutex.Unlock()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -1161,9 +1221,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
-		}
+		c.respond(int(suback.PacketIdentifier), suback)
 
 		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
@@ -1173,9 +1231,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
-		}
+		c.respond(int(unsuback.PacketIdentifier), unsuback)
 
 		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
@@ -1184,8 +1240,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 		// Close the connection
-		c.isConnected = false
-		c.notifyPendingSend()
+		c.mutex.Lock()
+		c.connectionClosed()
+		c.mutex.Unlock()
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-- 
2.43.0


From c32b006b39c8f29b52ac51952941542dee01cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 36/51] fix: assign packet identifiers that are not zero and
 not in use

---
 mqtt/client.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 98f767c..7457dac 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -68,6 +68,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// sending holds the packet identifiers of the publishes that are not acknowledged yet
+	sending map[uint16]struct{}
+
 	// receiving holds the packet identifiers of the QoS 2 messages for which no PUBREL has been received yet
 	receiving map[uint16]struct{}
 
@@ -93,6 +96,7 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		openChans:       make(map[int]struct{}),
 		responseChan:    make(map[int]chan any),
+		sending:         make(map[uint16]struct{}),
 		receiving:       make(map[uint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
@@ -331,8 +335,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	c.notifyPendingSend()
 
-	// Incoming exchanges continue only if the server continues the session
+	// Exchanges continue only if the server continues the session
 	if !connack.SessionPresent {
+		c.sending = make(map[uint16]struct{})
 		c.receiving = make(map[uint16]struct{})
 	}
 
@@ -517,7 +522,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	c.mutex.Lock()
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: c.newPacketIdentifier(),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -618,7 +623,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	c.mutex.Lock()
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: c.newPacketIdentifier(),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -674,6 +679,38 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	return
 }
 
+// newPacketIdentifier returns a packet identifier that is not in use. The mutex must be held by the caller.
+// SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it MUST
+//
+//	assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
+func (c *Client) newPacketIdentifier() primitives.PrimitiveUint16 {
+	identifier := uint16(c.rngFn())
+	for n := 0; n < 65536; n++ {
+		if identifier != 0 && !c.isPacketIdentifierUsed(identifier) {
+			break
+		}
+		identifier++
+	}
+	return primitives.PrimitiveUint16(identifier)
+}
+
+// isPacketIdentifierUsed returns true if the packet identifier belongs to an exchange that is not complete. The mutex
+// must be held by the caller.
+func (c *Client) isPacketIdentifierUsed(identifier uint16) bool {
+	if _, ok := c.sending[identifier]; ok {
+		return true
+	}
+	if _, ok := c.responseChan[int(identifier)]; ok {
+		return true
+	}
+	if c.storage != nil {
+		if _, err := c.storage.Get(identifier); err == nil {
+			return true
+		}
+	}
+	return false
+}
+
 // dropResponseChan forgets the channel on which the response to the control packet with the identifier is received.
 func (c *Client) dropResponseChan(identifier int) {
 	c.mutex.Lock()
@@ -819,7 +856,7 @@ func (c *Client) preparePublish(deadline time.Time, pub *packets.Publish) (packe
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if pub.QoS > 0 && pub.PacketIdentifier == 0 {
-		pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+		pub.PacketIdentifier = c.newPacketIdentifier()
 	}
 
 	if packet, err = encode(pub); err != nil {
@@ -834,6 +871,10 @@ func (c *Client) preparePublish(deadline time.Time, pub *packets.Publish) (packe
 		}
 	}
 
+	if pub.QoS > 0 {
+		c.sending[pub.PacketIdentifier.Value()] = struct{}{}
+	}
+
 	return packet, nil
 }
 
@@ -1092,6 +1133,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Perform rate limiting related operations
 		c.mutex.Lock()
 		c.releaseSendQuota()
+		delete(c.sending, puback.PacketIdentifier.Value())
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
@@ -1116,6 +1158,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		refused := pubrec.ReasonCode >= 0x80
 		if refused {
 			c.releaseSendQuota()
+			delete(c.sending, pubrec.PacketIdentifier.Value())
 		}
 
 		if c.storage != nil {
@@ -1202,6 +1245,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Perform rate limiting related operations
 		c.mutex.Lock()
 		c.releaseSendQuota()
+		delete(c.sending, pubcomp.PacketIdentifier.Value())
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-- 
2.43.0


From 95ffe505236037e7a6391a92b9f9525a4cc63d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 37/51] fix: keep the stored publish when an incoming exchange
 has the same identifier

---
 mqtt/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 7457dac..3ff5b2e 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1205,8 +1205,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
+		if _, ok := c.sending[pubrel.PacketIdentifier.Value()]; !ok && c.storage != nil {
+			// Discard original PUBREC control packet from persistent storage. The entry belongs to a publish of this client if
+			// one with the same packet identifier is not acknowledged yet.
 			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil && !errors.Is(err, storage.ErrNoEntry) {
 				c.mutex.Unlock()
 				return err
-- 
2.43.0


From 937fd328decbd559eaca6b833c8d0263a205baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 38/51] fix: read the connected state under a lock

IsConnected, Subscribe, Unsubscribe, Publish and Poll read it while Connect,
Disconnect or Poll on another goroutine may write it.
---
 mqtt/client.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3ff5b2e..44c0532 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -48,6 +48,10 @@ type Client struct {
 
 	storage storage.Storage
 
+	// connectedMutex guards isConnected, which is also read while the other locks are not held. It is written only while
+	// the mutex is held too.
+	connectedMutex sync.RWMutex
+
 	isConnected           bool
 	keepAliveInterval     time.Duration
 	pingRespDeadline      time.Time
@@ -351,7 +355,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
 	// Successful connection!
-	c.isConnected = true
+	c.setConnected(true)
 
 	// Signal CONNACK event
 	c.signal(packets.CONNACK, connack)
@@ -362,9 +366,19 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
+	c.connectedMutex.RLock()
+	defer c.connectedMutex.RUnlock()
+
 	return c.isConnected
 }
 
+// setConnected changes the connected state. The mutex must be held by the caller.
+func (c *Client) setConnected(connected bool) {
+	c.connectedMutex.Lock()
+	c.isConnected = connected
+	c.connectedMutex.Unlock()
+}
+
 // Disconnect sends the DISCONNECT packet to the server. The network connection will be closed upon sending the
 // DISCONNECT packet. Setting the publishWill parameter to true will require the server to publish the "Will" message if
 // one was specified initially in the CONNECT packet. The server will default session expiry interval to that of the
@@ -496,7 +510,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -595,7 +609,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -742,7 +756,7 @@ func unexpectedResponse(response any) error {
 // connectionClosed tells all waiting calls that the client is not connected any more. The mutex must be held by the
 // caller.
 func (c *Client) connectionClosed() {
-	c.isConnected = false
+	c.setConnected(false)
 	c.notifyPendingSend()
 	for _, respChan := range c.responseChan {
 		select {
@@ -801,7 +815,7 @@ func (c *Client) releaseSendQuota() {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -987,7 +1001,7 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From 1dffc5812933eb67fceb144d00475cbc54c58ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 39/51] fix: access the keep alive state under the mutex

Connect writes the interval and the ping response deadline after it has
released the connection, while Poll and KeepAliveInterval read them.
---
 mqtt/client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 44c0532..8fb53aa 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -946,6 +946,9 @@ func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
@@ -1011,7 +1014,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
+	c.mutex.RLock()
+	timedOut := c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline)
+	c.mutex.RUnlock()
+	if timedOut {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.mutex.Lock()
@@ -1314,7 +1320,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
 		// Extend the ping response deadline
+		c.mutex.Lock()
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
+		c.mutex.Unlock()
 	default:
 		return ErrUnexpectedPacketTypeReceived
 	}
-- 
2.43.0


From c61b0e3b710d7695c609eaef4a0ba6ebc00ee90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 40/51] fix: set the storage under the lock that its users hold

---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8fb53aa..aa20ff3 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -113,8 +113,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
-- 
2.43.0


From d8362d1eb2b0bea6209898eed75a1cd0e0bc17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 41/51] fix: set the random number generator under the lock
 that its users hold

---
 mqtt/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index aa20ff3..16ff5d5 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -122,6 +122,9 @@ func (c *Client) SetStorage(storage storage.Storage) {
 // SetRngFn set the random number generator function that will be used to generate random packet identifiers. The
 // default is rand.Uint32.
 func (c *Client) SetRngFn(fn func() uint32) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.rngFn = fn
 }
 
-- 
2.43.0


From 3009e53556b4e33e83db74b13e4c2db91af08b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 42/51] fix: end the connection when nothing more can be
 received on it

---
 mqtt/client.go | 53 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 16ff5d5..907b8a5 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -277,12 +277,12 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// Receive response header
 	header := packets.FixedHeader{}
 	if _, err = header.ReadFrom(c.conn); err != nil {
-		return err
+		return c.abort(err)
 	}
 
 	// Response must be CONNACK
 	if header.GetType() != packets.CONNACK {
-		return ErrUnexpectedPacketTypeReceived
+		return c.abort(ErrUnexpectedPacketTypeReceived)
 	}
 
 	// Create the Connack packet
@@ -292,7 +292,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	// Receive the CONNACK response
 	if _, err = connack.ReadFrom(c.conn); err != nil {
-		return err
+		return c.abort(err)
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
@@ -769,6 +769,17 @@ func (c *Client) connectionClosed() {
 	}
 }
 
+// abort closes the connection after it failed, or after something was received that cannot be processed. It is not known
+// where the next control packet starts then, so nothing more can be received. It returns the error passed to it. Both
+// connMutex and mutex must be held by the caller.
+// SPEC: When a Client detects a Malformed Packet or Protocol Error [...] it MUST close the Network Connection
+// [MQTT-4.13.1-1].
+func (c *Client) abort(err error) error {
+	c.connectionClosed()
+	c.conn.Close()
+	return err
+}
+
 // notifyPendingSend potentially allows a blocked call to Publish to continue. It never blocks.
 func (c *Client) notifyPendingSend() {
 	select {
@@ -1042,7 +1053,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
+		return c.receiveFailed(err)
 	}
 
 	// Set I/O deadline to 10ms initially so that polling doesn't tie up the conn for too long
@@ -1057,13 +1068,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		return nil
 	} else if err != nil {
 		// Some other error occurred. Return it
-		return
+		return c.receiveFailed(err)
 	}
 
 	if !deadline.IsZero() {
 		// Extend I/O deadline
 		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {
-			return
+			return c.receiveFailed(err)
 		}
 	} else {
 		// Unset any deadline
@@ -1073,7 +1084,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Receive the rest of the control packet header
 	header := packets.FixedHeader{}
 	if _, err = header.ReadFrom(io.MultiReader(bytes.NewReader(first[:]), c.conn)); err != nil {
-		return
+		return c.receiveFailed(err)
 	}
 
 	// Read control packet
@@ -1081,7 +1092,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBLISH:
 		publish := &packets.Publish{Header: header}
 		if _, err = publish.ReadFrom(c.conn); err != nil {
-			return
+			return c.receiveFailed(err)
 		}
 
 		c.mutex.Lock()
@@ -1150,7 +1161,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if _, err = puback.ReadFrom(c.conn); err != nil {
-			return err
+			return c.receiveFailed(err)
 		}
 
 		// Perform rate limiting related operations
@@ -1172,7 +1183,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
 		if _, err = pubrec.ReadFrom(c.conn); err != nil {
-			return err
+			return c.receiveFailed(err)
 		}
 
 		// Increment the send quota counter if it contains a failure reason code
@@ -1223,7 +1234,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
 		if _, err = pubrel.ReadFrom(c.conn); err != nil {
-			return err
+			return c.receiveFailed(err)
 		}
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
@@ -1263,7 +1274,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
 		if _, err = pubcomp.ReadFrom(c.conn); err != nil {
-			return err
+			return c.receiveFailed(err)
 		}
 
 		// Perform rate limiting related operations
@@ -1285,7 +1296,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if _, err = suback.ReadFrom(c.conn); err != nil {
-			return
+			return c.receiveFailed(err)
 		}
 
 		// Respond to the call to client.Subscribe
@@ -1295,7 +1306,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
 		if _, err = unsuback.ReadFrom(c.conn); err != nil {
-			return
+			return c.receiveFailed(err)
 		}
 
 		// Respond to the call to client.Unsubscribe
@@ -1305,7 +1316,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
-			return
+			return c.receiveFailed(err)
 		}
 		// Close the connection
 		c.mutex.Lock()
@@ -1318,7 +1329,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if _, err = auth.ReadFrom(c.conn); err != nil {
-			return
+			return c.receiveFailed(err)
 		}
 		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
@@ -1327,7 +1338,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 		c.mutex.Unlock()
 	default:
-		return ErrUnexpectedPacketTypeReceived
+		return c.receiveFailed(ErrUnexpectedPacketTypeReceived)
 	}
 
 	// TODO: Process control packet
@@ -1335,6 +1346,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	return nil
 }
 
+// receiveFailed aborts the connection after receiving a control packet failed. The connMutex must be held by the caller.
+func (c *Client) receiveFailed(err error) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	return c.abort(err)
+}
+
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
-- 
2.43.0


From 52cb54cf727f42f018a38cfc15eac571bb949375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 43/51] fix: close the connection when only a part of a packet
 was written

---
 mqtt/client.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 907b8a5..83210aa 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -868,8 +868,7 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	}
 
 	// Write the publish
-	_, err = c.conn.Write(packet)
-	return err
+	return c.write(packet)
 }
 
 // preparePublish does everything that has to be done before the PUBLISH control packet can be written to the connection
@@ -1427,11 +1426,17 @@ func (c *Client) send(w io.WriterTo) (err error) {
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(packet); err != nil {
-		return err
-	}
+	return c.write(packet)
+}
 
-	return nil
+// write writes an encoded control packet to the connection. It closes the connection if it could write only a part of the
+// packet, because the server would take whatever is written next for the rest of it.
+func (c *Client) write(packet []byte) error {
+	n, err := c.conn.Write(packet)
+	if err != nil && n > 0 && n < len(packet) {
+		c.conn.Close()
+	}
+	return err
 }
 
 // encode returns the bytes of a control packet.
-- 
2.43.0


From 855068bb4299f93a1032a3cec619d590bff6ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 44/51] fix: keep the packet identifier of a request in use
 until it is answered

---
 mqtt/client.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 83210aa..c5f8e7e 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -552,11 +552,10 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
 	c.mutex.Unlock()
 
-	// Remove the channel from the map
-	defer c.dropResponseChan(int(subscribe.PacketIdentifier))
-
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
+		// Remove the channel from the map
+		c.dropResponseChan(int(subscribe.PacketIdentifier))
 		return err
 	}
 
@@ -652,11 +651,10 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
 	c.mutex.Unlock()
 
-	// Remove the channel from the map
-	defer c.dropResponseChan(int(unsubscribe.PacketIdentifier))
-
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		// Remove the channel from the map
+		c.dropResponseChan(int(unsubscribe.PacketIdentifier))
 		return err
 	}
 
@@ -741,10 +739,9 @@ func (c *Client) respond(identifier int, response any) {
 	defer c.mutex.Unlock()
 
 	if respChan, ok := c.responseChan[identifier]; ok {
-		select {
-		case respChan <- response:
-		default: // There is a response already
-		}
+		// The packet identifier stays in use until now, even if no call waits for the response any more
+		delete(c.responseChan, identifier)
+		respChan <- response
 	}
 }
 
@@ -761,11 +758,10 @@ func unexpectedResponse(response any) error {
 func (c *Client) connectionClosed() {
 	c.setConnected(false)
 	c.notifyPendingSend()
-	for _, respChan := range c.responseChan {
-		select {
-		case respChan <- ErrClientNotConnected:
-		default: // There is a response already
-		}
+	for identifier, respChan := range c.responseChan {
+		// No response will be received any more
+		delete(c.responseChan, identifier)
+		respChan <- ErrClientNotConnected
 	}
 }
 
-- 
2.43.0


From 0fc6582ce300f044e90b9a9be339d3017bea7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 45/51] fix: send nothing on another connection than the one a
 call started with

---
 mqtt/client.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index c5f8e7e..aa64407 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -72,6 +72,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// connectionCounter is the number of connections for which the quotas were initialized
+	connectionCounter uint32
+
 	// sending holds the packet identifiers of the publishes that are not acknowledged yet
 	sending map[uint16]struct{}
 
@@ -339,6 +342,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// Initialize quotas
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
+	c.connectionCounter++
 
 	c.notifyPendingSend()
 
@@ -527,6 +531,11 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	// The connection may have ended in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -625,6 +634,11 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	// The connection may have ended in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -785,15 +799,15 @@ func (c *Client) notifyPendingSend() {
 }
 
 // reserveSendQuota takes one from the send quota. It waits until one of the unacknowledged publishes is acknowledged if
-// the send quota is zero.
-func (c *Client) reserveSendQuota(ctx context.Context) error {
+// the send quota is zero. It returns the number of the connection that the send quota belongs to.
+func (c *Client) reserveSendQuota(ctx context.Context) (connection uint32, err error) {
 	for {
 		c.mutex.Lock()
 		if !c.isConnected {
 			// Other calls may be waiting too
 			c.notifyPendingSend()
 			c.mutex.Unlock()
-			return ErrClientNotConnected
+			return 0, ErrClientNotConnected
 		}
 
 		if c.sendQuota > 0 {
@@ -801,8 +815,9 @@ func (c *Client) reserveSendQuota(ctx context.Context) error {
 			if c.sendQuota > 0 {
 				c.notifyPendingSend()
 			}
+			connection = c.connectionCounter
 			c.mutex.Unlock()
-			return nil
+			return connection, nil
 		}
 		c.mutex.Unlock()
 
@@ -810,7 +825,7 @@ func (c *Client) reserveSendQuota(ctx context.Context) error {
 		select {
 		case <-c.pendingSendSemaphore:
 		case <-ctx.Done():
-			return ctx.Err()
+			return 0, ctx.Err()
 		}
 	}
 }
@@ -842,9 +857,10 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
 	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
 	//       is zero [MQTT-4.9.0-3].
+	var connection uint32
 	if pub.QoS > 0 {
 		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		if err = c.reserveSendQuota(ctx); err != nil {
+		if connection, err = c.reserveSendQuota(ctx); err != nil {
 			return err
 		}
 	}
@@ -852,6 +868,14 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	// The connection for which the quota was reserved may have ended in the meantime
+	c.mutex.RLock()
+	ended := !c.isConnected || pub.QoS > 0 && c.connectionCounter != connection
+	c.mutex.RUnlock()
+	if ended {
+		return ErrClientNotConnected
+	}
+
 	var packet []byte
 	if packet, err = c.preparePublish(deadline, pub); err != nil {
 		if pub.QoS > 0 {
@@ -1020,6 +1044,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	// The connection may have ended in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-- 
2.43.0


From 305b175aabd5e5a274f852b97aee529c03cf47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 46/51] fix: close the connection on a PUBLISH that needs a
 packet identifier and has none

---
 mqtt/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index aa64407..5dd2c60 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1119,6 +1119,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return c.receiveFailed(err)
 		}
 
+		// SPEC: Each time a Server sends a new PUBLISH (with QoS > 0) MQTT Control Packet it MUST assign it a non zero Packet
+		//       Identifier that is currently unused [MQTT-2.2.1-4].
+		if publish.QoS > packets.QoS0 && publish.PacketIdentifier == 0 {
+			return c.receiveFailed(packets.ErrControlPacketIsMalformed)
+		}
+
 		c.mutex.Lock()
 		if _, ok := c.receiving[publish.PacketIdentifier.Value()]; ok && publish.QoS == packets.QoS2 {
 			// This message was delivered before. Only acknowledge it again.
-- 
2.43.0


From b4ff4c05ddc3932e0e862486c3395f41d2ad8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 47/51] fix: give messages with a topic alias the topic it
 stands for

---
 mqtt/client.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 5dd2c60..fdd9918 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -81,6 +81,9 @@ type Client struct {
 	// receiving holds the packet identifiers of the QoS 2 messages for which no PUBREL has been received yet
 	receiving map[uint16]struct{}
 
+	// topicAliases holds the topics for which the server has set topic aliases on the current connection
+	topicAliases map[primitives.PrimitiveUint16]primitives.PrimitiveString
+
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
@@ -344,6 +347,10 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.receiveQuota = c.clientReceiveMaximum
 	c.connectionCounter++
 
+	// SPEC: Topic Alias mappings exist only within a Network Connection and last only for the lifetime of that Network
+	//       Connection.
+	c.topicAliases = make(map[primitives.PrimitiveUint16]primitives.PrimitiveString)
+
 	c.notifyPendingSend()
 
 	// Exchanges continue only if the server continues the session
@@ -1126,6 +1133,19 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		c.mutex.Lock()
+		if len(publish.Topic) == 0 {
+			// SPEC: If a Topic Alias mapping has been set at the receiver, a sender can send a PUBLISH packet that contains
+			//       that Topic Alias and a zero length Topic Name.
+			topic, ok := c.topicAliases[publish.TopicAlias]
+			if !ok {
+				defer c.mutex.Unlock()
+				return c.abort(packets.ErrControlPacketIsMalformed)
+			}
+			publish.Topic = topic
+		} else if publish.TopicAlias > 0 {
+			c.topicAliases[publish.TopicAlias] = publish.Topic
+		}
+
 		if _, ok := c.receiving[publish.PacketIdentifier.Value()]; ok && publish.QoS == packets.QoS2 {
 			// This message was delivered before. Only acknowledge it again.
 			// SPEC: Until it has received the corresponding PUBREL packet, the receiver MUST acknowledge any subsequent
-- 
2.43.0


From cf0683c912984a50b8bf3e891e5a517b632dae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 48/51] fix: send nothing that the server announced not to
 accept

---
 mqtt/client.go | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index fdd9918..29fa922 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -60,6 +60,12 @@ type Client struct {
 	clientReceiveMaximum uint16
 	serverReceiveMaximum uint16
 
+	// The limits that the server has set for what it receives on the current connection
+	serverMaximumQoS        packets.QoS
+	serverRetainAvailable   bool
+	serverMaximumPacketSize uint32
+	serverTopicAliasMaximum uint16
+
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 	openChans  map[int]struct{}
@@ -275,6 +281,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
+	// The limits of an earlier connection do not apply any more
+	c.serverMaximumPacketSize = 0
+
 	// Send connect packet
 	if err = c.send(packet); err != nil {
 		return err
@@ -294,6 +303,12 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// Create the Connack packet
 	connack := &packets.Connack{
 		Header: header,
+
+		// SPEC: If the Maximum QoS is absent, the Client uses a Maximum QoS of 2.
+		MaximumQoS: primitives.PrimitiveByte(packets.QoS2),
+
+		// SPEC: If not present, then retained messages are supported.
+		RetainAvailable: 1,
 	}
 
 	// Receive the CONNACK response
@@ -301,6 +316,11 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return c.abort(err)
 	}
 
+	c.serverMaximumQoS = packets.QoS(connack.MaximumQoS)
+	c.serverRetainAvailable = connack.RetainAvailable != 0
+	c.serverMaximumPacketSize = uint32(connack.MaximumPacketSize)
+	c.serverTopicAliasMaximum = connack.TopicAliasMaximum.Value()
+
 	unlockConn.Do(c.connMutex.Unlock)
 
 	// Did the server send an error response?
@@ -901,6 +921,15 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 // preparePublish does everything that has to be done before the PUBLISH control packet can be written to the connection
 // and returns the encoded packet. The connMutex must be held by the caller.
 func (c *Client) preparePublish(deadline time.Time, pub *packets.Publish) (packet []byte, err error) {
+	// Fail if the server has announced that it does not accept this publish
+	if pub.QoS > c.serverMaximumQoS {
+		return nil, ReasonCode(0x9B)
+	} else if pub.Retain && !c.serverRetainAvailable {
+		return nil, ReasonCode(0x9A)
+	} else if pub.TopicAlias.Value() > c.serverTopicAliasMaximum {
+		return nil, ReasonCode(0x94)
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return nil, err
@@ -913,7 +942,7 @@ func (c *Client) preparePublish(deadline time.Time, pub *packets.Publish) (packe
 		pub.PacketIdentifier = c.newPacketIdentifier()
 	}
 
-	if packet, err = encode(pub); err != nil {
+	if packet, err = c.encode(pub); err != nil {
 		return nil, err
 	}
 
@@ -1472,7 +1501,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 
 func (c *Client) send(w io.WriterTo) (err error) {
 	var packet []byte
-	if packet, err = encode(w); err != nil {
+	if packet, err = c.encode(w); err != nil {
 		return err
 	}
 
@@ -1490,8 +1519,8 @@ func (c *Client) write(packet []byte) error {
 	return err
 }
 
-// encode returns the bytes of a control packet.
-func encode(w io.WriterTo) ([]byte, error) {
+// encode returns the bytes of a control packet. The connMutex must be held by the caller.
+func (c *Client) encode(w io.WriterTo) ([]byte, error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
 
@@ -1500,5 +1529,10 @@ func encode(w io.WriterTo) ([]byte, error) {
 		return nil, err
 	}
 
+	// SPEC: The Client MUST NOT send packets exceeding Maximum Packet Size to the Server [MQTT-3.2.2-15].
+	if c.serverMaximumPacketSize > 0 && uint64(buf.Len()) > uint64(c.serverMaximumPacketSize) {
+		return nil, ReasonCode(0x95)
+	}
+
 	return buf.Bytes(), nil
 }
-- 
2.43.0


From 44c5386956a2be5710b4f481a1a5784bb3fa8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 49/51] fix: match the filter behind the share name of a shared
 subscription

---
 mqtt/client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 29fa922..b188fbc 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1435,10 +1435,18 @@ func (c *Client) receiveFailed(err error) error {
 
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
-	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
 
+	// SPEC: $share/{ShareName}/{filter}
+	if strings.HasPrefix(filter, "$share/") {
+		shareName := filter[len("$share/"):]
+		if pos := strings.IndexByte(shareName, '/'); pos >= 0 {
+			// Match the filter behind the share name
+			filter = shareName[pos+1:]
+		}
+	}
+
 	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
 	//       beginning with a $ character [MQTT-4.7.2-1].
 	if strings.HasPrefix(topic, "$") && (strings.HasPrefix(filter, "#") || strings.HasPrefix(filter, "+")) {
-- 
2.43.0


From e795996c09d13bb0a29738b6a549dc6f9151b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 50/51] fix: fail instead of sending a packet identifier that
 is in use

---
 mqtt/client.go | 29 ++++++++++++++++++++++-------
 mqtt/errors.go |  1 +
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b188fbc..cafe8d8 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -574,8 +574,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: c.newPacketIdentifier(),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -679,8 +685,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: c.newPacketIdentifier(),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -735,19 +747,20 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	return
 }
 
-// newPacketIdentifier returns a packet identifier that is not in use. The mutex must be held by the caller.
+// newPacketIdentifier returns a packet identifier that is not in use or an error if all of them are. The mutex must be
+// held by the caller.
 // SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it MUST
 //
 //	assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
-func (c *Client) newPacketIdentifier() primitives.PrimitiveUint16 {
+func (c *Client) newPacketIdentifier() (primitives.PrimitiveUint16, error) {
 	identifier := uint16(c.rngFn())
 	for n := 0; n < 65536; n++ {
 		if identifier != 0 && !c.isPacketIdentifierUsed(identifier) {
-			break
+			return primitives.PrimitiveUint16(identifier), nil
 		}
 		identifier++
 	}
-	return primitives.PrimitiveUint16(identifier)
+	return 0, ErrNoPacketIdentifier
 }
 
 // isPacketIdentifierUsed returns true if the packet identifier belongs to an exchange that is not complete. The mutex
@@ -939,7 +952,9 @@ func (c *Client) preparePublish(deadline time.Time, pub *packets.Publish) (packe
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if pub.QoS > 0 && pub.PacketIdentifier == 0 {
-		pub.PacketIdentifier = c.newPacketIdentifier()
+		if pub.PacketIdentifier, err = c.newPacketIdentifier(); err != nil {
+			return nil, err
+		}
 	}
 
 	if packet, err = c.encode(pub); err != nil {
diff --git a/mqtt/errors.go b/mqtt/errors.go
index 3a19402..2318d05 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -29,6 +29,7 @@ import "errors"
 var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
+	ErrNoPacketIdentifier           = errors.New("all packet identifiers are in use")
 	ErrInvalidArgument              = errors.New("invalid argument")
 )
 
-- 
2.43.0


From 1344401051d6e10462198106f2b5fe050d0a5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 51/51] fix: close the connection when the receive maximum is
 exceeded and DISCONNECT cannot be sent

---
 mqtt/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index cafe8d8..2ffbc0d 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1206,7 +1206,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
-			err = c.disconnectWithReason(ctx, 0x93)
+			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
+				// The connection ends even if the DISCONNECT packet cannot be sent
+				err = c.abort(err)
+			}
 			c.mutex.Unlock()
 			if err != nil {
 				return err
-- 
2.43.0

