From 054ecf5d301ac0d5bf19529093d53bd4a9e996cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:49 +0000
Subject: [PATCH 01/16] fix: compress only OIDs whose prefix sub-id fits in a
 non-zero byte

RFC 2741 5.1 allows the prefix form for 1.3.6.1.x with x in 1..255; 0 and
256 were written as prefix 0, which loses the first five sub-ids.
---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..2fb9998 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..99388d9 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From 347da463f63367313593b42dd205c65339d98f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:49 +0000
Subject: [PATCH 02/16] fix: refuse to encode OIDs of more than 128 sub-ids

The number of sub-ids is written as one byte, so longer OIDs produced
corrupt PDUs although the encoder reported success.
---
 agentx/encoding.go     | 6 ++++++
 agentx/encoding_dbg.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 2fb9998..9943856 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -156,6 +156,9 @@ func (d decoder) parseOctetString(data []byte) (val string, next []byte) {
 	return
 }
 
+// maxSubids is the maximum number of sub-identifiers in ObjectId.
+const maxSubids = 128
+
 func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
@@ -169,6 +172,9 @@ func objectIdEncodingSize(id []uint32) (size int) {
 }
 
 func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte {
+	if len(val) > maxSubids {
+		panic(ErrEncoding)
+	}
 	if len(val) == 0 {
 		return append(data, 0, 0, 0, 0)
 	}
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 99388d9..7944354 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -159,6 +159,9 @@ func (d decoderDbg) parseOctetString(startpos int) (val string, nextpos int) {
 
 func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []byte {
 	e.log.Writef("appending ObjectId: %s, include: %d", oid.String(val), include)
+	if len(val) > maxSubids {
+		panic("too many sub-ids")
+	}
 	if len(val) == 0 {
 		data = append(data, 0, 0, 0, 0)
 		e.log.Write("appended null ObjectId")
-- 
2.43.0


From ac2b0ab5df69b65d96f61d94ea6d79235645190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:50 +0000
Subject: [PATCH 03/16] fix: reject varbind types whose high byte is not zero

The 16-bit type was truncated to a byte before it was checked.
---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From 535aad353d2df144af3a00b241e8c1ca66a7974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:51 +0000
Subject: [PATCH 04/16] fix: check the Opaque size against the data before
 allocating

A few hostile bytes could make the decoder allocate up to 2 GB.
---
 agentx/encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 9943856..1768c6e 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -249,9 +249,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	data, next = next[:int(size)], next[int(size):]
 	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
-	next = next[int(size):]
+	copy(val, data)
 	next = d.parsePaddingBytes(next, int(size))
 	return
 }
-- 
2.43.0


From ee2ba06f245d8faab3d526d0633ba9e5a9264cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:51 +0000
Subject: [PATCH 05/16] fix: DecodePduPayload rejects data whose size differs
 from the header

DecodePduPayloadDbg, documented as equivalent, already did.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..704f516 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -145,6 +145,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if ok = len(data) == int(pdu.PayloadSize); !ok {
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From 93cf357c758871f06f3933543da61fd87a34dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:52 +0000
Subject: [PATCH 06/16] fix: payload decoding sets the lists instead of
 appending to them

Decoding into a PDU that already held ranges or varbinds mixed the old
elements with the new ones.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 704f516..3bf1316 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -158,6 +158,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 	pdu.Params, data = pduTable[pdu.Tag].parseParams(d, data)
 
 	if pduTable[pdu.Tag].includesRanges {
+		pdu.Ranges = nil
 		for len(data) > 0 {
 			var r SearchRange
 			r, data = d.parseSearchRange(data)
@@ -165,6 +166,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
+		pdu.Varbinds = nil
 		for len(data) > 0 {
 			var vb asn.Varbind
 			vb, data = d.parseVarbind(data)
@@ -367,6 +369,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 	pdu.Params, nextpos = pduTable[pdu.Tag].parseParamsDbg(d, nextpos)
 
 	if pduTable[pdu.Tag].includesRanges {
+		pdu.Ranges = nil
 		for nextpos < len(d.data) {
 			var r SearchRange
 			r, nextpos = d.parseSearchRange(nextpos)
@@ -374,6 +377,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
+		pdu.Varbinds = nil
 		for nextpos < len(d.data) {
 			var vb asn.Varbind
 			vb, nextpos = d.parseVarbind(nextpos)
-- 
2.43.0


From d1d27ee05446e03f9bb1e50e3ffdb88c7440039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:53 +0000
Subject: [PATCH 07/16] fix: refuse to encode flags that are not allowed for
 the PDU type

The resulting header was rejected by every decoder, including our own.
---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 3bf1316..d183a3c 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -68,6 +68,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		return
 	}
 
+	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
+		return
+	}
+
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
@@ -203,6 +207,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 4c543c584850239cb7399b37677454dd9e4ee3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:53 +0000
Subject: [PATCH 08/16] fix: refuse to encode negative GetBulk counters

The decoder rejects them, so the encoder must not produce them.
---
 agentx/payload_params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7d4931f 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,9 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic("negative GetBulkParams")
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From 78bcd4560efd6aaaddf689e6ed3aabccfb6913da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:54 +0000
Subject: [PATCH 09/16] fix: refuse to encode payloads that exceed the 32-bit
 size field

The payload size wrapped around and the header announced a wrong size.
---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index d183a3c..032b1f4 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -1,6 +1,8 @@
 package agentx
 
 import (
+	"math"
+
 	"github.com/alexispb/mygosnmp/asn"
 	"github.com/alexispb/mygosnmp/hex"
 	"github.com/alexispb/mygosnmp/internal"
@@ -74,6 +76,9 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
@@ -214,6 +219,10 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 	}
 
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		log.Write("!!! Error. Payload is too large")
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 	log.Writef("counted payload size: %d", payloadSize)
 
-- 
2.43.0


From 768e5e06e0e10dd6c0fb5fb815492acf631404fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:55 +0000
Subject: [PATCH 10/16] fix: GetNext returns the right leaf around prefixes of
 its bounds

A leaf that is a proper prefix of the start OID was returned although it
is less than start, a leaf that is a proper prefix of the end OID was
skipped although it is less than end, and an empty tree returned its root.
---
 oid/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..5e8102d 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -119,14 +119,14 @@ func (node *Node) removeNode(oid []uint32, prune bool) bool {
 // Note that empty oid < not empty oid, so in case oid1 == nil,
 // it returns leaf node with the least oid.
 func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition int16) (resnode *Node) {
-	if repeatition < 1 {
+	if repeatition < 1 || len(node.Children) == 0 {
 		return
 	}
 
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			if (!eq1 || (include1 && ind == len(oid1))) && (!eq2 || ind < len(oid2)) {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0


From c5bfd6ac02ae8cab3d2d7d5b16e1b7253932a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:55 +0000
Subject: [PATCH 11/16] fix: the system group lies below mib-2.1

system is 1.3.6.1.2.1.1; without that arc its names collided with mib2,
interfaces and others.
---
 oid/name.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/oid/name.go b/oid/name.go
index f6caa25..a6e42cc 100644
--- a/oid/name.go
+++ b/oid/name.go
@@ -12,21 +12,21 @@ var Name = map[string][]uint32{
 	"mib2":         {1, 3, 6, 1, 2, 1},
 	"enterprises":  {1, 3, 6, 1, 4, 1},
 	// System
-	"system":          {1, 3, 6, 1, 2, 1},
-	"sysDescr":        {1, 3, 6, 1, 2, 1, 1}, // OctetString  read-only
-	"sysOid":          {1, 3, 6, 1, 2, 1, 2}, // ObjectID     read-only
-	"sysUpTime":       {1, 3, 6, 1, 2, 1, 3}, // TimeTicks    read-only
-	"sysContact":      {1, 3, 6, 1, 2, 1, 4}, // OctetString  read-write
-	"sysName":         {1, 3, 6, 1, 2, 1, 5}, // OctetString  read-write
-	"sysLocation":     {1, 3, 6, 1, 2, 1, 6}, // OctetString  read-write
-	"sysServices":     {1, 3, 6, 1, 2, 1, 7}, // Integer32    read-only
-	"sysORLastChange": {1, 3, 6, 1, 2, 1, 8}, // TimeTicks    read-only
-	"sysORTable":      {1, 3, 6, 1, 2, 1, 9},
-	"sysOREntry":      {1, 3, 6, 1, 2, 1, 9, 1},
-	"sysORIndex":      {1, 3, 6, 1, 2, 1, 9, 1, 1}, // Integer32    not-accessible
-	"sysORID":         {1, 3, 6, 1, 2, 1, 9, 1, 2}, // ObjectID     read-only
-	"sysORDescr":      {1, 3, 6, 1, 2, 1, 9, 1, 3}, // OctetString  read-only
-	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 9, 1, 4}, // TimeTicks    read-only
+	"system":          {1, 3, 6, 1, 2, 1, 1},
+	"sysDescr":        {1, 3, 6, 1, 2, 1, 1, 1}, // OctetString  read-only
+	"sysOid":          {1, 3, 6, 1, 2, 1, 1, 2}, // ObjectID     read-only
+	"sysUpTime":       {1, 3, 6, 1, 2, 1, 1, 3}, // TimeTicks    read-only
+	"sysContact":      {1, 3, 6, 1, 2, 1, 1, 4}, // OctetString  read-write
+	"sysName":         {1, 3, 6, 1, 2, 1, 1, 5}, // OctetString  read-write
+	"sysLocation":     {1, 3, 6, 1, 2, 1, 1, 6}, // OctetString  read-write
+	"sysServices":     {1, 3, 6, 1, 2, 1, 1, 7}, // Integer32    read-only
+	"sysORLastChange": {1, 3, 6, 1, 2, 1, 1, 8}, // TimeTicks    read-only
+	"sysORTable":      {1, 3, 6, 1, 2, 1, 1, 9},
+	"sysOREntry":      {1, 3, 6, 1, 2, 1, 1, 9, 1},
+	"sysORIndex":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 1}, // Integer32    not-accessible
+	"sysORID":         {1, 3, 6, 1, 2, 1, 1, 9, 1, 2}, // ObjectID     read-only
+	"sysORDescr":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 3}, // OctetString  read-only
+	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 1, 9, 1, 4}, // TimeTicks    read-only
 	// Interfaces
 	"interfaces":    {1, 3, 6, 1, 2, 1, 2},
 	"ifNumber":      {1, 3, 6, 1, 2, 1, 2, 1}, // Integer32  read-only
-- 
2.43.0


From c29f2982db1d54d4ecd256ff901cc5a99909792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:56 +0000
Subject: [PATCH 12/16] fix: log formats match their arguments

Three debug messages printed %!s(MISSING), %!(EXTRA ...) or %!d(string=...)
instead of the data.
---
 agentx/payload_params.go | 2 +-
 agentx/pdu.go            | 2 +-
 agentx/varbind.go        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 7d4931f..2bb27b2 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -138,7 +138,7 @@ func parseCloseParamsDbg(d decoderDbg, pos int) (PayloadParams, int) {
 	d.log.Write("parsing first 4 bytes")
 	data, pos := d.nextChunk(pos, 4)
 	p.Reason = CloseReason(data[0])
-	d.log.Writef("parsed Reason: %d", p.Reason.String())
+	d.log.Writef("parsed Reason: %s", p.Reason.String())
 	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
diff --git a/agentx/pdu.go b/agentx/pdu.go
index 032b1f4..123bfd2 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -303,7 +303,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
diff --git a/agentx/varbind.go b/agentx/varbind.go
index c927808..c19b7d1 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -48,8 +48,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From 5606578826b974c88af34493cf49e6582136e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:57 +0000
Subject: [PATCH 13/16] fix: Sequence is not a value tag

No value of that type can be carried in a varbind.
---
 asn/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn/value.go b/asn/value.go
index 9903273..ba8034a 100644
--- a/asn/value.go
+++ b/asn/value.go
@@ -15,7 +15,7 @@ func (tag Tag) IsKnown() (ok bool) {
 
 func (tag Tag) IsValueTag() (ok bool) {
 	_, ok = table[tag]
-	return
+	return ok && tag != TagSequence
 }
 
 func (tag Tag) String() string {
-- 
2.43.0


From 88c5e216c6b514fd29ec9f1bda4292d80520a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:18 +0000
Subject: [PATCH 14/16] fix: printing a PDU at a huge depth does not overflow
 the indentation

---
 internal/struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/struct.go b/internal/struct.go
index 36e521e..08aa36b 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -15,6 +15,10 @@ func StructString(s interface{}, depth int) string {
 		return "not struct"
 	}
 
+	// Indentation is limited to maxdepth levels, so nested
+	// levels can be counted from there without overflow.
+	depth = generics.Min(depth, maxdepth)
+
 	var sb strings.Builder
 	fprintStruct(&sb, v, depth)
 	return strings.Trim(sb.String(), "\n")
-- 
2.43.0


From 0341f82f1d1efb15b920e2bfa47a2f2bb2d2ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 15/16] fix: count the payload size in 64 bits on every
 platform

With a 32-bit int the sum wrapped around, and EncodePdu ran out of memory
(which cannot be recovered) instead of refusing a payload of 4 GB.
---
 agentx/pdu.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 123bfd2..d5cc987 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -35,19 +35,19 @@ func (pdu Pdu) String(depth int) string {
 // countPayloadSize returns number of bytes required for
 // encoding pdu payload. This function panics if pdu.Tag
 // is unknown or pdu.Params is nil.
-func (pdu Pdu) countPayloadSize() (size int) {
+func (pdu Pdu) countPayloadSize() (size int64) {
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-		size = octetStringEncodingSize(pdu.Context)
+		size = int64(octetStringEncodingSize(pdu.Context))
 	}
-	size += pdu.Params.encodingSize()
+	size += int64(pdu.Params.encodingSize())
 	if pduTable[pdu.Tag].includesRanges {
 		for _, r := range pdu.Ranges {
-			size += searchRangeEncodingSize(r)
+			size += int64(searchRangeEncodingSize(r))
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
 		for _, vb := range pdu.Varbinds {
-			size += varbindEncodingSize(vb)
+			size += int64(varbindEncodingSize(vb))
 		}
 	}
 	return
-- 
2.43.0


From 9b7f7fb0d1794f0c233f9d3d346ee13a0d0f7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:02 +0000
Subject: [PATCH 16/16] fix: let go of removed children

The slice of children kept pointers to removed nodes behind its end, so
removed subtrees and their data stayed in memory.
---
 oid/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 5e8102d..5ed27fe 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -54,7 +54,10 @@ func (node *Node) getChild(subid uint32) *Node {
 // such a child, and true otherwise.
 func (node *Node) removeChild(subid uint32) bool {
 	if ind, ok := node.searchChild(subid); ok {
-		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)
+		last := len(node.Children) - 1
+		copy(node.Children[ind:], node.Children[ind+1:])
+		node.Children[last] = nil // let go of the removed child
+		node.Children = node.Children[:last]
 		return true
 	}
 	return false
-- 
2.43.0

