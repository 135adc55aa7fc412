From 51fa97e4fcd87bfa61f6f4870610194e29b5d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:58 +0000
Subject: [PATCH 01/16] fix: compress an OID prefix only when its fifth
 sub-identifier is 1..255

A prefix byte of 0 means 'no prefix' (RFC 2741, 5.1), so 1.3.6.1.0.x and
1.3.6.1.256.x lost their first five sub-identifiers on the wire.
---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..714f765 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] != 0 && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] != 0 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..c18ae99 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] != 0 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From fc7844a6527496a38003acdc4b8e5c3717a93c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:58 +0000
Subject: [PATCH 02/16] fix: reject object identifiers with more than 128
 encoded sub-identifiers

The count is a single byte on the wire limited to 0-128 (RFC 2741, 5.1);
longer OIDs were encoded with a truncated count.
---
 agentx/encoding.go     | 10 ++++++++++
 agentx/encoding_dbg.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 714f765..b4bbfe6 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -156,6 +156,10 @@ func (d decoder) parseOctetString(data []byte) (val string, next []byte) {
 	return
 }
 
+// maxSubids is the maximum number of sub-identifiers which
+// can follow an object identifier header (RFC 2741, 5.1).
+const maxSubids = 128
+
 func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
@@ -179,6 +183,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
@@ -192,6 +199,9 @@ func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []
 	}
 	nsubids, prefix, include := int(data[0]), uint32(data[1]), data[2]
 	next = data[4:]
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	if nsubids == 0 && prefix == 0 {
 		return
 	}
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index c18ae99..7820ec5 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -175,6 +175,9 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
@@ -201,6 +204,9 @@ func (d *decoderDbg) parseObjectId(startpos int) (val []uint32, include byte, ne
 	if data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 	if nsubids == 0 && prefix == 0 {
 		d.log.Write("parsed ObjectId: <null>")
 		return
-- 
2.43.0


From cf66d145f8a40de158468d6176a33cae27b36676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:59 +0000
Subject: [PATCH 03/16] fix: reject a varbind type field which does not fit a
 known type

The 16-bit field was truncated to its low byte, so e.g. 0x0102 was
accepted as Integer32.
---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From 07cab3a716362fe8b329e11d497365591a03cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 04/16] fix: check the size of an Opaque value before
 allocating it

A 12-byte varbind could make the decoder allocate 2 GB.
---
 agentx/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index b4bbfe6..5d0f22e 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -253,6 +253,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	if int(size) > len(next) {
+		panic(ErrEncoding)
+	}
 	val = make([]byte, int(size))
 	copy(val, next[:int(size)])
 	next = next[int(size):]
-- 
2.43.0


From 5545fa6b84baf3cf6717b08c66fe984e9f23f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:27 +0000
Subject: [PATCH 05/16] fix: refuse to encode a pdu with flags its type does
 not allow

EncodePdu reported success for a pdu (e.g. Open with a non-default
context) whose header every decoder, including DecodePduHeader, rejects.
---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..f9228ff 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -67,6 +67,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		ok = false
 		return
 	}
+	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {
+		ok = false
+		return
+	}
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
@@ -197,6 +201,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 30ffecb4c3c74723bc71a00bfc02320e519b95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:28 +0000
Subject: [PATCH 06/16] fix: refuse to encode negative GetBulk params

They were encoded with ok = true although decoding rejects them.
---
 agentx/payload_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7a198bf 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,10 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		e.log.Write("!!! Error. NonRepeaters < 0 or MaxRepeatitions < 0")
+		panic(ErrEncoding)
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From ce40f8d7262470990e43352e21fe604335357b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:28 +0000
Subject: [PATCH 07/16] fix: DecodePduPayload checks data size against
 pdu.PayloadSize

DecodePduPayloadDbg, which is to be functionally equivalent, already did.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index f9228ff..87d1cbd 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -149,6 +149,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if ok = len(data) == int(pdu.PayloadSize); !ok {
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From 206698f13adb1cb624efc0f94b90ebd2a8c2e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:29 +0000
Subject: [PATCH 08/16] fix: payload decoding sets pdu.Ranges and pdu.Varbinds
 instead of extending them

Decoding into a pdu which already held ranges or varbinds appended to them.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 87d1cbd..56b79d4 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -162,6 +162,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 	pdu.Params, data = pduTable[pdu.Tag].parseParams(d, data)
 
 	if pduTable[pdu.Tag].includesRanges {
+		pdu.Ranges = nil
 		for len(data) > 0 {
 			var r SearchRange
 			r, data = d.parseSearchRange(data)
@@ -169,6 +170,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
+		pdu.Varbinds = nil
 		for len(data) > 0 {
 			var vb asn.Varbind
 			vb, data = d.parseVarbind(data)
@@ -376,6 +378,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 	pdu.Params, nextpos = pduTable[pdu.Tag].parseParamsDbg(d, nextpos)
 
 	if pduTable[pdu.Tag].includesRanges {
+		pdu.Ranges = nil
 		for nextpos < len(d.data) {
 			var r SearchRange
 			r, nextpos = d.parseSearchRange(nextpos)
@@ -383,6 +386,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
+		pdu.Varbinds = nil
 		for nextpos < len(d.data) {
 			var vb asn.Varbind
 			vb, nextpos = d.parseVarbind(nextpos)
-- 
2.43.0


From 90628b7aaa4df72325d5f33d1d3d9d79ddf774a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:30 +0000
Subject: [PATCH 09/16] fix: GetNextNode treats a leaf which is a proper prefix
 of a range bound correctly

Such a leaf precedes the bound: it was returned although less than oid1,
and skipped although less than oid2. The root of an empty tree, which is
not a leaf, was returned as well.
---
 oid/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..5ac56a1 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -126,7 +126,7 @@ func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition in
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			if node.Parent != nil && (!eq1 || include1 && ind >= len(oid1)) && (!eq2 || ind < len(oid2)) {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0


From d47d730c4d36942c1c3612c36f1c3038553b885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:31 +0000
Subject: [PATCH 10/16] fix: OIDs of the system group are under mib-2.1

system is 1.3.6.1.2.1.1 (RFC 3418); its objects collided with other
groups, e.g. sysOid with interfaces.
---
 oid/name.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/oid/name.go b/oid/name.go
index f6caa25..a6e42cc 100644
--- a/oid/name.go
+++ b/oid/name.go
@@ -12,21 +12,21 @@ var Name = map[string][]uint32{
 	"mib2":         {1, 3, 6, 1, 2, 1},
 	"enterprises":  {1, 3, 6, 1, 4, 1},
 	// System
-	"system":          {1, 3, 6, 1, 2, 1},
-	"sysDescr":        {1, 3, 6, 1, 2, 1, 1}, // OctetString  read-only
-	"sysOid":          {1, 3, 6, 1, 2, 1, 2}, // ObjectID     read-only
-	"sysUpTime":       {1, 3, 6, 1, 2, 1, 3}, // TimeTicks    read-only
-	"sysContact":      {1, 3, 6, 1, 2, 1, 4}, // OctetString  read-write
-	"sysName":         {1, 3, 6, 1, 2, 1, 5}, // OctetString  read-write
-	"sysLocation":     {1, 3, 6, 1, 2, 1, 6}, // OctetString  read-write
-	"sysServices":     {1, 3, 6, 1, 2, 1, 7}, // Integer32    read-only
-	"sysORLastChange": {1, 3, 6, 1, 2, 1, 8}, // TimeTicks    read-only
-	"sysORTable":      {1, 3, 6, 1, 2, 1, 9},
-	"sysOREntry":      {1, 3, 6, 1, 2, 1, 9, 1},
-	"sysORIndex":      {1, 3, 6, 1, 2, 1, 9, 1, 1}, // Integer32    not-accessible
-	"sysORID":         {1, 3, 6, 1, 2, 1, 9, 1, 2}, // ObjectID     read-only
-	"sysORDescr":      {1, 3, 6, 1, 2, 1, 9, 1, 3}, // OctetString  read-only
-	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 9, 1, 4}, // TimeTicks    read-only
+	"system":          {1, 3, 6, 1, 2, 1, 1},
+	"sysDescr":        {1, 3, 6, 1, 2, 1, 1, 1}, // OctetString  read-only
+	"sysOid":          {1, 3, 6, 1, 2, 1, 1, 2}, // ObjectID     read-only
+	"sysUpTime":       {1, 3, 6, 1, 2, 1, 1, 3}, // TimeTicks    read-only
+	"sysContact":      {1, 3, 6, 1, 2, 1, 1, 4}, // OctetString  read-write
+	"sysName":         {1, 3, 6, 1, 2, 1, 1, 5}, // OctetString  read-write
+	"sysLocation":     {1, 3, 6, 1, 2, 1, 1, 6}, // OctetString  read-write
+	"sysServices":     {1, 3, 6, 1, 2, 1, 1, 7}, // Integer32    read-only
+	"sysORLastChange": {1, 3, 6, 1, 2, 1, 1, 8}, // TimeTicks    read-only
+	"sysORTable":      {1, 3, 6, 1, 2, 1, 1, 9},
+	"sysOREntry":      {1, 3, 6, 1, 2, 1, 1, 9, 1},
+	"sysORIndex":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 1}, // Integer32    not-accessible
+	"sysORID":         {1, 3, 6, 1, 2, 1, 1, 9, 1, 2}, // ObjectID     read-only
+	"sysORDescr":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 3}, // OctetString  read-only
+	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 1, 9, 1, 4}, // TimeTicks    read-only
 	// Interfaces
 	"interfaces":    {1, 3, 6, 1, 2, 1, 2},
 	"ifNumber":      {1, 3, 6, 1, 2, 1, 2, 1}, // Integer32  read-only
-- 
2.43.0


From 4ff3a4f99f85af887983bbb1993066b7a40734c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:47 +0000
Subject: [PATCH 11/16] fix: Sequence is not a value tag

No value is valid for it and no varbind can carry it.
---
 asn/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn/value.go b/asn/value.go
index 9903273..ba8034a 100644
--- a/asn/value.go
+++ b/asn/value.go
@@ -15,7 +15,7 @@ func (tag Tag) IsKnown() (ok bool) {
 
 func (tag Tag) IsValueTag() (ok bool) {
 	_, ok = table[tag]
-	return
+	return ok && tag != TagSequence
 }
 
 func (tag Tag) String() string {
-- 
2.43.0


From 60690f3e1573041a54c328afe2fc50cda4860fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:48 +0000
Subject: [PATCH 12/16] fix: NotAllowedFlags of an unknown pdu tag does not
 panic

No flag is allowed for an unknown pdu (as it already was for tag 0).
---
 agentx/pdu_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentx/pdu_tag.go b/agentx/pdu_tag.go
index fd353a4..a11ad1f 100644
--- a/agentx/pdu_tag.go
+++ b/agentx/pdu_tag.go
@@ -39,6 +39,9 @@ func (tag PduTag) String() string {
 }
 
 func (tag PduTag) NotAllowedFlags(f Flags) Flags {
+	if !tag.IsKnown() {
+		return f
+	}
 	return f &^ pduTable[tag].allowedFlags
 }
 
-- 
2.43.0


From 34627feb7fafc10b44c01194642032429c50e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:50 +0000
Subject: [PATCH 13/16] fix: debug log records with formatting errors

Three records did not match their arguments, so the log showed
%!s(MISSING), %!(EXTRA ...) and %!d(string=...) instead of the data.
---
 agentx/payload_params.go | 2 +-
 agentx/pdu.go            | 2 +-
 agentx/varbind.go        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 7a198bf..7f864e3 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -138,7 +138,7 @@ func parseCloseParamsDbg(d decoderDbg, pos int) (PayloadParams, int) {
 	d.log.Write("parsing first 4 bytes")
 	data, pos := d.nextChunk(pos, 4)
 	p.Reason = CloseReason(data[0])
-	d.log.Writef("parsed Reason: %d", p.Reason.String())
+	d.log.Writef("parsed Reason: %s", p.Reason.String())
 	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
diff --git a/agentx/pdu.go b/agentx/pdu.go
index 56b79d4..c9280df 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -294,7 +294,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
diff --git a/agentx/varbind.go b/agentx/varbind.go
index c927808..c19b7d1 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -48,8 +48,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From 335a77cc737f534a20d285054c1ef6d7f4469499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:26 +0000
Subject: [PATCH 14/16] fix: console Writef ends every record with a newline

With surplus arguments or a format ending in a percent sign the newline
was taken as part of the format, so the record was not followed by one.
---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 2784e2f..e1feb28 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -18,5 +18,5 @@ func (console) Write(msg string) {
 }
 
 func (console) Writef(format string, args ...interface{}) {
-	fmt.Printf(format+"\n", args...)
+	fmt.Println(fmt.Sprintf(format, args...))
 }
-- 
2.43.0


From aec0e18bd0520c7b509d50674c7353860b6a728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:56 +0000
Subject: [PATCH 15/16] fix: payload decoding resets the payload fields which
 the pdu does not include

DecodePduPayload and its debug version set all payload fields now; a pdu
variable that was used before kept its old Context, Ranges or Varbinds.
---
 agentx/pdu.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index c9280df..22b6c69 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -153,6 +153,8 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		return
 	}
 
+	pdu.Context, pdu.Ranges, pdu.Varbinds = "", nil, nil
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
@@ -162,7 +164,6 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 	pdu.Params, data = pduTable[pdu.Tag].parseParams(d, data)
 
 	if pduTable[pdu.Tag].includesRanges {
-		pdu.Ranges = nil
 		for len(data) > 0 {
 			var r SearchRange
 			r, data = d.parseSearchRange(data)
@@ -170,7 +171,6 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
-		pdu.Varbinds = nil
 		for len(data) > 0 {
 			var vb asn.Varbind
 			vb, data = d.parseVarbind(data)
@@ -362,6 +362,8 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		return
 	}
 
+	pdu.Context, pdu.Ranges, pdu.Varbinds = "", nil, nil
+
 	d := decoderDbg{
 		byteOrder: pdu.Flags.byteOrder(),
 		data:      data,
@@ -378,7 +380,6 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 	pdu.Params, nextpos = pduTable[pdu.Tag].parseParamsDbg(d, nextpos)
 
 	if pduTable[pdu.Tag].includesRanges {
-		pdu.Ranges = nil
 		for nextpos < len(d.data) {
 			var r SearchRange
 			r, nextpos = d.parseSearchRange(nextpos)
@@ -386,7 +387,6 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
-		pdu.Varbinds = nil
 		for nextpos < len(d.data) {
 			var vb asn.Varbind
 			vb, nextpos = d.parseVarbind(nextpos)
-- 
2.43.0


From 8bc008c7c1d9f985eb2c1a0e14ae3b9e350b6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 16/16] fix: refuse to encode a PDU whose payload exceeds the
 length field

The payload size was truncated to int32, so that a PDU with a payload of
2 GB or more was encoded with a negative or wrong payload length.
---
 agentx/pdu.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 22b6c69..36e6ad6 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -1,6 +1,8 @@
 package agentx
 
 import (
+	"math"
+
 	"github.com/alexispb/mygosnmp/asn"
 	"github.com/alexispb/mygosnmp/hex"
 	"github.com/alexispb/mygosnmp/internal"
@@ -74,6 +76,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
+	if payloadSize > math.MaxInt32 {
+		ok = false
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
@@ -214,8 +220,12 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 	}
 
 	payloadSize := pdu.countPayloadSize()
-	pdu.PayloadSize = int32(payloadSize)
 	log.Writef("counted payload size: %d", payloadSize)
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		log.Writef("!!! Error. Payload size %d > %d", payloadSize, math.MaxInt32)
+		return
+	}
+	pdu.PayloadSize = int32(payloadSize)
 
 	log.Writef("creating data slice with cap = %d", PduHeaderSize+payloadSize)
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
-- 
2.43.0

