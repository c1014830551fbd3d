From f2bd7f8c478d7c39a9c4fcf66112436526dc621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:24 +0000
Subject: [PATCH 01/49] fix: reject a frame with a single content byte instead
 of panicking

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..336da64 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -71,7 +71,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 		return errors.ErrInvalidMessage
 	}
 	data = data[1 : len(data)-1]
-	if len(data) == 0 {
+	if len(data) < 2 {
 		return errors.ErrInvalidMessage
 	}
 
-- 
2.43.0


From 1708a26139e6ff30bf73303c06449a9a885736e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:42 +0000
Subject: [PATCH 02/49] fix: encode a message without body instead of panicking

---
 protocol/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 336da64..f8d3bc5 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -44,7 +44,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	checkSum, count = message.computeChecksum(body, checkSum, count)
 
 	// 编码消息头
-	message.Header.MsgID = message.Body.MsgID()
+	if message.Body != nil {
+		message.Header.MsgID = message.Body.MsgID()
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From cd624ae58335e9451767896de007fc8c7dc9386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 03/49] fix: refuse bodies of 64 KiB and more instead of
 wrapping their length

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index f8d3bc5..217fb15 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -47,6 +47,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	if message.Body != nil {
 		message.Header.MsgID = message.Body.MsgID()
 	}
+	if len(body) > 0xffff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5c52311e00d926e6d3e664d617184adae98edb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:45 +0000
Subject: [PATCH 04/49] fix: compare the declared body length without wrapping
 the actual one

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 217fb15..554e93b 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -145,7 +145,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
-	if uint16(len(buffer)) != header.Property.GetBodySize() {
+	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
 			"expect": header.Property.GetBodySize(),
-- 
2.43.0


From 984afc5eb30942b1eb1122d2b4046b97bdf3a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:47 +0000
Subject: [PATCH 05/49] fix: refuse a sub-packaged header without packet
 numbers instead of panicking

---
 protocol/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..8ba34b5 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -30,6 +30,8 @@ func (header *Header) Encode() ([]byte, error) {
 	// 写入消息体属性
 	if header.Packet != nil {
 		header.Property.enablePacket()
+	} else if header.Property.IsEnablePacket() {
+		return nil, errors.ErrInvalidHeader
 	}
 	writer.WriteUint16(uint16(header.Property))
 
-- 
2.43.0


From 6d3e07fee480470bdd5ba4113722b2815d4adad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:48 +0000
Subject: [PATCH 06/49] fix: refuse terminal numbers of more than 12 digits
 instead of sending other ones

---
 protocol/header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 8ba34b5..da05fc8 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -36,6 +36,9 @@ func (header *Header) Encode() ([]byte, error) {
 	writer.WriteUint16(uint16(header.Property))
 
 	// 写入终端号码
+	if header.IccID > 999999999999 {
+		return nil, errors.ErrInvalidHeader
+	}
 	writer.Write(stringToBCD(strconv.FormatUint(header.IccID, 10), 6))
 
 	// 写入消息流水号
-- 
2.43.0


From 4603dea763db516cf10d966c6397ff44bc8bece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:17 +0000
Subject: [PATCH 07/49] fix: keep leading zeros of BCD numbers (terminal number
 0, years 2000-2009, times before 01:00)

---
 protocol/header.go  |  2 +-
 protocol/helpers.go | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/protocol/header.go b/protocol/header.go
index da05fc8..b947bc2 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -76,7 +76,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
 		return err
 	}
diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..1cfd15f 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,16 +90,6 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
-		if len(data) == 0 {
-			return ""
-		}
-		if data[0] != 0 {
-			break
-		}
-		data = data[1:]
-	}
-
 	buf := make([]byte, 0, len(data)*2)
 	for i := 0; i < len(data); i++ {
 		buf = append(buf, data[i]&0xf0>>4+'0')
@@ -112,6 +102,7 @@ func bcdToString(data []byte, ignorePadding ...bool) string {
 				return string(buf[idx:])
 			}
 		}
+		return ""
 	}
 	return string(buf)
 }
@@ -129,7 +120,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From a0dad985badeb1eb56d0db4c3d4dd3fdddeec50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:19 +0000
Subject: [PATCH 08/49] fix: reject CAN receive times of 24 hours and more,
 which cannot be encoded

---
 protocol/t808_0x0705.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 0bea529..2887c6f 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -83,6 +83,9 @@ func (entity *T808_0x0705) Decode(data []byte) (int, error) {
 		time.Duration(minute)*time.Minute +
 		time.Duration(second)*time.Second +
 		time.Duration(millisecond)*time.Millisecond
+	if entity.ReceiveTime >= time.Hour*24 {
+		return 0, ErrInvalidBody
+	}
 
 	// 读取CAN总线数据项
 	entity.Items = make([]T808_0x0705_CAN, 0, count)
-- 
2.43.0


From 00975524a2f76848cd4c8954130b3b63ac9f0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:39 +0000
Subject: [PATCH 09/49] fix: accept empty parameter, area and point lists when
 decoding

---
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 protocol/t808_0x8600.go | 2 +-
 protocol/t808_0x8602.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..bcc3aa8 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -36,7 +36,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..a7802b9 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -31,7 +31,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index dbe09e3..9f460b6 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -148,7 +148,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8600) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a6daa5..9a0bd30 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -113,7 +113,7 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8602) Decode(data []byte) (int, error) {
-	if len(data) < 24 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 80400f5..109a040 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -94,7 +94,7 @@ func (entity *T808_0x8604) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8604) Decode(data []byte) (int, error) {
-	if len(data) < 16 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From 8584886398d02f0f2c6a6c32dd615ececa974fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:40 +0000
Subject: [PATCH 10/49] fix: report damaged compressed data instead of
 delivering part of it

---
 protocol/t808_0x0901.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..4648008 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -63,7 +63,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From f84eddf87f9ad2376460564778d5bd1b731caed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:42 +0000
Subject: [PATCH 11/49] fix: refuse to encode an empty authentication code,
 which no decoder accepts

---
 protocol/t808_0x0102.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocol/t808_0x0102.go b/protocol/t808_0x0102.go
index c73e3f7..a1658f1 100644
--- a/protocol/t808_0x0102.go
+++ b/protocol/t808_0x0102.go
@@ -11,11 +11,12 @@ func (entity *T808_0x0102) MsgID() MsgID {
 }
 
 func (entity *T808_0x0102) Encode() ([]byte, error) {
+	if len(entity.AuthKey) == 0 {
+		return nil, ErrInvalidBody
+	}
 	writer := NewWriter()
-	if len(entity.AuthKey) > 0 {
-		if err := writer.WritString(entity.AuthKey); err != nil {
-			return nil, err
-		}
+	if err := writer.WritString(entity.AuthKey); err != nil {
+		return nil, err
 	}
 	return writer.Bytes(), nil
 }
-- 
2.43.0


From 097f4542b3ae687ae866dd53c40ad8e3fb8ab1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:00 +0000
Subject: [PATCH 12/49] fix: keep the payload of decoded location extras so
 that they can be encoded again

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..f4921fc 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..9702b2c 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..8cc30f4 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..c3123be 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..6361e0d 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte(nil), data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte(nil), data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..23a8b95 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte(nil), data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..39d8a8c 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte(nil), data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..2b85477 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..345010f 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..6c56444 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..56122e9 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..2bc0187 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From e77312f347aac14f5649526431bac8296e8e303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:20 +0000
Subject: [PATCH 13/49] fix: refuse texts, values and lists longer than their
 one-byte length prefix

---
 protocol/t808_0x0104.go | 3 +++
 protocol/t808_0x0107.go | 6 ++++++
 protocol/t808_0x0200.go | 3 +++
 protocol/t808_0x0702.go | 6 ++++++
 protocol/t808_0x8003.go | 3 +++
 protocol/t808_0x8103.go | 3 +++
 protocol/t808_0x8108.go | 3 +++
 protocol/t808_0x8301.go | 6 ++++++
 protocol/t808_0x8302.go | 6 ++++++
 protocol/t808_0x8303.go | 3 +++
 protocol/t808_0x8401.go | 9 +++++++++
 protocol/t808_0x8800.go | 3 +++
 12 files changed, 54 insertions(+)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index bcc3aa8..3c88c00 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -27,6 +27,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
+		if len(param.serialized) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(param.serialized)))
 
 		// 写入参数数据
diff --git a/protocol/t808_0x0107.go b/protocol/t808_0x0107.go
index 93a1e0d..b8ac869 100644
--- a/protocol/t808_0x0107.go
+++ b/protocol/t808_0x0107.go
@@ -52,11 +52,17 @@ func (entity *T808_0x0107) Encode() ([]byte, error) {
 
 	// 写入终端硬件版本
 	hardwareVersion := []byte(entity.HardwareVersion)
+	if len(hardwareVersion) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(hardwareVersion)))
 	writer.Write(hardwareVersion)
 
 	// 写入终端固件版本号
 	softwareVersion := []byte(entity.SoftwareVersion)
+	if len(softwareVersion) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(softwareVersion)))
 	writer.Write(softwareVersion)
 
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 0b8d433..55c1e96 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -146,6 +146,9 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 			continue
 		}
 		data := ext.Data()
+		if len(data) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		full := make([]byte, len(data)+2)
 		full[0], full[1] = ext.ID(), byte(len(data))
 		copy(full[2:], data)
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..ee5fa85 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -57,6 +57,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(driverName) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(driverName)))
 	writer.Write(driverName)
 
@@ -76,6 +79,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(companyName) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(companyName)))
 	writer.Write(companyName)
 
diff --git a/protocol/t808_0x8003.go b/protocol/t808_0x8003.go
index 0255a2a..5a946d2 100644
--- a/protocol/t808_0x8003.go
+++ b/protocol/t808_0x8003.go
@@ -19,6 +19,9 @@ func (entity *T808_0x8003) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.MsgSerialNo)
 
 	// 写入重传包总数
+	if len(entity.PacketIDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.PacketIDs)))
 
 	// 写入重传包 ID 列表
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index a7802b9..c4d222b 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -22,6 +22,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
+		if len(param.serialized) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(param.serialized)))
 
 		// 写入参数数据
diff --git a/protocol/t808_0x8108.go b/protocol/t808_0x8108.go
index 0c0a489..cb8204d 100644
--- a/protocol/t808_0x8108.go
+++ b/protocol/t808_0x8108.go
@@ -44,6 +44,9 @@ func (entity *T808_0x8108) Encode() ([]byte, error) {
 	}
 
 	// 写入版本长度
+	if len(version) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(version)))
 
 	// 写入版本信息
diff --git a/protocol/t808_0x8301.go b/protocol/t808_0x8301.go
index db45e19..9b5a225 100644
--- a/protocol/t808_0x8301.go
+++ b/protocol/t808_0x8301.go
@@ -34,6 +34,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 	writer.WriteByte(entity.Type)
 
 	// 写入事件数量
+	if len(entity.Events) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Events)))
 
 	// 写入事件列表
@@ -48,6 +51,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(content) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(content)))
 
 		// 写入事件内容
diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index ed47e2a..f186d10 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -42,6 +42,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(question) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(question)))
 
 	// 写入问题内容
@@ -59,6 +62,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(content) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(content)))
 
 		// 写入答案内容
diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index b378e50..4f7ca66 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -46,6 +46,9 @@ func (entity *T808_0x8303) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入信息项总数
+	if len(entity.Items) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Items)))
 
 	// 写入信息项列表
diff --git a/protocol/t808_0x8401.go b/protocol/t808_0x8401.go
index a1f72b9..70e5da9 100644
--- a/protocol/t808_0x8401.go
+++ b/protocol/t808_0x8401.go
@@ -62,6 +62,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入联系人总数
+	if len(entity.Contacts) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Contacts)))
 
 	// 写入联系人列表
@@ -76,6 +79,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(number) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(number)))
 
 		// 写入电话号码
@@ -88,6 +94,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(contact) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(contact)))
 
 		// 写入联系人
diff --git a/protocol/t808_0x8800.go b/protocol/t808_0x8800.go
index 6a5f5de..141d95b 100644
--- a/protocol/t808_0x8800.go
+++ b/protocol/t808_0x8800.go
@@ -23,6 +23,9 @@ func (entity *T808_0x8800) Encode() ([]byte, error) {
 	}
 
 	// 写入重传消息数
+	if len(entity.RetryIDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.RetryIDs)))
 
 	// 写入重传消息ID
-- 
2.43.0


From 4b589f024056a8f4c73a55203bc341701e231ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:40 +0000
Subject: [PATCH 14/49] fix: refuse to send a message marked encrypted in the
 clear when there is no key

---
 protocol/message.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 554e93b..95ca2b0 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -39,6 +39,8 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 				}).Warn("[JT/T808] encrypt body failed")
 				return nil, err
 			}
+		} else if message.Header.Property.IsEnableEncrypt() {
+			return nil, errors.ErrInvalidHeader
 		}
 	}
 	checkSum, count = message.computeChecksum(body, checkSum, count)
-- 
2.43.0


From 30d4c1774d0f864b1916b25c281f54cf78480a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 15/49] fix: create the part directory searchable, so that
 parts can be written without root

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 654713a..b73e936 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From c0bdaf4ec1033e8eecadb5998848fbecee243eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:34 +0000
Subject: [PATCH 16/49] fix: treat a missing part directory as having no parts
 instead of panicking

---
 multipart.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multipart.go b/multipart.go
index b73e936..0b2de64 100644
--- a/multipart.go
+++ b/multipart.go
@@ -109,6 +109,12 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if os.IsNotExist(err) {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From d7f85c4a70e8dcf1d81f0bae85884f4ef671e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:36 +0000
Subject: [PATCH 17/49] fix: do not leave the tail of an earlier longer upload
 in the merged file

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 0b2de64..6418e27 100644
--- a/multipart.go
+++ b/multipart.go
@@ -71,7 +71,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 85c7df0b3e612c2eeb8846348143604bd621f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:37 +0000
Subject: [PATCH 18/49] fix: merge only the parts that belong to the upload

---
 multipart.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multipart.go b/multipart.go
index 6418e27..72c5c39 100644
--- a/multipart.go
+++ b/multipart.go
@@ -79,6 +79,9 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sort.Sort(inputs)
 	for _, part := range inputs {
+		if part.seq == 0 || part.seq > m.Sum {
+			continue
+		}
 		if _, err = io.Copy(w, part.f); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 43f5f0a6ac3e4deab94c74b8533dc8252d4a6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:39 +0000
Subject: [PATCH 19/49] fix: remove the parts of a merged upload, so that they
 do not complete the next one

---
 multipart.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multipart.go b/multipart.go
index 72c5c39..a792ad7 100644
--- a/multipart.go
+++ b/multipart.go
@@ -86,6 +86,11 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 			return nil, err
 		}
 	}
+
+	// 删除分包文件
+	for _, part := range inputs {
+		os.Remove(part.path)
+	}
 	return os.OpenFile(full, os.O_RDONLY, 0644)
 }
 
-- 
2.43.0


From 776696eec7faff442ac0d0d4364f2fc6db4d930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:40 +0000
Subject: [PATCH 20/49] fix: merge an upload when its last missing part
 arrives, whichever it is

---
 session_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session_handler.go b/session_handler.go
index 9161c84..efd7717 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -91,7 +91,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if !multipartFile.IsFull() {
 			continue
 		}
 
-- 
2.43.0


From fed053e64c97347b51e347bfc7c5ef1bc96b7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:34 +0000
Subject: [PATCH 21/49] fix: report and unregister sessions closed before their
 close callback was added

---
 session_handler.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index efd7717..282875d 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"reflect"
 	"strconv"
+	"sync"
 )
 
 // Session处理
@@ -27,9 +28,17 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	handler.server.sessions[sess.ID()] = session
 	handler.server.mutex.Unlock()
 	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-	sess.AddCloseCallback(nil, nil, func() {
-		handler.server.handleClose(session)
-	})
+	var once sync.Once
+	handleClose := func() {
+		once.Do(func() {
+			handler.server.handleClose(session)
+		})
+	}
+	sess.AddCloseCallback(nil, nil, handleClose)
+	if sess.IsClosed() {
+		// 添加回调之前连接已关闭
+		handleClose()
+	}
 
 	for {
 		// 接收消息
-- 
2.43.0


From a6d23db5763f5f18a61d0647c011837b05940ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:35 +0000
Subject: [PATCH 22/49] fix: address the replies to undecodable messages and
 parts to the sending terminal

---
 session.go         | 15 +++++++++------
 session_handler.go |  1 +
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..17884c8 100644
--- a/session.go
+++ b/session.go
@@ -134,20 +134,23 @@ func (session *Session) nextID() uint16 {
 	return uint16(id)
 }
 
-// 消息接收事件
-func (session *Session) message(message *protocol.Message) {
-	if message.Header.IccID > 0 {
+// 更新终端号码
+func (session *Session) updateIccID(iccID uint64) {
+	if iccID > 0 {
 		old := atomic.LoadUint64(&session.iccID)
-		if old != 0 && old != message.Header.IccID {
+		if old != 0 && old != iccID {
 			log.WithFields(log.Fields{
 				"id":  session.ID(),
 				"old": old,
-				"new": message.Header.IccID,
+				"new": iccID,
 			}).Warn("[JT/T 808] terminal IccID is inconsistent")
 		}
-		atomic.StoreUint64(&session.iccID, message.Header.IccID)
+		atomic.StoreUint64(&session.iccID, iccID)
 	}
+}
 
+// 消息接收事件
+func (session *Session) message(message *protocol.Message) {
 	var msgSerialNo uint16
 	switch message.Header.MsgID {
 	case protocol.MsgT808_0x0001:
diff --git a/session_handler.go b/session_handler.go
index 282875d..800d78d 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -50,6 +50,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
+		session.updateIccID(message.Header.IccID)
 		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
-- 
2.43.0


From be9ac4890cbd97f15ff42a74f9c5281011b09505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:37 +0000
Subject: [PATCH 23/49] fix: count every received message as activity, also
 those without handler

---
 server.go          | 1 -
 session_handler.go | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index c2d58eb..dc52f9a 100644
--- a/server.go
+++ b/server.go
@@ -187,6 +187,5 @@ func (server *Server) dispatchMessage(session *Session, message *protocol.Messag
 			debug.PrintStack()
 		}
 	}()
-	server.timer.Update(strconv.FormatUint(session.ID(), 10))
 	handler.(MessageHandler)(session, message)
 }
diff --git a/session_handler.go b/session_handler.go
index 800d78d..03213b8 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -51,6 +51,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		// 分发消息
 		message := msg.(protocol.Message)
 		session.updateIccID(message.Header.IccID)
+		handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
 		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
-- 
2.43.0


From 3448f5a8d030fcbdc781ffd99055af1ae9e1f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:38 +0000
Subject: [PATCH 24/49] fix: replace a timer entry atomically, so that
 concurrent updates leave no orphan

---
 timer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timer.go b/timer.go
index b815b81..23e1e26 100644
--- a/timer.go
+++ b/timer.go
@@ -89,10 +89,12 @@ func (timer *CountdownTimer) Update(key string) {
 		Key:    key,
 		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
 	}
-	timer.Remove(key)
 
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	if old, ok := timer.mapper[key]; ok {
+		timer.q.Remove(old)
+	}
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
-- 
2.43.0


From 5b1b5fbf45c1137da77732cafbf49c2cd96c19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:02 +0000
Subject: [PATCH 25/49] fix: do not crash on an answer whose message type was
 re-registered by the user

---
 session.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/session.go b/session.go
index 17884c8..61661d1 100644
--- a/session.go
+++ b/session.go
@@ -152,31 +152,31 @@ func (session *Session) updateIccID(iccID uint64) {
 // 消息接收事件
 func (session *Session) message(message *protocol.Message) {
 	var msgSerialNo uint16
-	switch message.Header.MsgID {
-	case protocol.MsgT808_0x0001:
+	switch body := message.Body.(type) {
+	case *protocol.T808_0x0001:
 		// 终端通用应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0104:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0104:
 		// 查询终端参数应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0104).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0201:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0201:
 		// 位置信息查询应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0201).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0302:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0302:
 		// 提问应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0302).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0500:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0500:
 		// 车辆控制应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0500).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0700:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0700:
 		// 行驶记录数据上传
-		msgSerialNo = message.Body.(*protocol.T808_0x0700).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0802:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0802:
 		// 存储多媒体数据检索应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0802).ReplyMsgSerialNo
-	case protocol.MsgT808_0x0805:
+		msgSerialNo = body.ReplyMsgSerialNo
+	case *protocol.T808_0x0805:
 		// 摄像头立即拍摄命令应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0805).ReplyMsgSerialNo
+		msgSerialNo = body.ReplyMsgSerialNo
 	}
 	if msgSerialNo == 0 {
 		return
-- 
2.43.0


From e1859f78af6903e1d17a7ad8ff546152076d713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 26/49] fix: register a request's callback before sending, so
 that a fast answer is not lost

---
 session.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/session.go b/session.go
index 61661d1..9d5e7ea 100644
--- a/session.go
+++ b/session.go
@@ -68,6 +68,11 @@ func (session *Session) SetPublicKey(publicKey *rsa.PublicKey) {
 
 // 发送消息
 func (session *Session) Send(entity protocol.Entity) (uint16, error) {
+	return session.send(entity, nil)
+}
+
+// 发送消息，并在发送前登记应答回调
+func (session *Session) send(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
 	message := protocol.Message{
 		Body: entity,
 		Header: protocol.Header{
@@ -77,8 +82,18 @@ func (session *Session) Send(entity protocol.Entity) (uint16, error) {
 		},
 	}
 
+	if cb != nil {
+		session.addRequestContext(requestContext{
+			msgID:    uint16(entity.MsgID()),
+			serialNo: message.Header.MsgSerialNo,
+			callback: cb,
+		})
+	}
 	err := session.session.Send(message)
 	if err != nil {
+		if cb != nil {
+			session.takeRequestContext(message.Header.MsgSerialNo)
+		}
 		return 0, err
 	}
 	return message.Header.MsgSerialNo, nil
@@ -96,19 +111,7 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
-	serialNo, err := session.Send(entity)
-	if err != nil {
-		return 0, err
-	}
-
-	if cb != nil {
-		session.addRequestContext(requestContext{
-			msgID:    uint16(entity.MsgID()),
-			serialNo: serialNo,
-			callback: cb,
-		})
-	}
-	return serialNo, nil
+	return session.send(entity, cb)
 }
 
 // 关闭连接
-- 
2.43.0


From cf072ef5a0579cc7c3a6164a086f8fed6e030faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:05 +0000
Subject: [PATCH 27/49] fix: drop a pending request when its serial number is
 reused

---
 session.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session.go b/session.go
index 9d5e7ea..c466c73 100644
--- a/session.go
+++ b/session.go
@@ -82,6 +82,8 @@ func (session *Session) send(entity protocol.Entity, cb func(answer *protocol.Me
 		},
 	}
 
+	// 流水号被重新使用，之前的请求作废
+	session.takeRequestContext(message.Header.MsgSerialNo)
 	if cb != nil {
 		session.addRequestContext(requestContext{
 			msgID:    uint16(entity.MsgID()),
-- 
2.43.0


From be8ae5c6d443ffb0636b1d142121383c26c51818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:15 +0000
Subject: [PATCH 28/49] fix: reject a frame whose checksum is a bare escape
 byte

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 95ca2b0..7c03eae 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -85,6 +85,9 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	// 获取校验和
 	sum := data[len(data)-1]
 	if data[len(data)-2] != EscapeByte {
+		if sum == EscapeByte {
+			return errors.ErrInvalidMessage
+		}
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From 2047486b564bf55d45eb7a70f2e34121916b16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 29/49] fix: guard the codec's public key, which is set while
 messages are sent

---
 protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 27305fb..447bf93 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"sync"
 )
 
 type Protocol struct {
@@ -33,6 +34,7 @@ type ProtocolCodec struct {
 	w               io.Writer
 	r               io.Reader
 	closer          io.Closer
+	mutex           sync.RWMutex
 	publicKey       *rsa.PublicKey
 	privateKey      *rsa.PrivateKey
 	bufferReceiving *bytes.Buffer
@@ -40,11 +42,15 @@ type ProtocolCodec struct {
 
 // 获取RSA公钥
 func (codec *ProtocolCodec) GetPublicKey() *rsa.PublicKey {
+	codec.mutex.RLock()
+	defer codec.mutex.RUnlock()
 	return codec.publicKey
 }
 
 // 设置RSA公钥
 func (codec *ProtocolCodec) SetPublicKey(publicKey *rsa.PublicKey) {
+	codec.mutex.Lock()
+	defer codec.mutex.Unlock()
 	codec.publicKey = publicKey
 }
 
@@ -68,10 +74,11 @@ func (codec *ProtocolCodec) Send(msg interface{}) error {
 
 	var err error
 	var data []byte
-	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
+	publicKey := codec.GetPublicKey()
+	if publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
 		data, err = message.Encode()
 	} else {
-		data, err = message.Encode(codec.publicKey)
+		data, err = message.Encode(publicKey)
 	}
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From 645eac364bbb34477be2770f04cc4f94af583746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 30/49] fix: guard the server's listener against concurrent Run
 and Stop

---
 server.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index dc52f9a..a5b07e9 100644
--- a/server.go
+++ b/server.go
@@ -60,29 +60,43 @@ func NewServer(options Options) (*Server, error) {
 
 // 运行服务
 func (server *Server) Run(network string, port int) error {
+	address := fmt.Sprintf("0.0.0.0:%d", port)
+	s, err := server.listen(network, address)
+	if err != nil {
+		return err
+	}
+	log.Infof("[JT/T 808] protocol server started on %s", address)
+	return s.Serve()
+}
+
+// 监听端口
+func (server *Server) listen(network, address string) (*link.Server, error) {
+	server.mutex.Lock()
+	defer server.mutex.Unlock()
 	if server.server != nil {
-		return errors.New("server already running")
+		return nil, errors.New("server already running")
 	}
 
-	address := fmt.Sprintf("0.0.0.0:%d", port)
 	listen, err := net.Listen(network, address)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	p := Protocol{
 		privateKey: server.privateKey,
 	}
 	server.server = link.NewServer(listen, &p, 24, server.handler)
-	log.Infof("[JT/T 808] protocol server started on %s", address)
-	return server.server.Serve()
+	return server.server, nil
 }
 
 // 停止服务
 func (server *Server) Stop() {
-	if server.server != nil {
-		server.server.Stop()
-		server.server = nil
+	server.mutex.Lock()
+	s := server.server
+	server.server = nil
+	server.mutex.Unlock()
+	if s != nil {
+		s.Stop()
 	}
 }
 
-- 
2.43.0


From b9168f207745643929bacc092bec30901465eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 31/49] fix: do not keep the body of an earlier message when
 the new one has none

---
 protocol/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7c03eae..80841ce 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -150,6 +150,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
+	var body Entity
 	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
@@ -178,7 +179,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 
 		entity, _, err := message.decode(uint16(header.MsgID), buffer)
 		if err == nil {
-			message.Body = entity
+			body = entity
 		} else {
 			log.WithFields(log.Fields{
 				"id":     fmt.Sprintf("0x%x", header.MsgID),
@@ -187,6 +188,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 		}
 	}
 	message.Header = header
+	message.Body = body
 	return nil
 }
 func (message *Message) decode(typ uint16, data []byte) (Entity, int, error) {
-- 
2.43.0


From 58ff06c9abe95ce555c1924379165523b8943d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 32/49] fix: do not overwrite a merged upload that is still
 being read

---
 multipart.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multipart.go b/multipart.go
index a792ad7..c1b0b85 100644
--- a/multipart.go
+++ b/multipart.go
@@ -71,6 +71,10 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
+	// 之前合并的文件可能仍在读取，不能覆盖其内容
+	if err = os.Remove(full); err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
 	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 25f27e142949aa2d3272f722177a18e6649e9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 33/49] fix: do not change location, circle, CAN and media
 messages by encoding them

---
 protocol/t808_0x0200.go | 7 ++++---
 protocol/t808_0x0705.go | 7 ++++---
 protocol/t808_0x0801.go | 5 +++--
 protocol/t808_0x8600.go | 2 +-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 55c1e96..dfa51bf 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -108,18 +108,19 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 	writer.WriteUint32(entity.Alarm)
 
 	// 计算经纬度
+	status := entity.Status
 	mul := decimal.NewFromFloat(1000000)
 	lat := entity.Lat.Mul(mul).IntPart()
 	if lat < 0 {
-		entity.Status.SetSouthLatitude(true)
+		status.SetSouthLatitude(true)
 	}
 	lng := entity.Lng.Mul(mul).IntPart()
 	if lng < 0 {
-		entity.Status.SetWestLongitude(true)
+		status.SetWestLongitude(true)
 	}
 
 	// 写入状态信息
-	writer.WriteUint32(uint32(entity.Status))
+	writer.WriteUint32(uint32(status))
 
 	// 写入纬度信息
 	writer.WriteUint32(uint32(math.Abs(float64(lat))))
diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 2887c6f..6636694 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -38,10 +38,11 @@ func (entity *T808_0x0705) Encode() ([]byte, error) {
 	writer.WriteUint16(uint16(len(entity.Items)))
 
 	// 写入数据接收时间
-	if entity.ReceiveTime > time.Hour*24 {
-		entity.ReceiveTime = time.Hour * 24
+	receiveTime := entity.ReceiveTime
+	if receiveTime > time.Hour*24 {
+		receiveTime = time.Hour * 24
 	}
-	t := time.Time{}.Add(entity.ReceiveTime)
+	t := time.Time{}.Add(receiveTime)
 	s := fmt.Sprintf("%02d%02d%02d%04d",
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/int(time.Millisecond))
 	writer.Write(stringToBCD(s), 5)
diff --git a/protocol/t808_0x0801.go b/protocol/t808_0x0801.go
index b6aed99..629fc89 100644
--- a/protocol/t808_0x0801.go
+++ b/protocol/t808_0x0801.go
@@ -47,8 +47,9 @@ func (entity *T808_0x0801) Encode() ([]byte, error) {
 	writer.WriteByte(entity.ChannelID)
 
 	// 写入定位信息
-	entity.Location.Extras = nil
-	data, err := entity.Location.Encode()
+	location := entity.Location
+	location.Extras = nil
+	data, err := location.Encode()
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index 9f460b6..d90d2d1 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -99,7 +99,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 
 	// 写入区域信息
 	for idx := range entity.Items {
-		item := &entity.Items[idx]
+		item := entity.Items[idx]
 
 		// 写入区域ID
 		writer.WriteUint32(item.ID)
-- 
2.43.0


From 2b5d82392a339c2c5307c219bbf9204c1fd06055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:27 +0000
Subject: [PATCH 34/49] fix: complete an upload once when its last parts arrive
 over two connections at once

---
 server.go          | 3 +++
 session_handler.go | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/server.go b/server.go
index a5b07e9..8b91573 100644
--- a/server.go
+++ b/server.go
@@ -31,6 +31,9 @@ type Server struct {
 	mutex    sync.Mutex
 	sessions map[uint64]*Session
 
+	// 同一终端可能有多个连接，分包的写入和合并不能并发
+	mergeMutex sync.Mutex
+
 	closeHandler    func(*Session)
 	messageHandlers sync.Map
 }
diff --git a/session_handler.go b/session_handler.go
index 03213b8..8ad9235 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -89,7 +89,9 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			continue
 		}
 
+		handler.server.mergeMutex.Lock()
 		err = multipartFile.Write(message.Header.Packet.Seq, buf)
+		handler.server.mergeMutex.Unlock()
 		if err != nil {
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
@@ -102,11 +104,14 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
+		handler.server.mergeMutex.Lock()
 		if !multipartFile.IsFull() {
+			handler.server.mergeMutex.Unlock()
 			continue
 		}
 
 		reader, err := multipartFile.Merge()
+		handler.server.mergeMutex.Unlock()
 		if err != nil {
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
-- 
2.43.0


From 288d4f1e55aa1def2d9a8b81d7f3fbdc02312d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:15 +0000
Subject: [PATCH 35/49] fix: do not leave a partly written part behind when
 writing fails or is interrupted

---
 multipart.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index c1b0b85..416566e 100644
--- a/multipart.go
+++ b/multipart.go
@@ -113,7 +113,17 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 	}
 	sep := filepath.Separator
 	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
-	return ioutil.WriteFile(name, data, 0644)
+
+	// 写入失败时不能留下不完整的分包
+	tmp := name + ".tmp"
+	err := ioutil.WriteFile(tmp, data, 0644)
+	if err == nil {
+		err = os.Rename(tmp, name)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
 }
 
 // 遍历分包文件
-- 
2.43.0


From e8df32b1e2bab892c671de2f5416f043a7fbf1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:32 +0000
Subject: [PATCH 36/49] fix: do not delete the parts of an upload when the
 merged file cannot be opened

---
 multipart.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 416566e..ad1d51a 100644
--- a/multipart.go
+++ b/multipart.go
@@ -91,11 +91,16 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 		}
 	}
 
+	r, err := os.OpenFile(full, os.O_RDONLY, 0644)
+	if err != nil {
+		return nil, err
+	}
+
 	// 删除分包文件
 	for _, part := range inputs {
 		os.Remove(part.path)
 	}
-	return os.OpenFile(full, os.O_RDONLY, 0644)
+	return r, nil
 }
 
 // 获取根目录
-- 
2.43.0


From 5685848dd21eebbc7904577fe6d6e5b1949f1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:16 +0000
Subject: [PATCH 37/49] fix: merge uploads of more parts than files may be open

---
 multipart.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/multipart.go b/multipart.go
index ad1d51a..ca21ec2 100644
--- a/multipart.go
+++ b/multipart.go
@@ -14,11 +14,21 @@ import (
 
 // 分包文件
 type partFile struct {
-	f    *os.File
 	seq  uint16
 	path string
 }
 
+// 分包数量可能超过可打开文件数的限制，逐个打开
+func (p partFile) copyTo(w io.Writer) error {
+	f, err := os.OpenFile(p.path, os.O_RDONLY, 0644)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	_, err = io.Copy(w, f)
+	return err
+}
+
 type partFileSlice []partFile
 
 func (p partFileSlice) Len() int           { return len(p) }
@@ -51,20 +61,9 @@ func (m MultipartFile) IsFull() bool {
 func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	inputs := make(partFileSlice, 0)
 	err := m.walkParts(func(path string, seq uint16) error {
-		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
-		if err != nil {
-			return err
-		}
-		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
+		inputs = append(inputs, partFile{seq: seq, path: path})
 		return nil
 	})
-
-	defer func() {
-		for _, item := range inputs {
-			item.f.Close()
-		}
-	}()
-
 	if err != nil {
 		return nil, err
 	}
@@ -86,7 +85,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 		if part.seq == 0 || part.seq > m.Sum {
 			continue
 		}
-		if _, err = io.Copy(w, part.f); err != nil {
+		if err = part.copyTo(w); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From f07fbb46c081722887490aaa99c6976e5f7f9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:39 +0000
Subject: [PATCH 38/49] fix: a very long expiration made the countdown timer
 fire at once

The expiry time overflowed, so that a keepalive meant as 'never' closed every
connection within a second.
---
 timer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/timer.go b/timer.go
index 23e1e26..f5b8633 100644
--- a/timer.go
+++ b/timer.go
@@ -2,6 +2,7 @@ package go808
 
 import (
 	"container/heap"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -85,9 +86,14 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 
 // 更新时间
 func (timer *CountdownTimer) Update(key string) {
+	now := time.Now().Unix()
 	e := element{
 		Key:    key,
-		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
+		Expire: now + atomic.LoadInt64(&timer.seconds),
+	}
+	if e.Expire < now {
+		// 过期时间溢出
+		e.Expire = math.MaxInt64
 	}
 
 	timer.mutex.Lock()
-- 
2.43.0


From 30984a384b5688f359537d65bec4562b26d0bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:20 +0000
Subject: [PATCH 39/49] fix: messages and extras that are not pointers crashed
 the encoder and the server

reflect's IsNil panics for struct values, in the connection's goroutine.
---
 protocol/helpers.go     | 10 ++++++++++
 protocol/message.go     |  3 +--
 protocol/t808_0x0200.go |  3 +--
 session_handler.go      |  3 ++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index 1cfd15f..dc64bf5 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -7,6 +7,7 @@ import (
 	"gitee.com/coco/go808/errors"
 	"github.com/shopspring/decimal"
 	"hash"
+	"reflect"
 	"time"
 )
 
@@ -38,6 +39,15 @@ func DecryptOAEP(hash hash.Hash, priv *rsa.PrivateKey, ciphertext []byte, label
 	return buffer.Bytes(), nil
 }
 
+// 是否为空（包括空指针），实体可能不是指针类型
+func isNil(v interface{}) bool {
+	if v == nil {
+		return true
+	}
+	value := reflect.ValueOf(v)
+	return value.Kind() == reflect.Ptr && value.IsNil()
+}
+
 // bytes切割
 func bytesSplit(data []byte, limit int) [][]byte {
 	var chunk []byte
diff --git a/protocol/message.go b/protocol/message.go
index 80841ce..12e9ca3 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"gitee.com/coco/go808/errors"
 	log "github.com/sirupsen/logrus"
-	"reflect"
 )
 
 // 消息包
@@ -23,7 +22,7 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	var err error
 	var body []byte
 	checkSum := byte(0x00)
-	if message.Body != nil && !reflect.ValueOf(message.Body).IsNil() {
+	if !isNil(message.Body) {
 		body, err = message.Body.Encode()
 		if err != nil {
 			return nil, err
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index dfa51bf..f8e346a 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -7,7 +7,6 @@ import (
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"math"
-	"reflect"
 	"time"
 )
 
@@ -143,7 +142,7 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 	// 写入附加信息
 	for i := 0; i < len(entity.Extras); i++ {
 		ext := entity.Extras[i]
-		if ext == nil || reflect.ValueOf(ext).IsNil() {
+		if isNil(ext) {
 			continue
 		}
 		data := ext.Data()
diff --git a/session_handler.go b/session_handler.go
index 8ad9235..941292f 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -52,7 +52,8 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		message := msg.(protocol.Message)
 		session.updateIccID(message.Header.IccID)
 		handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
+		body := reflect.ValueOf(message.Body)
+		if message.Body == nil || body.Kind() == reflect.Ptr && body.IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
 		}
-- 
2.43.0


From d08f5dd40d6699a6a7be10893d51e15700ac6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 40/49] fix: a nil parameter crashed the encoder of the
 parameter messages

---
 protocol/t808_0x0104.go | 4 ++++
 protocol/t808_0x8103.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index 3c88c00..0a642d1 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -23,6 +23,10 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 
 	// 写入参数列表
 	for _, param := range entity.Params {
+		if param == nil {
+			return nil, ErrInvalidBody
+		}
+
 		// 写入参数ID
 		writer.WriteUint32(param.id)
 
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index c4d222b..a52cba2 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -18,6 +18,10 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 
 	// 写入参数列表
 	for _, param := range entity.Params {
+		if param == nil {
+			return nil, ErrInvalidBody
+		}
+
 		// 写入参数ID
 		writer.WriteUint32(param.id)
 
-- 
2.43.0


From 726d7a3293815019d9877a755e11a4286f165910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:22 +0000
Subject: [PATCH 41/49] fix: encoding a compressed upload printed a number on
 standard output

---
 protocol/t808_0x0901.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 4648008..c2bd893 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -3,7 +3,6 @@ package protocol
 import (
 	"bytes"
 	"compress/gzip"
-	"fmt"
 	"io"
 )
 
@@ -29,7 +28,6 @@ func (entity *T808_0x0901) Encode() ([]byte, error) {
 	writer.WriteUint32(uint32(buffer.Len()))
 
 	// 写入压缩消息
-	fmt.Println(len(entity.Uncompressed))
 	writer.Write(buffer.Bytes())
 	return writer.Bytes(), nil
 }
-- 
2.43.0


From e3003cc88634eedecc5127d7195385c4fda6b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:04 +0000
Subject: [PATCH 42/49] fix: encrypting with a public key too small to hold any
 text panicked

A terminal announces its public key itself (0x0A00).
---
 protocol/helpers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index dc64bf5..1b808af 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -14,7 +14,14 @@ import (
 // 使用RSA-OAEP加密
 func EncryptOAEP(hash hash.Hash, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
 	buffer := bytes.NewBuffer(nil)
-	chunks := bytesSplit(msg, pub.Size()-2*hash.Size()-2)
+	limit := 0
+	if pub.N != nil {
+		limit = pub.Size() - 2*hash.Size() - 2
+	}
+	if limit <= 0 {
+		return nil, rsa.ErrMessageTooLong
+	}
+	chunks := bytesSplit(msg, limit)
 	for _, chunk := range chunks {
 		ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pub, chunk, label)
 		if err != nil {
-- 
2.43.0


From 566f86126c9627709b6e86324e000ef849188668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:59 +0000
Subject: [PATCH 43/49] fix: a slow sender could make a concurrent request lose
 its callback

Taking the serial number, registering the callback and queueing the message
were separate steps. When a sender was preempted between them while 255 other
messages went out, its clean-up of the reused number removed the request that
holds it now, and messages could leave in another order than their numbers.
---
 session.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index c466c73..2eeffcf 100644
--- a/session.go
+++ b/session.go
@@ -24,6 +24,9 @@ type Session struct {
 	server  *Server
 	session *link.Session
 
+	// 流水号的分配、请求的登记和消息的入队必须一起完成
+	sendMux sync.Mutex
+
 	mux      sync.Mutex
 	requests []requestContext
 
@@ -73,10 +76,13 @@ func (session *Session) Send(entity protocol.Entity) (uint16, error) {
 
 // 发送消息，并在发送前登记应答回调
 func (session *Session) send(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
+	msgID := entity.MsgID()
+	session.sendMux.Lock()
+	defer session.sendMux.Unlock()
 	message := protocol.Message{
 		Body: entity,
 		Header: protocol.Header{
-			MsgID:       entity.MsgID(),
+			MsgID:       msgID,
 			IccID:       atomic.LoadUint64(&session.iccID),
 			MsgSerialNo: session.nextID(),
 		},
@@ -86,7 +92,7 @@ func (session *Session) send(entity protocol.Entity, cb func(answer *protocol.Me
 	session.takeRequestContext(message.Header.MsgSerialNo)
 	if cb != nil {
 		session.addRequestContext(requestContext{
-			msgID:    uint16(entity.MsgID()),
+			msgID:    uint16(msgID),
 			serialNo: message.Header.MsgSerialNo,
 			callback: cb,
 		})
-- 
2.43.0


From ea1b982323afb115201e37ccf66aeee1d24af31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 44/49] fix: the names of the information request and cancel
 flags were swapped

JT/T 808 defines the flag of 0x0303 as 0 cancel, 1 request.
---
 protocol/t808_0x0303.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/t808_0x0303.go b/protocol/t808_0x0303.go
index 47166c0..4648c8b 100644
--- a/protocol/t808_0x0303.go
+++ b/protocol/t808_0x0303.go
@@ -13,9 +13,9 @@ type T808_0x0303_Flag byte
 
 var (
 	// 点播
-	T808_0x0303_FlagRequest T808_0x0303_Flag = 0
+	T808_0x0303_FlagRequest T808_0x0303_Flag = 1
 	// 取消
-	T808_0x0303_FlagCancel T808_0x0303_Flag = 1
+	T808_0x0303_FlagCancel T808_0x0303_Flag = 0
 )
 
 func (entity *T808_0x0303) MsgID() MsgID {
-- 
2.43.0


From 55dc4b0d24a28a0fdc74ed45b20bdd210c1b01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:49 +0000
Subject: [PATCH 45/49] fix: counts in a message decided how much memory
 decoding it took

---
 protocol/t808_0x0704.go | 2 +-
 protocol/t808_0x0705.go | 2 +-
 protocol/t808_0x0802.go | 2 +-
 protocol/t808_0x0805.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0704.go b/protocol/t808_0x0704.go
index 91f1a05..aca03b2 100644
--- a/protocol/t808_0x0704.go
+++ b/protocol/t808_0x0704.go
@@ -53,7 +53,7 @@ func (entity *T808_0x0704) Decode(data []byte) (int, error) {
 	}
 
 	// 写入位置汇报数据项
-	entity.Items = make([]T808_0x0200, 0, count)
+	entity.Items = make([]T808_0x0200, 0)
 	for i := 0; i < int(count); i++ {
 		size, err := reader.ReadUint16()
 		if err != nil {
diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 6636694..214283c 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -89,7 +89,7 @@ func (entity *T808_0x0705) Decode(data []byte) (int, error) {
 	}
 
 	// 读取CAN总线数据项
-	entity.Items = make([]T808_0x0705_CAN, 0, count)
+	entity.Items = make([]T808_0x0705_CAN, 0)
 	for i := 0; i < int(count); i++ {
 		id, err := reader.Read(4)
 		if err != nil {
diff --git a/protocol/t808_0x0802.go b/protocol/t808_0x0802.go
index 3e53cb6..29aa721 100644
--- a/protocol/t808_0x0802.go
+++ b/protocol/t808_0x0802.go
@@ -81,7 +81,7 @@ func (entity *T808_0x0802) Decode(data []byte) (int, error) {
 	}
 
 	// 读取多媒体检索项
-	entity.Items = make([]T808_0x0802_Item, 0, count)
+	entity.Items = make([]T808_0x0802_Item, 0)
 	for i := 0; i < int(count); i++ {
 		var item T808_0x0802_Item
 
diff --git a/protocol/t808_0x0805.go b/protocol/t808_0x0805.go
index 4543f99..223f85d 100644
--- a/protocol/t808_0x0805.go
+++ b/protocol/t808_0x0805.go
@@ -73,7 +73,7 @@ func (entity *T808_0x0805) Decode(data []byte) (int, error) {
 	}
 
 	// 读取媒体ID列表
-	entity.MediaIDs = make([]uint32, 0, count)
+	entity.MediaIDs = make([]uint32, 0)
 	for i := 0; i < int(count); i++ {
 		id, err := reader.ReadUint32()
 		if err != nil {
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 109a040..e9f9954 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -145,7 +145,7 @@ func (entity *T808_0x8604) Decode(data []byte) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	entity.Vertexes = make([]Vertex, 0, int(vertexes))
+	entity.Vertexes = make([]Vertex, 0)
 
 	// 读取顶点列表
 	for j := 0; j < int(vertexes); j++ {
-- 
2.43.0


From 3e9b975c25fb7d9b320c8096b0e4ff2d5d4fd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:52 +0000
Subject: [PATCH 46/49] fix: decoding into a used entity kept parts of the
 previous message

---
 protocol/t808_0x0100.go | 1 +
 protocol/t808_0x0200.go | 1 +
 protocol/t808_0x8003.go | 1 +
 protocol/t808_0x8100.go | 1 +
 protocol/t808_0x8105.go | 1 +
 protocol/t808_0x8300.go | 1 +
 protocol/t808_0x8301.go | 1 +
 protocol/t808_0x8302.go | 1 +
 protocol/t808_0x8303.go | 1 +
 protocol/t808_0x8401.go | 1 +
 protocol/t808_0x8604.go | 1 +
 protocol/t808_0x8606.go | 1 +
 protocol/t808_0x8607.go | 1 +
 protocol/t808_0x8800.go | 1 +
 14 files changed, 14 insertions(+)

diff --git a/protocol/t808_0x0100.go b/protocol/t808_0x0100.go
index d1f5f54..02179ae 100644
--- a/protocol/t808_0x0100.go
+++ b/protocol/t808_0x0100.go
@@ -56,6 +56,7 @@ func (entity *T808_0x0100) Decode(data []byte) (int, error) {
 	if len(data) < 37 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x0100{}
 	reader := NewReader(data)
 
 	// 读取省份ID
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index f8e346a..bfc406d 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -161,6 +161,7 @@ func (entity *T808_0x0200) Decode(data []byte) (int, error) {
 	if len(data) < 28 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x0200{}
 	reader := NewReader(data)
 
 	// 读取警告标志
diff --git a/protocol/t808_0x8003.go b/protocol/t808_0x8003.go
index 5a946d2..820dbd8 100644
--- a/protocol/t808_0x8003.go
+++ b/protocol/t808_0x8003.go
@@ -35,6 +35,7 @@ func (entity *T808_0x8003) Decode(data []byte) (int, error) {
 	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8003{}
 	reader := NewReader(data)
 
 	// 读取原始消息流水号
diff --git a/protocol/t808_0x8100.go b/protocol/t808_0x8100.go
index 877876c..fb4e7a7 100644
--- a/protocol/t808_0x8100.go
+++ b/protocol/t808_0x8100.go
@@ -52,6 +52,7 @@ func (entity *T808_0x8100) Decode(data []byte) (int, error) {
 	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8100{}
 	reader := NewReader(data)
 
 	// 读取流水号
diff --git a/protocol/t808_0x8105.go b/protocol/t808_0x8105.go
index 0753bdc..56d91b6 100644
--- a/protocol/t808_0x8105.go
+++ b/protocol/t808_0x8105.go
@@ -47,6 +47,7 @@ func (entity *T808_0x8105) Decode(data []byte) (int, error) {
 	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8105{}
 
 	reader := NewReader(data[1:])
 	if reader.Len() > 0 {
diff --git a/protocol/t808_0x8300.go b/protocol/t808_0x8300.go
index 3047599..add5208 100644
--- a/protocol/t808_0x8300.go
+++ b/protocol/t808_0x8300.go
@@ -27,6 +27,7 @@ func (entity *T808_0x8300) Decode(data []byte) (int, error) {
 	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8300{}
 
 	entity.Flag = data[0]
 	reader := NewReader(data[1:])
diff --git a/protocol/t808_0x8301.go b/protocol/t808_0x8301.go
index 9b5a225..2650351 100644
--- a/protocol/t808_0x8301.go
+++ b/protocol/t808_0x8301.go
@@ -66,6 +66,7 @@ func (entity *T808_0x8301) Decode(data []byte) (int, error) {
 	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8301{}
 	reader := NewReader(data)
 
 	// 读取设置类型
diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index f186d10..e9eaf88 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -77,6 +77,7 @@ func (entity *T808_0x8302) Decode(data []byte) (int, error) {
 	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8302{}
 	reader := NewReader(data)
 
 	// 读取标志位
diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index 4f7ca66..dcf049c 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -73,6 +73,7 @@ func (entity *T808_0x8303) Decode(data []byte) (int, error) {
 	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8303{}
 	reader := NewReader(data)
 
 	// 读取设置类型
diff --git a/protocol/t808_0x8401.go b/protocol/t808_0x8401.go
index 70e5da9..53dabf6 100644
--- a/protocol/t808_0x8401.go
+++ b/protocol/t808_0x8401.go
@@ -109,6 +109,7 @@ func (entity *T808_0x8401) Decode(data []byte) (int, error) {
 	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8401{}
 	reader := NewReader(data)
 
 	// 读取设置类型
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index e9f9954..b15b614 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -97,6 +97,7 @@ func (entity *T808_0x8604) Decode(data []byte) (int, error) {
 	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8604{}
 	reader := NewReader(data)
 
 	// 读取区域ID
diff --git a/protocol/t808_0x8606.go b/protocol/t808_0x8606.go
index 5f80781..529425b 100644
--- a/protocol/t808_0x8606.go
+++ b/protocol/t808_0x8606.go
@@ -169,6 +169,7 @@ func (entity *T808_0x8606) Decode(data []byte) (int, error) {
 	if len(data) < 20 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8606{}
 	reader := NewReader(data)
 
 	// 读取路线ID
diff --git a/protocol/t808_0x8607.go b/protocol/t808_0x8607.go
index 4e61506..a38dc63 100644
--- a/protocol/t808_0x8607.go
+++ b/protocol/t808_0x8607.go
@@ -27,6 +27,7 @@ func (entity *T808_0x8607) Decode(data []byte) (int, error) {
 	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8607{}
 	reader := NewReader(data)
 
 	// 读取路线数
diff --git a/protocol/t808_0x8800.go b/protocol/t808_0x8800.go
index 141d95b..e85e784 100644
--- a/protocol/t808_0x8800.go
+++ b/protocol/t808_0x8800.go
@@ -39,6 +39,7 @@ func (entity *T808_0x8800) Decode(data []byte) (int, error) {
 	if len(data) < 4 {
 		return 0, ErrInvalidBody
 	}
+	*entity = T808_0x8800{}
 	reader := NewReader(data)
 
 	// 读取媒体ID
-- 
2.43.0


From ecc9e53e4c0183d013ed380160c38c3f3809db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:17 +0000
Subject: [PATCH 47/49] fix: Decode reported fewer bytes than it had read

---
 protocol/t808_0x0200.go | 2 +-
 protocol/t808_0x0303.go | 2 +-
 protocol/t808_0x8105.go | 2 +-
 protocol/t808_0x8106.go | 2 +-
 protocol/t808_0x8300.go | 2 +-
 protocol/t808_0x8601.go | 2 +-
 protocol/t808_0x8603.go | 2 +-
 protocol/t808_0x8605.go | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index bfc406d..c24f3a7 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -251,5 +251,5 @@ func (entity *T808_0x0200) Decode(data []byte) (int, error) {
 	if len(extras) > 0 {
 		entity.Extras = extras
 	}
-	return len(data) - reader.Len(), nil
+	return len(data) - len(buffer), nil
 }
diff --git a/protocol/t808_0x0303.go b/protocol/t808_0x0303.go
index 4648c8b..0144921 100644
--- a/protocol/t808_0x0303.go
+++ b/protocol/t808_0x0303.go
@@ -31,5 +31,5 @@ func (entity *T808_0x0303) Decode(data []byte) (int, error) {
 		return 0, ErrInvalidBody
 	}
 	entity.Type, entity.Flag = data[0], T808_0x0303_Flag(data[1])
-	return 1, nil
+	return 2, nil
 }
diff --git a/protocol/t808_0x8105.go b/protocol/t808_0x8105.go
index 56d91b6..7d48b62 100644
--- a/protocol/t808_0x8105.go
+++ b/protocol/t808_0x8105.go
@@ -59,5 +59,5 @@ func (entity *T808_0x8105) Decode(data []byte) (int, error) {
 	}
 
 	entity.Cmd = T808_0x8105_Command(data[0])
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8106.go b/protocol/t808_0x8106.go
index 4d434fe..f911ecd 100644
--- a/protocol/t808_0x8106.go
+++ b/protocol/t808_0x8106.go
@@ -34,5 +34,5 @@ func (entity *T808_0x8106) Decode(data []byte) (int, error) {
 		}
 		entity.Params = append(entity.Params, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8300.go b/protocol/t808_0x8300.go
index add5208..c62eff1 100644
--- a/protocol/t808_0x8300.go
+++ b/protocol/t808_0x8300.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8300) Decode(data []byte) (int, error) {
 		}
 		entity.Text = data
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8601.go b/protocol/t808_0x8601.go
index ea023ee..1173f8f 100644
--- a/protocol/t808_0x8601.go
+++ b/protocol/t808_0x8601.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8601) Decode(data []byte) (int, error) {
 		}
 		entity.IDs = append(entity.IDs, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8603.go b/protocol/t808_0x8603.go
index b109af1..003cc16 100644
--- a/protocol/t808_0x8603.go
+++ b/protocol/t808_0x8603.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8603) Decode(data []byte) (int, error) {
 		}
 		entity.IDs = append(entity.IDs, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8605.go b/protocol/t808_0x8605.go
index 78498ac..2687be5 100644
--- a/protocol/t808_0x8605.go
+++ b/protocol/t808_0x8605.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8605) Decode(data []byte) (int, error) {
 		}
 		entity.IDs = append(entity.IDs, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
-- 
2.43.0


From d8c5f525b67b7499ee13efb30a739d98165c8a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 48/49] fix: a used header kept the packet of the previous one

---
 protocol/header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/header.go b/protocol/header.go
index b947bc2..fecdfa8 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -88,8 +88,9 @@ func (header *Header) Decode(data []byte) error {
 	}
 
 	// 读取分包信息
+	var packet *Packet
 	if Property(property).IsEnablePacket() {
-		var packet Packet
+		packet = &Packet{}
 
 		// 读取分包总数
 		packet.Sum, err = reader.ReadUint16()
@@ -102,12 +103,12 @@ func (header *Header) Decode(data []byte) error {
 		if err != nil {
 			return err
 		}
-		header.Packet = &packet
 	}
 
 	header.MsgID = MsgID(msgID)
 	header.IccID = iccID
 	header.Property = Property(property)
 	header.MsgSerialNo = serialNo
+	header.Packet = packet
 	return nil
 }
-- 
2.43.0


From e55194d4f13e2afe04b737cc3199af735c937c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 49/49] fix: broken headers and dates were refused with foreign
 errors

---
 protocol/header.go  | 6 +++---
 protocol/helpers.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/header.go b/protocol/header.go
index fecdfa8..bce857a 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -78,7 +78,7 @@ func (header *Header) Decode(data []byte) error {
 	}
 	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
-		return err
+		return errors.ErrInvalidHeader
 	}
 
 	// 读取消息流水号
@@ -95,13 +95,13 @@ func (header *Header) Decode(data []byte) error {
 		// 读取分包总数
 		packet.Sum, err = reader.ReadUint16()
 		if err != nil {
-			return err
+			return errors.ErrInvalidHeader
 		}
 
 		// 读取分包序列号
 		packet.Seq, err = reader.ReadUint16()
 		if err != nil {
-			return err
+			return errors.ErrInvalidHeader
 		}
 	}
 
diff --git a/protocol/helpers.go b/protocol/helpers.go
index 1b808af..53355bc 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -139,7 +139,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 	t, err := time.ParseInLocation(
 		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
-		return time.Time{}, err
+		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	return t, nil
 }
-- 
2.43.0

