From e03e16e1bf43df639e6e638095dce278c2d27516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 01/22] fix: hexutil.DecodeUint64 reports quantities above 64
 bits as ErrUint64Range

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 35ced3d..c6e6941 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -212,7 +212,7 @@ func mapError(err error) error {
 	if err, ok := err.(*strconv.NumError); ok {
 		switch err.Err {
 		case strconv.ErrRange:
-			return ErrUintRange
+			return ErrUint64Range
 		case strconv.ErrSyntax:
 			return ErrSyntax
 		}
-- 
2.43.0


From 0b2b07aa069442a2763abf17b9b28af518617c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 02/22] fix: hexutil number decoders report the empty string as
 ErrEmptyString

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index c6e6941..3bcd891 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -174,7 +174,7 @@ func EncodeBig(bigint *big.Int) string {
  
 func checkNumber(input string) (raw string, err error) {
 	if len(input) == 0 {
-		return "", ErrEmptyNumber
+		return "", ErrEmptyString
 	}
 	if !has0xPrefix(input) {
 		return "", ErrMissingPrefix
-- 
2.43.0


From ac65eabb2ab5dcbe4b4069fee67ebc7481e0d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 03/22] fix: MixedcaseAddress.MarshalJSON keeps a single prefix
 when the original uses 0X

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 8e2c47d4bf1682af261423aab95220dc39ee2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 04/22] fix: MixedcaseAddress.String closes the bracket of the
 invalid-checksum mark

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From d38a91ad9fc395f73f5df6da5e5ed1b4bdd81ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 05/22] fix: math.PaddedBigBytes pads to the requested length

---
 common/math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..2d78daf 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
-- 
2.43.0


From e4b012f4ea375f1e8331276a1a4e2a41182dd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 06/22] fix: math.Exp leaves the base unchanged

---
 common/math/big.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 2d78daf..410cc10 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -218,14 +218,15 @@ func S256(x *big.Int) *big.Int {
 //
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
+	copyBase := new(big.Int).Set(base)
 	result := big.NewInt(1)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
 			if word&1 == 1 {
-				U256(result.Mul(result, base))
+				U256(result.Mul(result, copyBase))
 			}
-			U256(base.Mul(base, base))
+			U256(copyBase.Mul(copyBase, copyBase))
 			word >>= 1
 		}
 	}
-- 
2.43.0


From eb405cee86b22c3757be9601c2c92eb0f97efbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 07/22] fix: sha3 state size is 25 lanes

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..96e892d 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
-- 
2.43.0


From 0f8f3542700593c40e7993c5cfdf0cb9918f1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 08/22] fix: sha3 minInt compares its two arguments

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 96e892d..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From e422e78c1d9fe9f53621fcc7459993859ddfa079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 09/22] fix: event.Feed removes the unsubscribed channel

---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From 8227d4a26a5f743de1f877f249e579afca00637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 10/22] fix: event.Resubscribe Unsubscribe does not block after
 the loop has ended

---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..cc24bf9 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1),
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From d7f254ebc33883d6b7f4551128307517e186652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 11/22] fix: keccakF1600 rotates the last plane of the first
 round into the right lanes

---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From 397a4cddf9d5bc57851721eebc28c9d5c7b8a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 12/22] fix: rlpstruct accepts fields without optional tag
 before any optional field, and rejects them after one

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..9c76c52 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From e4216169c4ac1d7b29892f75c296e5b6c6f0f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 13/22] fix: rlpstruct recognises the "tail" tag

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 9c76c52..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From 8f8c06142dc90a30562650e1621f64bd8a3c8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 14/22] fix: rlpstruct.TagError separates the word field from
 the field name

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..7f6b8ee 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From 24d6cda018c83116987ac097330bb980bde8547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 15/22] fix: logfmt writes the key of each context pair, not
 its value

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From 4181d52ff342a3eab1ca9785d19b661dff719875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 16/22] fix: TerminalFormat prints the origin without colors as
 well

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From 6498a22ca2af2b6b0ef12666efc647dc9faca403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 17/22] fix: the root logger discards records until a handler
 is set, instead of panicking

---
 log/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..ac3bc5b 100644
--- a/log/root.go
+++ b/log/root.go
@@ -10,6 +10,10 @@ var (
 	stderrHandler = StreamHandler(os.Stderr, LogfmtFormat())
 )
 
+func init() {
+	root.SetHandler(DiscardHandler())
+}
+
 // New 返回具有给定上下文的新记录器。
 // New 是 Root().New 的一个方便的别名
 func New(ctx ...interface{}) Logger {
-- 
2.43.0


From 2a743fcb66a868ba7e5cc7ef3b1f882cac732d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 18/22] fix: MnemonicEncode steps through the message by 8 hex
 digits

---
 crypto/mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/mnemonic.go b/crypto/mnemonic.go
index d43dc8f..9ff2733 100644
--- a/crypto/mnemonic.go
+++ b/crypto/mnemonic.go
@@ -19,7 +19,7 @@ func MnemonicEncode(message string) []string {
 	var out []string
 	n := int64(len(MnemonicWords))
 
-	for i := 0; i < len(message); i += (len(message) / 8) {
+	for i := 0; i < len(message); i += 8 {
 		x := message[i : i+8]
 		bit, _ := strconv.ParseInt(x, 16, 64)
 		w1 := (bit % n)
-- 
2.43.0


From 6fc16f99f78be201b52af0fe5ce11dc37a40f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 19/22] fix: curve addition handles equal points, opposite
 points and the point at infinity

---
 crypto/curve.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..74e97d8 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -51,6 +51,10 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 
 //反转雅可比变换
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		// 无穷远点表示为 (0,0)
+		return new(big.Int), new(big.Int)
+	}
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -64,6 +68,13 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 //返回 (x1,y1) 和 (x2,y2) 的总和
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
+	// (0,0) 是无穷远点，加上它不改变另一个点
+	if x1.Sign() == 0 && y1.Sign() == 0 {
+		return new(big.Int).Set(x2), new(big.Int).Set(y2)
+	}
+	if x2.Sign() == 0 && y2.Sign() == 0 {
+		return new(big.Int).Set(x1), new(big.Int).Set(y1)
+	}
 	z := new(big.Int).SetInt64(1)
 	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
 }
@@ -71,6 +82,13 @@ func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
 //在雅可比坐标系中取两点 (x1, y1, z1) 和
 // (x2, y2, z2) 并返回它们的总和，也是雅可比形式。
 func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
+	// 任一点为无穷远点时，结果为另一点
+	if z1.Sign() == 0 {
+		return x2, y2, z2
+	}
+	if z2.Sign() == 0 {
+		return x1, y1, z1
+	}
 	// See http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
 	z1z1 := new(big.Int).Mul(z1, z1)
 	z1z1.Mod(z1z1, BitCurve.P)
@@ -99,6 +117,10 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if h.Sign() == 0 && r.Sign() == 0 {
+		// 两点相同，加法公式不适用
+		return BitCurve.doubleJacobian(x1, y1, z1)
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
-- 
2.43.0


From f2a7f389368788e7bda94c8878fa3f17d42d252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 20/22] fix: event.Resubscribe cancels a subscription
 established while it is being cancelled

---
 event/subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index cc24bf9..c5e1227 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -174,7 +174,10 @@ func (s *resubscribeSub) subscribe() Subscription {
 			}
 		case <-s.unsub:
 			cancel()
-			<-subscribed// 避免泄露 s.fn goroutine。
+			// 避免泄露 s.fn goroutine 以及它刚建立的订阅。
+			if err := <-subscribed; err == nil && sub != nil {
+				sub.Unsubscribe()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 94fd2b608f5bdbbb04cec01f07d58af74865bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 21/22] fix: rlpstruct: take the nil kind of a "nil" tag from
 the pointer's element

DefaultNilValue tells how a nil pointer to a type is written; the tag asked it about the
pointer type itself, so that nil pointers to strings, integers and byte strings were
written (and accepted) as empty lists instead of empty strings.
---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 7f6b8ee..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From cd1f3f60d5494c04c717c98b3cf776405c1c5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 22/22] fix: rlpgen: convert fields of named basic types

For a field of a named bool, string or uint64 type the generated code passed or stored the value
without a conversion and did not compile.
---
 rlp/rlpgen/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index fdfa357..17aba77 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -164,8 +164,11 @@ type basicOp struct {
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
 }
 
-func (*buildContext) makeBasicOp(typ *types.Basic) (op, error) {
+func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
 	op := basicOp{typ: typ}
+	if name != nil {
+		op.typ = name // values of named types need conversion
+	}
 	kind := typ.Kind()
 	switch {
 	case kind == types.Bool:
@@ -659,7 +662,7 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		// Default pointer handling.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
-		return bctx.makeBasicOp(typ)
+		return bctx.makeBasicOp(name, typ)
 	case *types.Struct:
 		return bctx.makeStructOp(name, typ)
 	case *types.Slice:
-- 
2.43.0

