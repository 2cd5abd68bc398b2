From 0baea9b307d5f8cf4d4914f8774abaf58296171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 01/28] fix: derive key-exchange keys longer than 128 bits

The exchange KDF copied the whole output out of one 16-byte buffer, so any
keyBits above 128 panicked. Take each block from the digest itself.
---
 sm2/keyexchange.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..abed076 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -43,11 +43,7 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 }
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
-	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
-	}
-	buf := make([]byte, bufSize)
+	var ctBytes [4]byte
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
@@ -62,14 +58,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		digest.Write(za)
 		digest.Write(zb)
 		ct++
-		binary.BigEndian.PutUint32(buf, ct)
-		digest.Write(buf[:4])
-		tmp := digest.Sum(nil)
-		copy(buf[:bufSize], tmp[:bufSize])
-
-		copyLen := rvLen - off
-		copy(rv[off:off+copyLen], buf[:copyLen])
-		off += copyLen
+		binary.BigEndian.PutUint32(ctBytes[:], ct)
+		digest.Write(ctBytes[:])
+		off += copy(rv[off:], digest.Sum(nil))
 	}
 	return rv
 }
-- 
2.43.0


From 0fa6c5989d208cf615ebaa2e3d3a29c711c1c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 02/28] fix: sm3 Sum must not change the underlying hash state

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..fd8c26c 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,7 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From 8bb55082c7e2ba42d6ed82e2eead7a456610a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 03/28] fix: sm3 accepts empty writes and hashes the empty
 message

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index fd8c26c..3836e59 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -86,7 +86,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From 4e6f6ce8173809e053ec33bc99f0f05903b7da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 04/28] fix: sm3 block size is 64 bytes

hash.Hash.BlockSize reported the number of 32-bit words of a block, which
makes HMAC and every other block-size-driven construction wrong.
---
 sm3/sm3.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 3836e59..256384f 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,7 +9,9 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
+
+	blockWords = BlockSize / 4
 )
 
 var gT = []uint32{
@@ -24,7 +26,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -226,14 +228,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int32) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From 1cdbe42756f010a11c209d008c0f1ec909aebf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 05/28] fix: hash fixed-width coordinates in the key exchange

GB/T 32918.3 feeds 32-byte coordinates to the KDF and to the confirmation
hashes; leading zero bytes were dropped, so about one exchange in 256 used
a key no conforming peer derives.
---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index abed076..fff1c63 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -47,8 +47,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -67,20 +67,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -88,7 +88,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From 6a1809a0367106dbe2699fd8e2d19205678db8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 06/28] fix: validate the peer's points and the shared point in
 the key exchange

An off-curve static or ephemeral key panicked inside crypto/elliptic, and a
shared point at infinity went on to derive a key anyone can compute.
---
 sm2/keyexchange.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index fff1c63..45ea929 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -106,6 +106,12 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	curve := selfStaticPriv.Curve
+	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) ||
+		!curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("the other party's public key is not on the curve")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
@@ -114,6 +120,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From 92a19fa0cfab046fe66854c5b5ef2ff3957cb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 07/28] fix: Encrypt of an empty message no longer loops
 forever

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..1375d77 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -276,7 +276,7 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 		kPBx, kPBy = pub.Curve.ScalarMult(pub.X, pub.Y, kBytes)
 		kdf(digest, kPBx, kPBy, c2)
 
-		if !notEncrypted(c2, in) {
+		if len(in) == 0 || !notEncrypted(c2, in) {
 			break
 		}
 	}
-- 
2.43.0


From 40db4c96ff0ab37219e1194f29a60ba803aa5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 08/28] fix: reject off-curve public keys in Encrypt and Verify
 instead of panicking

---
 sm2/sm2.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 1375d77..bd824cf 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -260,6 +260,10 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return nil, errors.New("public key is not on the curve")
+	}
+
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -549,6 +553,10 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 		return false
 	}
 
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
+
 	digest := sm3.New()
 	if userId == nil {
 		userId = sm2SignDefaultUserId
-- 
2.43.0


From ba5d631f8d9786c84f267ed8345fcb0f8c71350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 09/28] fix: Decrypt reports truncated cipher texts and invalid
 C1 points as errors

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index bd824cf..715ea98 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -311,9 +311,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil {
+		return nil, errors.New("C1 is not a point on the curve")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From 9c99fffe18c5653e5c281213406ea5b715ed0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 10/28] fix: MarshalCipher and UnmarshalCipher reject malformed
 cipher texts

Short input, oversized or negative coordinates panicked; trailing bytes and
a C3 of the wrong length were accepted silently.
---
 sm2/sm2.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 715ea98..89e273b 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -357,6 +357,9 @@ func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]b
 
 func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	byteLen := (sm2P256V1.Params().BitSize + 7) >> 3
+	if len(in) < 1+byteLen*2+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
@@ -394,13 +397,30 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// checkCipherFields rejects decoded cipher texts that have no C1||C2||C3 representation.
+func checkCipherFields(rest []byte, x, y *big.Int, c3 []byte) error {
+	if len(rest) != 0 {
+		return errors.New("trailing data after cipher text")
+	}
+	if x.Sign() < 0 || x.BitLen() > BitSize || y.Sign() < 0 || y.BitLen() > BitSize {
+		return errors.New("cipher text coordinate out of range")
+	}
+	if len(c3) != sm3.DigestLength {
+		return errors.New("cipher text digest has a wrong length")
+	}
+	return nil
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
-		_, err = asn1.Unmarshal(in, cipher)
+		rest, err := asn1.Unmarshal(in, cipher)
 		if err != nil {
 			return nil, err
 		}
+		if err = checkCipherFields(rest, cipher.X, cipher.Y, cipher.C3); err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -421,10 +441,13 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		return result, nil
 	} else if cipherTextType == C1C3C2 {
 		cipher := new(sm2CipherC1C3C2)
-		_, err = asn1.Unmarshal(in, cipher)
+		rest, err := asn1.Unmarshal(in, cipher)
 		if err != nil {
 			return nil, err
 		}
+		if err = checkCipherFields(rest, cipher.X, cipher.Y, cipher.C3); err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 47d29094cc756614044056e6e527ddba793728b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 11/28] fix: reject trailing data after a DER signature

Appending any bytes to a valid signature gave another accepted signature.
---
 sm2/sm2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 89e273b..e220d22 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -511,10 +511,13 @@ func MarshalSign(r, s *big.Int) ([]byte, error) {
 
 func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	sm2Sign := new(sm2Signature)
-	_, err = asn1.Unmarshal(sign, sm2Sign)
+	rest, err := asn1.Unmarshal(sign, sm2Sign)
 	if err != nil {
 		return nil, nil, err
 	}
+	if len(rest) != 0 {
+		return nil, nil, errors.New("trailing data after signature")
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 16c6abff0ede679ca75f289ea8f95b9116f6eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 12/28] fix: keep SM2 private keys in [1, n-2]

GenerateKey could return 0 or n-1, and signing with n-1 never terminated
because 1+d has no inverse.
---
 sm2/sm2.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index e220d22..85e44d9 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -96,14 +96,27 @@ func GetSm2P256V1() P256V1Curve {
 	return sm2P256V1
 }
 
-func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
-	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
-	if err != nil {
-		return nil, nil, err
+// isValidPrivateKey reports whether the private key lies in [1, n-2].
+func isValidPrivateKey(priv *PrivateKey) bool {
+	if priv.D == nil || priv.D.Sign() <= 0 {
+		return false
 	}
+	return new(big.Int).Add(priv.D, big.NewInt(1)).Cmp(priv.Curve.N) < 0
+}
+
+func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
-	privateKey.D = new(big.Int).SetBytes(priv)
+	var x, y *big.Int
+	for !isValidPrivateKey(privateKey) {
+		var priv []byte
+		var err error
+		priv, x, y, err = elliptic.GenerateKey(sm2P256V1, rand)
+		if err != nil {
+			return nil, nil, err
+		}
+		privateKey.D = new(big.Int).SetBytes(priv)
+	}
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -522,6 +535,10 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !isValidPrivateKey(priv) {
+		return nil, nil, errors.New("private key is not in [1, n-2]")
+	}
+
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From c331a9b79046160f5c6085feb68f87fee6e0f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 13/28] fix: reject user ids whose bit length does not fit in
 16 bits

The length field wrapped around, so distinct (id, key) pairs could share the
same Z value.
---
 sm2/keyexchange.go | 4 ++++
 sm2/sm2.go         | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45ea929..6108783 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -106,6 +106,10 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if len(selfId) > maxUserIdBytes || len(otherId) > maxUserIdBytes {
+		return nil, errors.New("user id too long")
+	}
+
 	curve := selfStaticPriv.Curve
 	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) ||
 		!curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
diff --git a/sm2/sm2.go b/sm2/sm2.go
index 85e44d9..4869d46 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -20,6 +20,9 @@ const (
 	BitSize    = 256
 	KeyBytes   = (BitSize + 7) / 8
 	UnCompress = 0x04
+
+	// the bit length of a user id is hashed as a 16-bit integer
+	maxUserIdBytes = 0xFFFF / 8
 )
 
 type Sm2CipherTextType int32
@@ -539,6 +542,10 @@ func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err er
 		return nil, nil, errors.New("private key is not in [1, n-2]")
 	}
 
+	if len(userId) > maxUserIdBytes {
+		return nil, nil, errors.New("user id too long")
+	}
+
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
@@ -602,7 +609,7 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 		return false
 	}
 
-	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) || len(userId) > maxUserIdBytes {
 		return false
 	}
 
-- 
2.43.0


From d66a11e8e236b118e2b95d34fd09f2e22206ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 14/28] fix: padding must not write into the caller's backing
 array

When src was a prefix of a larger buffer the padding overwrote the bytes that
follow it.
---
 util/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..78ca4ca 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -17,7 +17,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From 3ba23d800593d42d84d856c0e8cac512183e10be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 15/28] fix: CBC mode reports a bad iv length as an error
 instead of panicking

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..0203757 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From afe99f339f75a6da9afa6247c8873e2cd9861fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 16/28] fix: read ASN.1 BOOLEANs with the BOOLEAN tag

ReadASN1Boolean looked for an INTEGER and ReadOptionalASN1Boolean consumed
the value before reading a second one, so no encoded boolean could be read.
---
 cryptobyte/asn1.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From 992348b61f809d624f0775a938a16c773e738db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 17/28] fix: AddASN1BigInt encodes -1 instead of panicking

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 24589d07de1f6d3f1c86a1bfe2572a27535b33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 18/28] fix: read OID components up to 31 bits and reject
 padded ones

Components above 28 bits, which the builder emits, could not be read back;
components with a redundant leading 0x80 octet were accepted.
---
 cryptobyte/asn1.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..d208396 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -377,11 +377,16 @@ func (s *String) ReadASN1Enum(out *int) bool {
 func (s *String) readBase128Int(out *int) bool {
 	ret := 0
 	for i := 0; len(*s) > 0; i++ {
-		if i == 4 {
+		// Subidentifiers are limited to 31 bits on every architecture.
+		if i == 5 || ret >= 1<<(31-7) {
 			return false
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		if i == 0 && b == 0x80 {
+			// Not minimally encoded (X.690, section 8.19.2).
+			return false
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From 11488a060a4071dfba0018b1e7d21cef571491ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 19/28] fix: fixed builders keep length-prefixed content

A fixed-size builder dropped the content of every length-prefixed child, and
silently truncated it when only the long-form length did not fit.
---
 cryptobyte/builder.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..696f673 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -251,6 +251,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
@@ -268,9 +272,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result // In case child reallocated result.
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From c6cd289678830a3fb7bfeb150281e3fa647f8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 20/28] fix: reading a negative number of bytes fails instead
 of panicking

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..cf7ac86 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if n < 0 || len(*s) < n {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From 507bbd7597e1f408d95b1f299926725634b2a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 21/28] fix: CreateCertificateRequest must not modify the
 template's attributes

---
 sm2/cert/gmx509.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..3f8a785 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -96,8 +96,18 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 	}
 	extensions = append(extensions, template.ExtraExtensions...)
 
+	// Copy the attributes, because the extensions may be appended to one of them below.
 	var attributes []pkix.AttributeTypeAndValueSET
-	attributes = append(attributes, template.Attributes...)
+	for _, attr := range template.Attributes {
+		values := make([][]pkix.AttributeTypeAndValue, len(attr.Value))
+		for i, value := range attr.Value {
+			values[i] = value[:len(value):len(value)]
+		}
+		attributes = append(attributes, pkix.AttributeTypeAndValueSET{
+			Type:  attr.Type,
+			Value: values,
+		})
+	}
 
 	if len(extensions) > 0 {
 		// specifiedExtensions contains all the extensions that we
-- 
2.43.0


From c55be57086a185f79f9bc774f0b23192dd6f739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 22/28] fix: report an unknown extended key usage as an error
 instead of panicking

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 3f8a785..ad2c3bd 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -733,7 +733,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 2e34926216e492be8cbd14ccd9dd292117e36fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 23/28] fix: reject extra elements inside a DER signature

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 4869d46..82d97da 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -534,6 +534,10 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	if len(rest) != 0 {
 		return nil, nil, errors.New("trailing data after signature")
 	}
+	// asn1.Unmarshal ignores further elements at the end of a SEQUENCE
+	if der, err := MarshalSign(sm2Sign.R, sm2Sign.S); err != nil || !bytes.Equal(der, sign) {
+		return nil, nil, errors.New("signature is not DER encoded")
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 737361666e0201a36066e5501431eec96a08969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 24/28] fix: reject extra elements inside a DER cipher text

---
 sm2/sm2.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 82d97da..a323e5e 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -437,6 +437,10 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err = checkCipherFields(rest, cipher.X, cipher.Y, cipher.C3); err != nil {
 			return nil, err
 		}
+		// asn1.Unmarshal ignores further elements at the end of a SEQUENCE
+		if der, err := asn1.Marshal(*cipher); err != nil || !bytes.Equal(der, in) {
+			return nil, errors.New("cipher text is not DER encoded")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -464,6 +468,10 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err = checkCipherFields(rest, cipher.X, cipher.Y, cipher.C3); err != nil {
 			return nil, err
 		}
+		// asn1.Unmarshal ignores further elements at the end of a SEQUENCE
+		if der, err := asn1.Marshal(*cipher); err != nil || !bytes.Equal(der, in) {
+			return nil, errors.New("cipher text is not DER encoded")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From afb32ea5dec3fbf46cc14f81e312fde27ecba80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 25/28] fix: cryptobyte: a fixed builder without room for a
 length prefix panicked

---
 cryptobyte/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 696f673..fa4145b 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
-- 
2.43.0


From 7642620e3cba466f17c734b98f638fe6df70349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:00 +0000
Subject: [PATCH 26/28] fix: domain names starting with an empty label were
 accepted

---
 sm2/cert/gmx509.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index ad2c3bd..a6bc98b 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -477,6 +477,11 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// The domain starts with an empty label, which
+				// the end of the loop would lose.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From 0385f39cd7f5fcfc5333a2f891c03abd91f90053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 27/28] fix: certificates without extensions carried an empty
 extension list

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index a6bc98b..6dfe0e0 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -986,7 +986,7 @@ type tbsCertificate struct {
 	PublicKey          publicKeyInfo
 	UniqueId           asn1.BitString   `asn1:"optional,tag:1"`
 	SubjectUniqueId    asn1.BitString   `asn1:"optional,tag:2"`
-	Extensions         []pkix.Extension `asn1:"optional,explicit,tag:3"`
+	Extensions         []pkix.Extension `asn1:"omitempty,optional,explicit,tag:3"`
 }
 
 type TBSCertificate tbsCertificate
-- 
2.43.0


From 84e72df94ab637689acbefe130101c56f8ab6ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 28/28] fix: cryptobyte reads of no bytes fail on a nil String

---
 cryptobyte/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index cf7ac86..a05823b 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -27,6 +27,9 @@ func (s *String) read(n int) []byte {
 	if n < 0 || len(*s) < n {
 		return nil
 	}
+	if n == 0 {
+		return []byte{} // also of a nil String, where (*s)[:0] is nil
+	}
 	v := (*s)[:n]
 	*s = (*s)[n:]
 	return v
-- 
2.43.0

