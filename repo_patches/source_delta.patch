From 2ed7cd96c4d035242e0069d8a9f4e4a20f103b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 01/67] fix: parsing hex into a non-zero Address, Hash,
 Signature or key must not keep old bits

hexdecode ORs each nibble into its destination, so decoding into a value
that was already set produced the bitwise OR of the two.
---
 hex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..88e4de9 100644
--- a/hex.go
+++ b/hex.go
@@ -50,6 +50,12 @@ func hexdecode(dst, src []byte) error {
 		return fmt.Errorf("size mismatch: %d != %d", len(dst), hexlen(src))
 	}
 
+	// dst may hold the previous contents of a
+	// re-used value; the nibbles are OR'd in below
+	for i := range dst {
+		dst[i] = 0
+	}
+
 	// If the input is an odd-sized hex string,
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
-- 
2.43.0


From 7e8c351a1409a5aa60695e5233c08cd1c73392eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 02/67] fix: encode a zero quantity as 0x0

Int and Uint64 marshaled zero as "0x", which is not a valid JSON-RPC
quantity and which other Ethereum software rejects.
---
 hex.go  | 3 +++
 seth.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hex.go b/hex.go
index 88e4de9..ed838a8 100644
--- a/hex.go
+++ b/hex.go
@@ -73,6 +73,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0") // a quantity always has at least one digit
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 1cfb47a..e9957b1 100644
--- a/seth.go
+++ b/seth.go
@@ -221,7 +221,9 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	// without leading zeros, so that a parsed
+	// zero is identical to the zero value
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From e35a0e9de5e8e718a8e08b6354b0c20cec39642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 03/67] fix: Transaction.Encode(nil) must produce an RLP list

Without a signature Encode returned the six fields back to back, which is
not the RLP encoding of anything; wrap them in a list like the signed form.
---
 transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index b733e63..d475e71 100644
--- a/transaction.go
+++ b/transaction.go
@@ -25,7 +25,9 @@ type Transaction struct {
 func (t *Transaction) Encode(sig *Signature) []byte {
 	var e rlpEncoder
 	if sig == nil {
-		e.EncodeTransaction(t)
+		var body rlpEncoder
+		body.EncodeTransaction(t)
+		e.EncodeList(body.Bytes())
 	} else {
 		e.EncodeSignedTx(t, sig)
 	}
-- 
2.43.0


From f098f66e7f202308cc74d1cea621c55bc5416375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 04/67] fix: Signature.Recover must reject signatures that no
 key can have made

If r is not the x-coordinate of a curve point, or the recovered point is
the point at infinity, Recover returned a meaningless key and no error.
---
 signature.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signature.go b/signature.go
index 8017350..b73fce2 100644
--- a/signature.go
+++ b/signature.go
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature: r is not the x-coordinate of a curve point")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
@@ -128,6 +131,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 
 	ex, ey := curve.ScalarBaseMult(e.Bytes())
 	qx, qy := curve.Add(sx, sy, ex, ey)
+	if qx.Sign() == 0 && qy.Sign() == 0 {
+		return nil, errors.New("invalid signature: recovered the point at infinity")
+	}
 
 	return NewPublicKey(qx, qy), nil
 }
-- 
2.43.0


From 1728b2a5752441c865d0972f6fbaebda35f2828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 05/67] fix: malformed key files must fail to open, not panic
 or yield another key

---
 keyfile.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/keyfile.go b/keyfile.go
index c01770a..7afef87 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -73,9 +73,26 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 		return nil, fmt.Errorf("pbkdf2 salt: %s", err)
 	}
 
+	if p.Iters < 1 {
+		return nil, fmt.Errorf("bad iteration count %d for pbkdf2", p.Iters)
+	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
+
 	return pbkdf2.Key(pass, salt, p.Iters, p.Keylen, h), nil
 }
 
+// checkKeylen checks the length of a derived key, of which
+// the first 16 bytes are the cipher key and the next 16 bytes
+// are the MAC key
+func checkKeylen(n int) error {
+	if n < 32 || n > 1024 {
+		return fmt.Errorf("bad derived key length %d", n)
+	}
+	return nil
+}
+
 func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	type params struct {
 		Keylen int    `json:"dklen"`
@@ -92,6 +109,12 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if p.R < 1 || p.P < 1 {
+		return nil, fmt.Errorf("bad scrypt params r=%d p=%d", p.R, p.P)
+	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
@@ -119,6 +142,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv: %d bytes", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
@@ -128,11 +154,11 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	return nil
 }
 
-// the keyfile MAC is the keccak256 of the last 16 bytes
+// the keyfile MAC is the keccak256 of the second 16 bytes
 // of the derived key, concatenated with the ciphertext
 func (k *Keyfile) checkmac(key, ciphertext []byte) error {
 	h := keccak.New256()
-	h.Write(key[len(key)-16:])
+	h.Write(key[16:32])
 	h.Write(ciphertext)
 	sum := h.Sum(nil)
 	want, err := hex.DecodeString(k.Crypto.MAC)
@@ -174,6 +200,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 		return nil, err
 	}
 	priv := new(PrivateKey)
+	if len(ciphertext) != len(priv) {
+		return nil, fmt.Errorf("bad private key length %d", len(ciphertext))
+	}
 	copy(priv[:], ciphertext)
 	if k.Address != "" {
 		want, err := hex.DecodeString(k.Address)
-- 
2.43.0


From 07305280e637e6676538f09ee68e870a76e04c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 06/67] fix: DecodeABI must decode every position and never
 panic on bad data

---
 send.go | 163 +++++++++++++++++++++-----------------------------------
 1 file changed, 61 insertions(+), 102 deletions(-)

diff --git a/send.go b/send.go
index c95c308..e2d64f8 100644
--- a/send.go
+++ b/send.go
@@ -344,130 +344,69 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 func DecodeABI(v []byte, args ...interface{}) error {
 	var spare big.Int
 	cur := v
-	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		offset := i * 32
+		if len(cur)-offset < 32 {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
-		}
+		buf := cur[offset : offset+32]
+		spare.SetBytes(buf)
 
-		// easy cases that don't involve converting types
-		// or handling variable-length types
-		did := true
+		var err error
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
-				*v = make([]byte, 32)
-			}
-			copy(*v, cur)
+			*v = append(make([]byte, 0, 32), buf...)
 		case *Address:
-			copy(v[:], cur[12:])
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
 			v.SetBytes(buf)
-		default:
-			did = false
-		}
-		if did {
-			offset += 32
-			continue
-		}
-
-		spare.SetBytes(buf)
-		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
+			var b []byte
+			if b, _, err = dynamic(cur, offset, 1); err == nil {
+				*v = string(b)
 			}
-			*v = string(cur[dpos : dpos+length])
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
+			var b []byte
+			if b, _, err = dynamic(cur, offset, 1); err == nil {
+				*v = append(make([]byte, 0, len(b)), b...)
 			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
-			}
-			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			var b []byte
+			if b, _, err = dynamic(cur, offset, 1); err == nil {
+				*v = append(make([]byte, 0, len(b)), b...)
 			}
-			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			s := make([]Int, length)
-			for i := range s {
-				o := int(dpos) + i*32
-				(*big.Int)(&s[i]).SetBytes(cur[o : o+32])
+			var b []byte
+			var n int
+			if b, n, err = dynamic(cur, offset, 32); err == nil {
+				s := make([]Int, n)
+				for i := range s {
+					(*big.Int)(&s[i]).SetBytes(b[i*32 : i*32+32])
+				}
+				*v = IntSlice(s)
 			}
-			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			s := make([]Address, length)
-			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+			var b []byte
+			var n int
+			if b, n, err = dynamic(cur, offset, 32); err == nil {
+				s := make([]Address, n)
+				for i := range s {
+					copy(s[i][:], b[i*32+12:i*32+32])
+				}
+				*v = AddrSlice(s)
 			}
-			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			s := make([]Data, length)
-			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+			var b []byte
+			var n int
+			if b, n, err = dynamic(cur, offset, 32); err == nil {
+				s := make([]Data, n)
+				for i := range s {
+					s[i] = append(make([]byte, 0, 32), b[i*32:i*32+32]...)
+				}
+				*v = DataSlice(s)
 			}
-			*v = DataSlice(s)
 		case *bool:
 			*v = spare.Sign() != 0
 		case *uint8:
@@ -493,7 +432,27 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		default:
 			return fmt.Errorf("unrecognized type %T", v)
 		}
-		offset += 32
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
+
+// dynamic finds the contents of the dynamic argument whose
+// head is at 'offset' in 'data', given the size of one element.
+// It returns the bytes of the elements and their number.
+func dynamic(data []byte, offset, size int) ([]byte, int, error) {
+	var spare big.Int
+	spare.SetBytes(data[offset : offset+32])
+	if !spare.IsInt64() || spare.Int64() < int64(offset+32) || spare.Int64() > int64(len(data)-32) {
+		return nil, 0, fmt.Errorf("bad offset %s for data length returned (%d)", spare.String(), len(data))
+	}
+	start := int(spare.Int64()) + 32
+	spare.SetBytes(data[start-32 : start])
+	if !spare.IsInt64() || spare.Int64() > int64((len(data)-start)/size) {
+		return nil, 0, fmt.Errorf("bad length %s for data length returned (%d)", spare.String(), len(data))
+	}
+	n := int(spare.Int64())
+	return data[start : start+n*size], n, nil
+}
-- 
2.43.0


From 7a29b9824e1a44c9525531272c033aa6b3dde8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 07/67] fix: ABIEncode must encode negative integers and check
 the argument count

---
 send.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/send.go b/send.go
index e2d64f8..3483ebe 100644
--- a/send.go
+++ b/send.go
@@ -41,9 +41,19 @@ func (a *Address) EncodeABI(v []byte) []byte {
 func (a *Address) internal() {}
 
 // EncodeABI implements EtherType
+//
+// Negative integers are encoded as a 256-bit two's complement.
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	b := (*big.Int)(i)
+	if b.Sign() < 0 {
+		min := new(big.Int).Lsh(big.NewInt(-1), 255)
+		if b.Cmp(min) < 0 {
+			panic("ABI encoding: integer overflow")
+		}
+		b = new(big.Int).Add(b, new(big.Int).Lsh(big.NewInt(1), 256))
+	}
+	bits := b.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
@@ -177,22 +187,28 @@ func typecheck(f string, args []EtherType) {
 		panic(f + " has a bad right paren")
 	}
 	var argstrings []string
-	if strings.Contains(f[lparen+1:rparen], ",") {
+	if lparen+1 < rparen {
 		argstrings = strings.Split(f[lparen+1:rparen], ",")
-		if len(argstrings) != len(args) {
-			panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
-		}
+	}
+	if len(argstrings) != len(args) {
+		panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
 	}
 	for i := range argstrings {
 		switch argstrings[i] {
+		case "":
+			panic(f + " has an empty argument type")
 		case "address":
 			if _, ok := args[i].(*Address); !ok {
 				panic("address argument not an address")
 			}
 		case "uint", "uint256", "int", "int256":
-			if _, ok := args[i].(*Int); !ok {
+			v, ok := args[i].(*Int)
+			if !ok {
 				panic(argstrings[i] + " argument not an Int")
 			}
+			if strings.HasPrefix(argstrings[i], "uint") && (*big.Int)(v).Sign() < 0 {
+				panic(argstrings[i] + " argument is negative")
+			}
 		case "bytes32":
 			if _, ok := args[i].(*Data); !ok {
 				if _, ok = args[i].(*Int); !ok {
-- 
2.43.0


From 7aa80aa2f1a1984078075d1635a99a0b3cd408f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 08/67] fix: connections of one RPCTransport must not share a
 response buffer

---
 client.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..385afa2 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,15 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		// not shared with any other connection's goroutine
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +48,27 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
+		var p *pending
+		// the requests pending now are not this connection's
+		// if we have reconnected since
+		if t.conn == conn {
+			p = t.pending[res.ID]
+		}
 		if p != nil {
-			delete(t.pending, t.res.ID)
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			c := res.Error
 			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From 193f108df992e0f8971e8d1031a94065efff1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 09/67] fix: Pending and Drain must look for the sender in the
 pending block

---
 sender.go | 8 ++------
 seth.go   | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/sender.go b/sender.go
index 6f4a522..9e3fd08 100644
--- a/sender.go
+++ b/sender.go
@@ -197,17 +197,13 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
-		if err != nil {
-			return err
-		}
-		txs, err := p.ParseTransactions()
+		txs, err := s.Pending()
 		if err != nil {
 			return err
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
diff --git a/seth.go b/seth.go
index e9957b1..24a75e2 100644
--- a/seth.go
+++ b/seth.go
@@ -523,7 +523,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From aed591c5b936354e43391b3de51700856e6c792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 10/67] fix: Cancel must outbid any gas price

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 9e3fd08..8a9cf96 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,7 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		opts.GasPrice = (*Int)(new(big.Int).Add((*big.Int)(&tx.GasPrice), big.NewInt(1)))
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 03cb1e26b5775c61ce6d85f5d554683a1fc90f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 11/67] fix: Filter must keep the server's id and must not
 outlive Close

---
 filter.go | 52 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/filter.go b/filter.go
index e11b991..6eb9cd1 100644
--- a/filter.go
+++ b/filter.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"log"
 	"math"
-	"math/big"
 	"strconv"
 	"sync"
 	"time"
@@ -12,7 +11,7 @@ import (
 
 // Filter represents a Log filter
 type Filter struct {
-	id  int64
+	id  json.RawMessage // as the server gave it
 	c   *Client
 	out chan *Log
 
@@ -31,10 +30,26 @@ func (f *Filter) Out() <-chan *Log { return f.out }
 
 func (f *Filter) seterr(err error) {
 	f.lock.Lock()
-	f.err = err
+	// a closed filter is gone from the server,
+	// so it is no error not to find it
+	if !f.closed {
+		f.err = err
+	}
 	f.lock.Unlock()
 }
 
+// send delivers logs until the filter is closed
+func (f *Filter) send(logs []Log) bool {
+	for i := range logs {
+		select {
+		case f.out <- &logs[i]:
+		case <-f.exit:
+			return false
+		}
+	}
+	return true
+}
+
 // Err returns an error if the filter
 // has encountered an error while fetching logs.
 func (f *Filter) Err() error {
@@ -71,10 +86,7 @@ func frecv(f *Filter) {
 		f.seterr(err)
 		goto done
 	}
-	for i := range logs {
-		f.out <- &logs[i]
-	}
-	if !f.poll {
+	if !f.send(logs) || !f.poll {
 		goto done
 	}
 	for {
@@ -90,8 +102,9 @@ func frecv(f *Filter) {
 				ticker.Stop()
 				goto done
 			}
-			for i := range logs {
-				f.out <- &logs[i]
+			ticker.Stop()
+			if !f.send(logs) {
+				goto done
 			}
 		}
 	}
@@ -99,23 +112,23 @@ done:
 	close(f.out)
 }
 
-func (c *Client) getLogs(id int64) ([]Log, error) {
+func (c *Client) getLogs(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterLogs", p, &o)
 	return o, err
 }
 
-func (c *Client) getUpdates(id int64) ([]Log, error) {
+func (c *Client) getUpdates(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterChanges", p, &o)
 	return o, err
 }
 
-func (c *Client) deleteFilter(id int64) {
+func (c *Client) deleteFilter(id json.RawMessage) {
 	var out bool
-	err := c.Do("eth_uninstallFilter", []json.RawMessage{itox(id)}, &out)
+	err := c.Do("eth_uninstallFilter", []json.RawMessage{id}, &out)
 	if err != nil || !out {
 		log.Printf("uninstallFilter: %s %v", err, out)
 	}
@@ -156,12 +169,15 @@ func (c *Client) FilterTopics(topics []*Hash, addr *Address, start, end int64) (
 	if err != nil {
 		return nil, err
 	}
-	var out Int
-	err = c.Do("eth_newFilter", []json.RawMessage{buf}, &out)
+	var id json.RawMessage
+	err = c.Do("eth_newFilter", []json.RawMessage{buf}, &id)
 	if err != nil {
 		return nil, err
 	}
-	id := (*big.Int)(&out).Int64()
+	// the id is a quantity of any size
+	if err := json.Unmarshal(id, new(Int)); err != nil {
+		return nil, err
+	}
 	f := &Filter{c: c, out: make(chan *Log, 20), exit: make(chan struct{}, 1), id: id, poll: poll}
 	go frecv(f)
 	return f, nil
-- 
2.43.0


From 401bf68b764f73e58c7350535140f3ed29ec2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 12/67] fix: BlockIterator must stop when nobody reads from it

---
 seth.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seth.go b/seth.go
index 24a75e2..c34f913 100644
--- a/seth.go
+++ b/seth.go
@@ -655,8 +655,11 @@ func (b *BlockIterator) getLoop(block int64, txs bool) {
 				time.Sleep(1 * time.Second)
 				continue
 			}
-			b.out <- v
-			block++
+			select {
+			case b.out <- v:
+				block++
+			case <-b.done:
+			}
 		}
 	}
 }
-- 
2.43.0


From 532420ebc0ab26e59221e0f453a77098b7575299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 13/67] fix: SourceOf must walk real instruction widths and not
 panic without a source

---
 compile.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..6cf909f 100644
--- a/compile.go
+++ b/compile.go
@@ -156,7 +156,7 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	if pc < 0 || pc >= len(c.pos) {
 		return nil
 	}
 	n := c.pos[pc]
@@ -169,17 +169,17 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
+	for len(out) < len(c.Code) {
 		width := 0
-		b := c.Code[i]
+		b := c.Code[len(out)]
 		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width = int(b - 0x5f)
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
 		// gets the same opcode number
-		for j := 0; j < width; j++ {
+		for j := 0; j < width && len(out) < len(c.Code); j++ {
 			out = append(out, opnum)
 		}
 		opnum++
@@ -278,6 +278,9 @@ func (s *solcout) toBundle() *CompiledBundle {
 //
 // NOTE: right now solc creates terrible source maps. You may
 // get the entire contract code back in the source string.
+//
+// The empty string is returned for a pc that is not part
+// of the code, or that doesn't correspond to any source.
 func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if len(c.srcmap) == 0 {
 		c.compileSourcemap()
@@ -287,7 +290,15 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	if info.f < 0 || info.f >= len(b.Sources) {
+		// code that isn't part of any source has file id -1
+		return ""
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From e144afbb9090c701a622e02aefe58fb0cae7f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 14/67] fix: bundles must hold the sources the compiler
 numbered, in one order, and bad bytecode is an error

---
 compile.go | 59 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/compile.go b/compile.go
index 6cf909f..d723aca 100644
--- a/compile.go
+++ b/compile.go
@@ -240,38 +240,52 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
-func (s *solcout) toBundle() *CompiledBundle {
-	nc := 0
-	for _, cs := range s.Contracts {
-		nc += len(cs)
+func (s *solcout) toBundle() (*CompiledBundle, error) {
+	nf := 0
+	for name, id := range s.Sources {
+		if id.ID < 0 {
+			return nil, fmt.Errorf("source %q has id %d", name, id.ID)
+		}
+		if id.ID >= nf {
+			nf = id.ID + 1
+		}
 	}
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, nf),
+		Sources:   make([]string, nf),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
 		b.Filenames[id.ID] = name
 	}
-	for _, contracts := range s.Contracts {
-		for contract, out := range contracts {
+	files := make([]string, 0, len(s.Contracts))
+	for file := range s.Contracts {
+		files = append(files, file)
+	}
+	sort.Strings(files)
+	for _, file := range files {
+		contracts := s.Contracts[file]
+		names := make([]string, 0, len(contracts))
+		for name := range contracts {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, contract := range names {
+			out := contracts[contract]
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				// code that needs to be linked has placeholders in it
+				return nil, fmt.Errorf("bytecode of %s:%s: %s", file, contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -440,14 +454,17 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle()
+	if err != nil {
+		return nil, fmt.Errorf("solc output: %s", err)
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
 		}
 	}
-	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+	for i, name := range b.Filenames {
+		b.Sources[i] = blob.Sources[name].Content
 	}
 	return b, nil
 }
-- 
2.43.0


From a7bb050bb5cf51a5612d089307dc76ce58e11ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 15/67] fix: the bundle cache must tell all sources apart and
 only remove its own files

---
 compile.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/compile.go b/compile.go
index d723aca..3b38b02 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -334,14 +333,18 @@ func short(h hash.Hash) string {
 }
 
 func cachename(sources []Source) string {
-	sort.Slice(sources, func(i, j int) bool {
+	// don't reorder the caller's slice
+	sources = append([]Source(nil), sources...)
+	sort.SliceStable(sources, func(i, j int) bool {
 		return sources[i].Filename < sources[j].Filename
 	})
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// each string is preceded by its length, so that
+		// different sources have different names
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
@@ -354,12 +357,15 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
-		if i != -1 && i != len(name)-1 {
-			all, err := filepath.Glob(name[:i+1] + "*")
+		dir, base := filepath.Split(name)
+		i := strings.IndexByte(base, '-')
+		if i != -1 && i != len(base)-1 {
+			all, err := ioutil.ReadDir(dir)
 			if err == nil {
-				for i := range all {
-					os.Remove(all[i])
+				for j := range all {
+					if strings.HasPrefix(all[j].Name(), base[:i+1]) {
+						os.Remove(filepath.Join(dir, all[j].Name()))
+					}
 				}
 			}
 		}
-- 
2.43.0


From 872ef15f9d7941a2c9726ba5a039f6dc60e5e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 16/67] fix: signatures must spell out tuple components

---
 abi.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/abi.go b/abi.go
index b92792f..f106573 100644
--- a/abi.go
+++ b/abi.go
@@ -32,9 +32,19 @@ func (c *CompiledContract) Find(desc string) *ABIDescriptor {
 // signature is the function selector, and for events,
 // the hash of the signature is the first topic in the log.
 func (d *ABIDescriptor) Signature() string {
-	var args []string
-	for i := range d.Inputs {
-		args = append(args, d.Inputs[i].Type)
+	return d.Name + canonicalTypes(d.Inputs)
+}
+
+// canonicalTypes returns the parenthesized list of the types of params
+func canonicalTypes(params []ABIParam) string {
+	var types []string
+	for i := range params {
+		typ := params[i].Type
+		if typ == "tuple" || strings.HasPrefix(typ, "tuple[") {
+			// a tuple is written as the list of its components
+			typ = canonicalTypes(params[i].Components) + typ[len("tuple"):]
+		}
+		types = append(types, typ)
 	}
-	return d.Name + "(" + strings.Join(args, ",") + ")"
+	return "(" + strings.Join(types, ",") + ")"
 }
-- 
2.43.0


From 1c5c96e844dc3882ac01a33ed13183856a30a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 17/67] fix: compile must not wait for a compiler that is
 blocked on its output

---
 compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compile.go b/compile.go
index 3b38b02..883e40a 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
+	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -450,6 +451,8 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	in.Close()
 	var jsout solcout
 	err = json.NewDecoder(out).Decode(&jsout)
+	// solc can't exit before all of its output is read
+	io.Copy(ioutil.Discard, out)
 	if err != nil {
 		cmd.Wait()
 		return nil, fmt.Errorf("reading solc output: %s", err)
-- 
2.43.0


From 4bb5cb952e4012305a66d6009932c46b56b9af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 18/67] fix: trees must keep their snapshots and copies apart,
 own their data and iterate in order

---
 tevm/tree.go | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..21de968 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -18,6 +18,10 @@ type tree struct {
 	All     []treenode
 	Snaps   []treesnap
 	Touched bool
+
+	// number of leading elements of All that
+	// this tree may have in common with its copies
+	shared int32
 }
 
 type treesnap struct {
@@ -141,7 +145,11 @@ func (t *Tree) Delete(key []byte) bool {
 }
 
 // Insert inserts a key-value pair into the trie
+//
+// The tree keeps copies of the arguments.
 func (t *Tree) Insert(key, value []byte) {
+	key = append(key[:0:0], key...)
+	value = append(value[:0:0], value...)
 	t.Root = t.insertat(t.Root, key, value)
 }
 
@@ -167,7 +175,7 @@ func (t *Tree) Get(key []byte) []byte {
 // Snapshot returns a snapshot number for the
 // current state of the tree
 func (t *Tree) Snapshot() int {
-	if t.Root == 0 {
+	if len(t.All) == 0 && len(t.Snaps) == 0 {
 		return -1
 	}
 	s := len(t.Snaps)
@@ -179,7 +187,7 @@ func (t *Tree) Snapshot() int {
 	return s
 }
 
-// CopyAt returns a logical copy of thre tree
+// CopyAt returns a logical copy of the tree
 // at a given snapshot. (As an optimization, the
 // data itself is not copied.) Updates to the returned
 // Tree will not be reflected in t.
@@ -194,13 +202,17 @@ func (t *Tree) CopyAt(snap int) Tree {
 		return Tree{}
 	}
 	s := t.Snaps[snap]
+	if t.shared < s.Allocated {
+		t.shared = s.Allocated
+	}
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
-		Root:  s.Root,
-		// make sure any appends to the node list
-		// cause reallocation of the backing data
-		All:   t.All[:s.Allocated:s.Allocated],
-		Epoch: t.Epoch + 1,
+		// make sure any appends to the snapshot and
+		// node lists cause reallocation of the backing data
+		Snaps:  t.Snaps[: snap+1 : snap+1],
+		Root:   s.Root,
+		All:    t.All[:s.Allocated:s.Allocated],
+		Epoch:  t.Epoch + 1,
+		shared: s.Allocated,
 	}
 }
 
@@ -213,21 +225,29 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
+	t.Snaps = t.Snaps[: snap+1 : snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	if s.Allocated < t.shared {
+		// the nodes being dropped may be in use by a copy,
+		// so they cannot be overwritten
+		t.All = t.All[:s.Allocated:s.Allocated]
+		t.shared = s.Allocated
+	} else {
+		t.All = t.All[:s.Allocated]
+	}
 	t.Epoch++
 }
 
 func (t *Tree) apply(node *treenode, fn func(k, v []byte) bool) bool {
-	if node.Left != 0 && !t.apply(t.num(node.Left), fn) {
+	// smaller keys are on the right
+	if node.Right != 0 && !t.apply(t.num(node.Right), fn) {
 		return false
 	}
 	if !fn(node.Key, node.Value) {
 		return false
 	}
-	if node.Right != 0 {
-		return t.apply(t.num(node.Right), fn)
+	if node.Left != 0 {
+		return t.apply(t.num(node.Left), fn)
 	}
 	return true
 }
-- 
2.43.0


From 9f7ef729bf0df2cbc125f49e8a2fc5aa99452ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 19/67] fix: creating an account keeps its balance, and sending
 to oneself creates no ether

---
 tevm/evm.go | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..ee1f162 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -141,9 +141,14 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	if s.Trace != nil {
 		s.Trace("CreateAccount", addr.String())
 	}
-	var empty Account
+	// as in geth, an account that is created over
+	// an existing one keeps the existing balance
 	a := seth.Address(addr)
-	s.setAccount(&a, &empty)
+	acct, _ := s.getAccount(&a)
+	bal := acct.Balance()
+	var newacct Account
+	newacct.SetBalance(bal.Big())
+	s.setAccount(&a, &newacct)
 }
 
 func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
@@ -719,23 +724,8 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 		return
 	}
 
-	aaddr, baddr := seth.Address(from), seth.Address(to)
-	facct, _ := st.getAccount(&aaddr)
-	fbcct, _ := st.getAccount(&baddr)
-
-	var ov big.Int
-	fb, tb := facct.Balance(), fbcct.Balance()
-	fbb, tbb := fb.Big(), tb.Big()
-
-	ov.Set(v)
-	fbb.Sub(fbb, v)
-	tbb.Add(tbb, &ov)
-
-	facct.SetBalance(fbb)
-	fbcct.SetBalance(tbb)
-
-	st.setAccount(&aaddr, &facct)
-	st.setAccount(&baddr, &fbcct)
+	st.SubBalance(from, v)
+	st.AddBalance(to, v)
 }
 
 func (c *Chain) context(sender [20]byte) vm.Context {
-- 
2.43.0


From 0c0b8e666d3b4c8da981c72cde8b69e9e845f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 20/67] fix: self-destruction must take the balance and remove
 the account when the transaction ends

---
 tevm/evm.go | 79 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 8 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index ee1f162..655b0af 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -94,6 +94,7 @@ type State struct {
 	Accounts     Tree
 	Code         Tree
 	Storage      Tree // key = hash(address, pointer)
+	Destroyed    Tree // key = address, value = number of times the account was destroyed
 	Preimage     Tree
 	Transactions Tree // key = txhash, value = serialized tx
 	Receipts     Tree // key = txhash, value = serialized rx
@@ -101,6 +102,10 @@ type State struct {
 
 	Logs []*types.Log
 	snapshots
+
+	// accounts that may have committed suicide
+	// in the current transaction
+	suicides []seth.Address
 }
 
 type snapshots struct {
@@ -135,6 +140,10 @@ type statesnap struct {
 	LogLen   int
 	TXs      int
 	RXs      int
+
+	// one more than the snapshot number, so that
+	// zero means the empty tree
+	Destroyed int
 }
 
 func (s *gethState) CreateAccount(addr common.Address) {
@@ -156,7 +165,7 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if ok {
 		return acct, true
 	}
-	if s.Fallback.Client == nil {
+	if s.Fallback.Client == nil || s.destroyed(addr) != 0 {
 		return acct, false
 	}
 	if s.Trace != nil {
@@ -252,7 +261,7 @@ func (s *gethState) GetCodeHash(addr common.Address) common.Hash {
 func (s *gethState) getCode(addr *seth.Address) []byte {
 	buf := s.Code.Get(addr[:])
 	c := s.Fallback.Client
-	if buf == nil && c != nil {
+	if buf == nil && c != nil && s.destroyed(addr) == 0 {
 		// TODO: don't do a superfluous GetCode here
 		// if we can determine that the account is a bare
 		// account with no code.
@@ -305,10 +314,47 @@ func (s *gethState) GetRefund() uint64 {
 	return uint64(s.Refund)
 }
 
-func stateKey(addr *common.Address, hash *common.Hash) seth.Hash {
-	var v [20 + 32]byte
+// destroyed returns the number of times that the
+// account at the given address has been destroyed
+func (s *gethState) destroyed(addr *seth.Address) uint64 {
+	v := s.Destroyed.Get(addr[:])
+	if len(v) != 8 {
+		return 0
+	}
+	return binary.BigEndian.Uint64(v)
+}
+
+// finalise ends a transaction by removing the
+// accounts that committed suicide in it
+func (s *gethState) finalise() {
+	for i := range s.suicides {
+		addr := &s.suicides[i]
+		acct, ok := s.treeAccount(addr)
+		if !ok || !acct.Suicided() {
+			continue // the suicide was reverted
+		}
+		// this also abandons the account's storage; see stateKey
+		var n [8]byte
+		binary.BigEndian.PutUint64(n[:], s.destroyed(addr)+1)
+		s.Destroyed.Insert(addr[:], n[:])
+		s.Accounts.Delete(addr[:])
+		s.Code.Delete(addr[:])
+	}
+	s.suicides = nil
+	s.Refund = 0
+}
+
+// stateKey returns the key of a storage slot. An account that is created
+// where another one was destroyed does not have the storage of that account.
+func (s *gethState) stateKey(addr *common.Address, hash *common.Hash) seth.Hash {
+	var v [20 + 32 + 8]byte
 	copy(v[:], addr[:])
 	copy(v[20:], hash[:])
+	n := s.destroyed((*seth.Address)(addr))
+	if n == 0 {
+		return seth.HashBytes(v[:20+32])
+	}
+	binary.BigEndian.PutUint64(v[20+32:], n)
 	return seth.HashBytes(v[:])
 }
 
@@ -323,10 +369,10 @@ func (s *gethState) GetState(addr common.Address, hash common.Hash) common.Hash
 	if s.Trace != nil {
 		s.Trace("GetState", addr.String(), hash.String())
 	}
-	h := stateKey(&addr, &hash)
+	h := s.stateKey(&addr, &hash)
 	var out common.Hash
 	v := s.Storage.Get(h[:])
-	if len(v) == 0 && s.Fallback.Client != nil {
+	if len(v) == 0 && s.Fallback.Client != nil && s.destroyed((*seth.Address)(&addr)) == 0 {
 		if s.Trace != nil {
 			s.Trace("Fallback GetState", addr.String(), hash.String())
 		}
@@ -348,7 +394,7 @@ func (s *gethState) SetState(addr common.Address, hash, value common.Hash) {
 	if s.Trace != nil {
 		s.Trace("SetState", addr.String(), hash.String(), value.String())
 	}
-	h := stateKey(&addr, &hash)
+	h := s.stateKey(&addr, &hash)
 
 	// We can only remove elements from the tree if we're
 	// not operating as an overlay for the main chain state.
@@ -388,11 +434,13 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
 	acct.SetSuicided(true)
+	acct.SetBalance(new(big.Int))
 	s.setAccount(&a, &acct)
+	s.suicides = append(s.suicides, a)
 	return true
 }
 
@@ -418,6 +466,7 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Accounts.Rollback(ns.Accounts)
 	s.Code.Rollback(ns.Code)
 	s.Storage.Rollback(ns.State)
+	s.Destroyed.Rollback(ns.Destroyed - 1)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
 	s.Logs = s.Logs[:ns.LogLen]
@@ -438,6 +487,8 @@ func (s *gethState) Snapshot() int {
 		TXs:      s.Transactions.Snapshot(),
 		RXs:      s.Receipts.Snapshot(),
 		LogLen:   len(s.Logs),
+
+		Destroyed: s.Destroyed.Snapshot() + 1,
 	}
 	s.Snapshots = append(s.Snapshots, snap)
 	return len(s.Snapshots) - 1
@@ -456,6 +507,7 @@ func (s *State) atSnap(n int, dst *State) {
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
+	dst.Destroyed = s.Destroyed.CopyAt(ns.Destroyed - 1)
 	dst.Transactions = s.Transactions.CopyAt(ns.TXs)
 	dst.Receipts = s.Receipts.CopyAt(ns.RXs)
 	// prevent any updates to this new state
@@ -757,12 +809,18 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 	return vm.NewEVM(c.context(sender), c.State.StateDB(), &theparams, theconfig)
 }
 
+// finalise ends a transaction
+func (c *Chain) finalise() {
+	(*gethState)(&c.State).finalise()
+}
+
 // Create executes a transation that deploys the given
 // code to a new contract address, and returns the address
 // of the newly created contract.
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
 	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
+	c.finalise()
 	c.mu.Unlock()
 	return seth.Address(addr), err
 }
@@ -790,6 +848,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
+	c.finalise()
 
 	c.mu.Unlock()
 
@@ -804,6 +863,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
 	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
+	c.finalise()
 	c.mu.Unlock()
 	return ret, err
 }
@@ -829,6 +889,7 @@ func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
 	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
+	c.finalise()
 	c.mu.Unlock()
 	return err
 }
@@ -919,6 +980,8 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	}
 
+	c.finalise()
+
 	if err != nil {
 		status = 0
 	}
-- 
2.43.0


From 5f3d4b0499c43cb87c7806c144802a11e0466479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 21/67] fix: RevertToSnapshot must drop later snapshots and
 blocks, and not overwrite the logs of views

---
 tevm/evm.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 655b0af..102dee8 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -144,6 +144,7 @@ type statesnap struct {
 	// one more than the snapshot number, so that
 	// zero means the empty tree
 	Destroyed int
+	Blocks    int
 }
 
 func (s *gethState) CreateAccount(addr common.Address) {
@@ -467,12 +468,16 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Code.Rollback(ns.Code)
 	s.Storage.Rollback(ns.State)
 	s.Destroyed.Rollback(ns.Destroyed - 1)
+	s.Blocks.Rollback(ns.Blocks - 1)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+
+	// views of the chain may have these in use,
+	// so new elements must not overwrite old ones
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
-	snaps = snaps[:v]
+	s.Snapshots = snaps[:v:v]
 }
 
 func (s *gethState) Snapshot() int {
@@ -489,6 +494,7 @@ func (s *gethState) Snapshot() int {
 		LogLen:   len(s.Logs),
 
 		Destroyed: s.Destroyed.Snapshot() + 1,
+		Blocks:    s.Blocks.Snapshot() + 1,
 	}
 	s.Snapshots = append(s.Snapshots, snap)
 	return len(s.Snapshots) - 1
@@ -503,11 +509,12 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
 	dst.Destroyed = s.Destroyed.CopyAt(ns.Destroyed - 1)
+	dst.Blocks = s.Blocks.CopyAt(ns.Blocks - 1)
 	dst.Transactions = s.Transactions.CopyAt(ns.TXs)
 	dst.Receipts = s.Receipts.CopyAt(ns.RXs)
 	// prevent any updates to this new state
-- 
2.43.0


From ade726bd2a544fcec9ca64e64a59622369bab8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 22/67] fix: an account with code exists and is not empty

---
 tevm/evm.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 102dee8..31797fd 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -183,7 +183,7 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if err != nil {
 		panic("fallback GetNonce: " + err.Error())
 	}
-	if nonce == 0 && bal.IsZero() {
+	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
 		return acct, false
 	}
 
@@ -293,7 +293,12 @@ func (s *gethState) SetCode(addr common.Address, data []byte) {
 	if s.Trace != nil {
 		s.Trace("SetCode", addr.String(), data)
 	}
-	s.Code.Insert(addr[:], data)
+	a := seth.Address(addr)
+	if acct, ok := s.getAccount(&a); !ok {
+		s.setAccount(&a, &acct)
+	}
+	// never nil, so that it is known to be set
+	s.Code.Insert(addr[:], append([]byte{}, data...))
 }
 
 func (s *gethState) GetCodeSize(addr common.Address) int {
@@ -423,7 +428,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From 90b88513c455bfade4de038c0cbad16ace8ca14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 23/67] fix: GASPRICE must not panic, and a failed CreateAt
 must leave nothing behind

---
 tevm/evm.go       | 4 ++++
 tevm/transport.go | 2 --
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 31797fd..1f3284b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -804,6 +804,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		BlockNumber: new(big.Int).SetInt64(int64(*b.Number)),
 		Time:        new(big.Int).SetInt64(int64(b.Timestamp)),
 		Difficulty:  new(big.Int).Set((*big.Int)(b.Difficulty)),
+		GasPrice:    new(big.Int),
 	}
 }
 
@@ -844,6 +845,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
 
 	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -855,6 +857,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
+		evm.StateDB.RevertToSnapshot(snap)
 		c.mu.Unlock()
 		return err
 	}
@@ -986,6 +989,7 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	var addr common.Address
 	status := 1
 	vm := c.evm(*tx.From)
+	vm.Context.GasPrice.Set(tx.GasPrice.Big())
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..e35b668 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"log"
-	"math/big"
 	"net/http"
 	"strconv"
 
@@ -409,7 +408,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	evm := c.evm(a.From)
 
 	// TODO: incorporate gas price
-	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
 
 	gas := uint64(c.State.Pending.GasLimit)
-- 
2.43.0


From fe2d6f31b14c7c224e0bff05e96510081769f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 24/67] fix: copies and views of a chain must be complete and
 independent of it

---
 tevm/evm.go       | 75 ++++++++++++++++++++++++++++++++++-------------
 tevm/transport.go |  6 ++--
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 1f3284b..98f24c2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -597,45 +597,80 @@ func (f *filter) matches(log *types.Log) bool {
 // Copy returns a new logical copy of the chain.
 // Copy avoids making a deep copy of the state.
 func (c *Chain) Copy() *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	cc := new(Chain)
 
 	// snapshot the current chain state
 	// and grab a logical copy of the snapshot
-	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
+	c.atSnap(((*gethState)(&c.State)).Snapshot(), cc)
+	cc.State.Preimage = c.State.Preimage.CopyAt(c.State.Preimage.Snapshot())
+
+	cc.State.Pending = new(seth.Block)
+	if _, err := cc.State.Pending.UnmarshalMsg(encode(c.State.Pending)); err != nil {
+		panic(err)
+	}
+	for i := range c.pendingrx {
+		rx := *c.pendingrx[i]
+		cc.pendingrx = append(cc.pendingrx, &rx)
+	}
 
-	p := *c.State.Pending
-	cc.State.Pending = &p
+	cc.filtcount = c.filtcount
+	if c.filters != nil {
+		cc.filters = make(map[int]*filter)
+		for fd, f := range c.filters {
+			nf := *f
+			cc.filters[fd] = &nf
+		}
+	}
 	return cc
 }
 
+// atSnap sets up dst so that its state is
+// a copy of the chain state at the given snapshot.
+func (c *Chain) atSnap(snap int, dst *Chain) {
+	c.State.atSnap(snap, &dst.State)
+	dst.Debugf = c.Debugf
+	dst.block2snap = make(map[int64]int)
+	for n, s := range c.block2snap {
+		if s < snap {
+			dst.block2snap[n] = s
+		}
+	}
+}
+
 // AtBlock returns the chain state at a given
 // block number. As a special case, -1 is interpreted
 // as the pending block (i.e. the current chain state),
 // and -2 is interpreted as the latest block (i.e. the
 // chain state just before the pending block).
 func (c *Chain) AtBlock(n int64) *Chain {
-	var snap int
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.atBlock(n)
+}
+
+func (c *Chain) atBlock(n int64) *Chain {
 	pending := int64(*c.State.Pending.Number)
 	switch n {
-	case pending - 1, -2: // latest
-		s, ok := c.block2snap[pending-1]
-		if ok {
-			n = pending - 1
-			snap = s
-			break
+	case -2: // latest
+		if cc := c.atSealed(pending - 1); cc != nil {
+			return cc
 		}
-		fallthrough
+		// no block has been sealed yet
+		return c
 	case pending, -1: // pending
-		n = pending
 		return c
 	default:
-		s, ok := c.block2snap[n]
-		if !ok {
-			return nil
-		}
-		snap = s
+		return c.atSealed(n)
 	}
+}
 
+func (c *Chain) atSealed(n int64) *Chain {
+	snap, ok := c.block2snap[n]
+	if !ok {
+		return nil
+	}
 	h := seth.Hash(n2h(uint64(n)))
 	buf := c.State.Blocks.Get(h[:])
 	if buf == nil {
@@ -648,10 +683,8 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	}
 
 	cc := new(Chain)
-	c.State.atSnap(snap, &cc.State)
-	cc.Debugf = c.Debugf
+	c.atSnap(snap, cc)
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
 	return cc
 }
 
@@ -744,7 +777,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
diff --git a/tevm/transport.go b/tevm/transport.go
index e35b668..84519b1 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -290,7 +290,7 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 
 // staticCall handles eth_call.
 func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
@@ -392,7 +392,7 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
-	c = c.AtBlock(block)
+	c = c.atBlock(block)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", block)
 	}
@@ -401,7 +401,7 @@ func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 
 // estimate handles eth_estimateGas.
 func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-- 
2.43.0


From ed1a2726fe2fdccba01bc96378611a1e1d7b4343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 25/67] fix: mined transactions must count nonces, and
 receipts, logs and blocks must be complete

---
 tevm/evm.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 98f24c2..39d6826 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -532,6 +532,15 @@ func (s *gethState) AddLog(l *types.Log) {
 	if s.Trace != nil {
 		s.Trace("AddLog", l)
 	}
+	// the index of a log is its position in the block
+	l.Index = 0
+	if n := len(s.Logs); n > 0 && s.Logs[n-1].BlockNumber == l.BlockNumber {
+		l.Index = s.Logs[n-1].Index + 1
+	}
+	if s.Pending != nil {
+		l.BlockHash = common.Hash(*s.Pending.Hash)
+		l.TxIndex = uint(len(s.Pending.Transactions))
+	}
 	s.Logs = append(s.Logs, l)
 }
 
@@ -1019,6 +1028,9 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	h = tx.Hash
 
 	l0 := len(c.State.Logs)
+	db := c.State.StateDB()
+	nonce := db.GetNonce(common.Address(*tx.From))
+	tx.Nonce = seth.Uint64(nonce)
 
 	var gas uint64
 	var addr common.Address
@@ -1028,8 +1040,13 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
+		db.SetNonce(common.Address(*tx.From), nonce+1)
 		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	}
+	if db.GetNonce(common.Address(*tx.From)) == nonce {
+		// creation failed before it took a nonce
+		db.SetNonce(common.Address(*tx.From), nonce+1)
+	}
 
 	c.finalise()
 
@@ -1050,12 +1067,13 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		BlockNumber: *b.Number,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
@@ -1090,7 +1108,7 @@ func (c *Chain) Seal() {
 		copy(rx.BlockHash[:], b.Hash[:])
 		c.State.Receipts.Insert(rx.Hash[:], encode(rx))
 	}
-	c.pendingrx = c.pendingrx[:0]
+	c.pendingrx = nil
 
 	// seal the current state
 	c.block2snap[int64(*b.Number)] = (*gethState)(&c.State).Snapshot()
@@ -1103,7 +1121,8 @@ func (c *Chain) Seal() {
 		Parent:          *b.Hash,
 		Hash:            &h,
 		GasLimit:        b.GasLimit,
-		Difficulty:      seth.NewInt(0),
+		Difficulty:      b.Difficulty,
+		Miner:           b.Miner,
 		TotalDifficulty: seth.NewInt(0),
 		Timestamp:       seth.Uint64(time.Now().Unix()),
 	}
-- 
2.43.0


From a6e26f4100e2599959cd0f4c20ab036622d63345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 26/67] fix: all methods of Chain must be safe for concurrent
 use and release the lock on panic

---
 tevm/evm.go       | 43 ++++++++++++++++++++++++++++---------------
 tevm/transport.go |  4 ++--
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 39d6826..92b49fd 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -730,6 +730,8 @@ func lconv(l []*types.Log) []seth.Log {
 // the returned log values do not include logs
 // from that fallback chain.
 func (c *Chain) Logs() []seth.Log {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	return lconv(c.State.Logs)
 }
 
@@ -798,6 +800,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 // NewAccount creates a new account with some ether in it.
 // The balance of the new account will be 'ether' * 10**18
 func (c *Chain) NewAccount(ether int) seth.Address {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	var addr seth.Address
 	rand.Read(addr[:])
 	if ether == 0 {
@@ -876,9 +880,9 @@ func (c *Chain) finalise() {
 // of the newly created contract.
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
 	c.finalise()
-	c.mu.Unlock()
 	return seth.Address(addr), err
 }
 
@@ -887,6 +891,7 @@ func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error)
 // increment the sender nonce or enforce callstack limits.
 func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 
 	evm := c.evm(*sender)
 	snap := evm.StateDB.Snapshot()
@@ -902,15 +907,12 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
 		evm.StateDB.RevertToSnapshot(snap)
-		c.mu.Unlock()
 		return err
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
 	c.finalise()
 
-	c.mu.Unlock()
-
 	return nil
 }
 
@@ -921,9 +923,9 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 // 'sig' must be in the canonical method signature encoding.
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
 	c.finalise()
-	c.mu.Unlock()
 	return ret, err
 }
 
@@ -931,25 +933,25 @@ func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherTy
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return ret, err
 }
 
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return defaultGasLimit - left, err
 }
 
 // Send creates a transaction that sends ether from one address to another.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
 	c.finalise()
-	c.mu.Unlock()
 	return err
 }
 
@@ -971,15 +973,15 @@ func (c *Chain) Sender(from *seth.Address) *seth.Sender {
 // SubBalance subtracts from the balance of an account.
 func (c *Chain) SubBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().SubBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 // AddBalance adds to the balance of an account.
 func (c *Chain) AddBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().AddBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
@@ -991,9 +993,8 @@ func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
 // BalanceOf returns the balance of an address, in Wei.
 func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {
 	c.mu.Lock()
-	b := c.balanceOf(addr)
-	c.mu.Unlock()
-	return b
+	defer c.mu.Unlock()
+	return c.balanceOf(addr)
 }
 
 func encode(v msgp.Marshaler) []byte {
@@ -1019,6 +1020,12 @@ func pretty(v interface{}) []byte {
 // rather than offering all of the gas in the block to the transaction,
 // which more faithfully mimics the behavior of an actual ethereum node.
 func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.mine(tx)
+}
+
+func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
 	b := c.State.Pending
 
 	// make up a tx hash:
@@ -1099,6 +1106,12 @@ func js(v interface{}) []byte {
 // same parameters (but with an update block number and hash,
 // and zeroed gas used).
 func (c *Chain) Seal() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.seal()
+}
+
+func (c *Chain) seal() {
 	b := c.State.Pending
 
 	// for all transactions in the block,
@@ -1131,11 +1144,11 @@ func (c *Chain) Seal() {
 // MarshalJSON implements json.Marshaler.
 func (c *Chain) MarshalJSON() ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	b, err := json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
 	}{c.State, c.block2snap})
-	c.mu.Unlock()
 	return b, err
 }
 
@@ -1149,8 +1162,8 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
-	c.mu.Unlock()
 	return nil
 }
diff --git a/tevm/transport.go b/tevm/transport.go
index 84519b1..60f854d 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -353,12 +353,12 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
-	_, h, err := c.Mine(a)
+	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
 	}
 	// For now, 1 tx per block.
-	c.Seal()
+	c.seal()
 	return &h, nil
 }
 
-- 
2.43.0


From 678c309a0d492ee23f57d4359ec7a8a83b11dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 27/67] fix: gas estimates must be enough, and constant calls
 behave like calls and leave no trace

---
 tevm/evm.go       | 85 ++++++++++++++++++++++++++++++++++-------------
 tevm/transport.go | 53 ++++++-----------------------
 2 files changed, 73 insertions(+), 65 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 92b49fd..fdf220b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -934,7 +934,7 @@ func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherTy
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
+	ret, _, err := c.try(c.callTx(sender, dst, sig, args), defaultGasLimit)
 	return ret, err
 }
 
@@ -942,8 +942,7 @@ func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.E
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	return defaultGasLimit - left, err
+	return c.tryEstimate(c.callTx(sender, dst, sig, args), defaultGasLimit)
 }
 
 // Send creates a transaction that sends ether from one address to another.
@@ -1010,6 +1009,64 @@ func pretty(v interface{}) []byte {
 	return buf
 }
 
+// run executes a transaction with the given amount of gas. It returns
+// the output, the address of the created contract, and the gas left over.
+func (c *Chain) run(tx *seth.Transaction, gas uint64) (ret []byte, addr common.Address, left uint64, err error) {
+	from := common.Address(*tx.From)
+	db := c.State.StateDB()
+	nonce := db.GetNonce(from)
+	vm := c.evm(*tx.From)
+	vm.Context.GasPrice.Set(tx.GasPrice.Big())
+	if tx.To == nil {
+		ret, addr, left, err = vm.Create(s2r(tx.From), []byte(tx.Input), gas, tx.Value.Big())
+	} else {
+		db.SetNonce(from, nonce+1)
+		ret, left, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), gas, tx.Value.Big())
+	}
+	if db.GetNonce(from) == nonce {
+		// creation failed before it took a nonce
+		db.SetNonce(from, nonce+1)
+	}
+	c.finalise()
+	return
+}
+
+// try is like run, except that it doesn't change any state.
+func (c *Chain) try(tx *seth.Transaction, gas uint64) (ret []byte, left uint64, err error) {
+	db := c.State.StateDB()
+	defer db.RevertToSnapshot(db.Snapshot())
+	ret, _, left, err = c.run(tx, gas)
+	return
+}
+
+// tryEstimate finds an amount of gas, no more than max,
+// with which the given transaction succeeds.
+func (c *Chain) tryEstimate(tx *seth.Transaction, max uint64) (uint64, error) {
+	_, left, err := c.try(tx, max)
+	if err != nil {
+		return 0, err
+	}
+	// A transaction can need more gas than it uses up, since
+	// calls inside of it only get to use some of what is left.
+	no, ok := max-left, max
+	if _, _, err := c.try(tx, no); err == nil {
+		return no, nil
+	}
+	for ok-no > 1 {
+		mid := no + (ok-no)/2
+		if _, _, err := c.try(tx, mid); err == nil {
+			ok = mid
+		} else {
+			no = mid
+		}
+	}
+	return ok, nil
+}
+
+func (c *Chain) callTx(sender, dst *seth.Address, sig string, args []seth.EtherType) *seth.Transaction {
+	return &seth.Transaction{From: sender, To: dst, Input: seth.Data(seth.ABIEncode(sig, args...))}
+}
+
 // Mine executes a transaction and returns
 // the return value of the transaction (if any) and the
 // transaction hash. Unlike the other methods of executing
@@ -1035,28 +1092,10 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	h = tx.Hash
 
 	l0 := len(c.State.Logs)
-	db := c.State.StateDB()
-	nonce := db.GetNonce(common.Address(*tx.From))
-	tx.Nonce = seth.Uint64(nonce)
+	tx.Nonce = seth.Uint64(c.State.StateDB().GetNonce(common.Address(*tx.From)))
 
-	var gas uint64
-	var addr common.Address
 	status := 1
-	vm := c.evm(*tx.From)
-	vm.Context.GasPrice.Set(tx.GasPrice.Big())
-	if tx.To == nil {
-		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
-	} else {
-		db.SetNonce(common.Address(*tx.From), nonce+1)
-		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
-	}
-	if db.GetNonce(common.Address(*tx.From)) == nonce {
-		// creation failed before it took a nonce
-		db.SetNonce(common.Address(*tx.From), nonce+1)
-	}
-
-	c.finalise()
-
+	ret, addr, gas, err := c.run(tx, uint64(tx.Gas))
 	if err != nil {
 		status = 0
 	}
diff --git a/tevm/transport.go b/tevm/transport.go
index 60f854d..89e1ed5 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -10,7 +10,6 @@ import (
 	"strconv"
 
 	"github.com/ethereum/go-ethereum/common"
-	"github.com/ethereum/go-ethereum/core/vm"
 	"github.com/philhofer/seth"
 )
 
@@ -59,10 +58,6 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	return nil
 }
 
-func (a *callArgs) Ref() vm.ContractRef {
-	return (*acctref)(&a.From)
-}
-
 // ServeHTTP implements http.Handler.
 func (s *Chain) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	defer r.Body.Close()
@@ -294,22 +289,21 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
-	evm := c.evm(a.From)
-	gas := uint64(c.State.Pending.GasLimit)
-	if a.Gas != 0 {
-		gas = uint64(a.Gas)
-	}
-	var to common.Address
-	if a.To != nil {
-		to = *a.To
-	}
-	ret, _, err := evm.StaticCall(a.Ref(), to, a.Data, gas)
+	ret, _, err := c.try(a.tx(), c.maxgas(a))
 	if err != nil {
 		return nil, err
 	}
 	return seth.Data(ret), nil
 }
 
+// maxgas returns the most gas that a call may use
+func (c *Chain) maxgas(a *callArgs) uint64 {
+	if a.Gas != 0 && a.Gas < c.State.Pending.GasLimit {
+		return uint64(a.Gas)
+	}
+	return uint64(c.State.Pending.GasLimit)
+}
+
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
@@ -405,33 +399,8 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-	evm := c.evm(a.From)
-
-	// TODO: incorporate gas price
-	snap := evm.StateDB.Snapshot()
-
-	gas := uint64(c.State.Pending.GasLimit)
-	if a.Gas != 0 {
-		gas = uint64(a.Gas)
-	}
-
-	if a.To == nil {
-		_, _, rem, err := evm.Create(a.Ref(), a.Data, gas, a.Value.Big())
-		if err != nil {
-			return 0, err
-		}
-		gas -= rem
-	} else {
-		_, rem, err := evm.Call(a.Ref(), *a.To, a.Data, gas, a.Value.Big())
-		if err != nil {
-			return 0, err
-		}
-		gas -= rem
-	}
-
-	evm.StateDB.RevertToSnapshot(snap)
-
-	return seth.Uint64(gas), nil
+	gas, err := c.tryEstimate(a.tx(), c.maxgas(a))
+	return seth.Uint64(gas), err
 }
 
 func marshal(from []json.RawMessage, to ...interface{}) error {
-- 
2.43.0


From 72de56f46f65c3d5104f72a07bce954fd028243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 28/67] fix: the server must reject bad parameters, understand
 block numbers and answer null for missing objects

---
 tevm/transport.go | 135 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 95 insertions(+), 40 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 89e1ed5..489f88e 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -6,8 +6,8 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math/big"
 	"net/http"
-	"strconv"
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/philhofer/seth"
@@ -33,11 +33,37 @@ func (c *callArgs) tx() *seth.Transaction {
 	}
 }
 
+// check returns an error if the arguments
+// cannot be those of a transaction
+func (c *callArgs) check() error {
+	for _, v := range []*big.Int{c.GasPrice.Big(), c.Value.Big()} {
+		if v.Sign() < 0 || v.BitLen() > 256 {
+			return fmt.Errorf("bad quantity %d", v)
+		}
+	}
+	return nil
+}
+
 type blocknum int64
 
+type filterID int
+
+func (f *filterID) UnmarshalJSON(buf []byte) error {
+	var i seth.Int
+	if err := i.UnmarshalJSON(buf); err != nil {
+		return err
+	}
+	if !i.Big().IsInt64() {
+		return fmt.Errorf("bad filter id %s", buf)
+	}
+	*f = filterID(i.Int64())
+	return nil
+}
+
 var rawlatest = []byte(`"latest"`)
 var rawpending = []byte(`"pending"`)
 var rawearliest = []byte(`"earliest"`)
+var rawnull = []byte(`null`)
 
 func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	switch {
@@ -47,13 +73,18 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 		*b = -2
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
+	case bytes.Equal(rawnull, buf):
+		// not given; keep the default
 	default:
-		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
-		if err != nil {
+		// should be a quantity
+		var i seth.Int
+		if err := i.UnmarshalJSON(buf); err != nil {
 			return err
 		}
-		*b = blocknum(i)
+		if i.Big().Sign() < 0 || !i.Big().IsInt64() {
+			return fmt.Errorf("bad block number %s", buf)
+		}
+		*b = blocknum(i.Int64())
 	}
 	return nil
 }
@@ -70,7 +101,17 @@ func (s *Chain) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	var res seth.RPCResponse
 	s.Execute(&jsr, &res)
-	err = json.NewEncoder(w).Encode(&res)
+	// a response has either a result or an error
+	out := struct {
+		ID      int             `json:"id"`
+		Version string          `json:"jsonrpc"`
+		Result  json.RawMessage `json:"result,omitempty"`
+		Error   *seth.RPCError  `json:"error,omitempty"`
+	}{ID: res.ID, Version: res.Version, Result: res.Result}
+	if res.Result == nil {
+		out.Error = &res.Error
+	}
+	err = json.NewEncoder(w).Encode(&out)
 	if err != nil {
 		log.Printf("error writing response: %s", err)
 		w.WriteHeader(500)
@@ -87,23 +128,30 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 		c.Debugf("request:\n%s\n", pretty(req))
 	}
 
-	c.mu.Lock()
-	ret, err := c.execute(req.Method, req.Params)
-	c.mu.Unlock()
+	var err error
+	res.Error = seth.RPCError{}
+	res.Result, err = c.reply(req.Method, req.Params)
 	if err != nil {
-		res.Result = nil
 		res.Error.Code = -32601
 		res.Error.Message = err.Error()
-		res.Error.Data = nil
-		err = nil
-	} else {
-		err = gross(ret, &res.Result)
 	}
 
 	if c.Debugf != nil {
 		c.Debugf("response:\n%s\n", pretty(res))
 	}
-	return err
+	return nil
+}
+
+func (c *Chain) reply(method string, params []json.RawMessage) (json.RawMessage, error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	ret, err := c.execute(method, params)
+	if err != nil {
+		return nil, err
+	}
+	// the result may be part of the state
+	// of the chain, so this needs the lock
+	return json.Marshal(ret)
 }
 
 func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, error) {
@@ -173,14 +221,15 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
-		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
-		return c.getBlock(&h, all)
+		cc := c.atBlock(int64(b))
+		if cc == nil {
+			return nil, nil
+		}
+		return cc.getBlock(cc.State.Pending.Hash, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
 			FromBlock blocknum      `json:"fromBlock,omitempty"`
@@ -194,23 +243,23 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.newFilter(req.FromBlock, req.ToBlock, req.Address, req.Topics)
 	case "eth_getFilterChanges":
-		var n seth.Int
+		var n filterID
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterChanges(int(n.Int64()))
+		return c.filterChanges(int(n))
 	case "eth_getFilterLogs":
-		var n seth.Int
+		var n filterID
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterLogs(int(n.Int64()))
+		return c.filterLogs(int(n))
 	case "eth_uninstallFilter":
-		var n seth.Int
+		var n filterID
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.deleteFilter(int(n.Int64()))
+		return c.deleteFilter(int(n))
 	default:
 		return nil, errors.New(method + ": unsupported method")
 	}
@@ -311,7 +360,7 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-			return nil, fmt.Errorf("unknown block hash %s", h)
+			return nil, nil
 		}
 		b = new(seth.Block)
 		if _, err := b.UnmarshalMsg(buf); err != nil {
@@ -341,12 +390,16 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 		}
 		ntx = append(ntx, js(tx))
 	}
-	b.Transactions = ntx
-	return b, nil
+	full := *b
+	full.Transactions = ntx
+	return &full, nil
 }
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
+	if a.Gas > c.State.Pending.GasLimit {
+		return nil, errors.New("transaction exceeds the block gas limit")
+	}
 	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
@@ -360,7 +413,7 @@ func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
 func (c *Chain) receipt(h seth.Hash) (*seth.Receipt, error) {
 	b := c.State.Receipts.Get(h[:])
 	if b == nil {
-		return nil, fmt.Errorf("receipt %s not found", h.String())
+		return nil, nil
 	}
 	r := new(seth.Receipt)
 	_, err := r.UnmarshalMsg(b)
@@ -374,7 +427,7 @@ func (c *Chain) receipt(h seth.Hash) (*seth.Receipt, error) {
 func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 	b := c.State.Transactions.Get(h[:])
 	if b == nil {
-		return nil, fmt.Errorf("no such transaction %s", h.String())
+		return nil, nil
 	}
 	tx := new(seth.Transaction)
 	_, err := tx.UnmarshalMsg(b)
@@ -408,15 +461,17 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if bytes.Equal(rawnull, from[i]) {
+			return fmt.Errorf("missing parameter %d", i)
+		}
+		if err := json.Unmarshal(from[i], to[i]); err != nil {
+			return fmt.Errorf("bad parameter %d: %s", i, err)
+		}
+		if args, ok := to[i].(*callArgs); ok {
+			if err := args.check(); err != nil {
+				return fmt.Errorf("bad parameter %d: %s", i, err)
+			}
+		}
 	}
 	return nil
 }
-
-func gross(x, y interface{}) error {
-	b, err := json.Marshal(x)
-	if err != nil {
-		return err
-	}
-	return json.Unmarshal(b, y)
-}
-- 
2.43.0


From cd95b1a19ecc77625273913ebaee9a022cdcf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 29/67] fix: the server must serve nonces, code and storage to
 the client

---
 tevm/transport.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 489f88e..bfbd90b 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -10,6 +10,7 @@ import (
 	"net/http"
 
 	"github.com/ethereum/go-ethereum/common"
+	"github.com/ethereum/go-ethereum/core/vm"
 	"github.com/philhofer/seth"
 )
 
@@ -207,6 +208,37 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 			return nil, err
 		}
 		return c.balance(&addr, int64(b))
+	case "eth_getTransactionCount":
+		var addr seth.Address
+		if err := marshal(params, &addr, &b); err != nil {
+			return nil, err
+		}
+		db, err := c.stateAt(int64(b))
+		if err != nil {
+			return nil, err
+		}
+		return seth.Uint64(db.GetNonce(common.Address(addr))), nil
+	case "eth_getCode":
+		var addr seth.Address
+		if err := marshal(params, &addr, &b); err != nil {
+			return nil, err
+		}
+		db, err := c.stateAt(int64(b))
+		if err != nil {
+			return nil, err
+		}
+		return seth.Data(db.GetCode(common.Address(addr))), nil
+	case "eth_getStorageAt":
+		var addr seth.Address
+		var slot seth.Hash
+		if err := marshal(params, &addr, &slot, &b); err != nil {
+			return nil, err
+		}
+		db, err := c.stateAt(int64(b))
+		if err != nil {
+			return nil, err
+		}
+		return seth.Hash(db.GetState(common.Address(addr), common.Hash(slot))), nil
 	case "eth_estimateGas":
 		a := new(callArgs)
 		if err := marshal(params, a, &b); err != nil {
@@ -437,6 +469,15 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 	return tx, nil
 }
 
+// stateAt returns the state at the given block
+func (c *Chain) stateAt(block int64) (vm.StateDB, error) {
+	c = c.atBlock(block)
+	if c == nil {
+		return nil, fmt.Errorf("unknown block number %d", block)
+	}
+	return c.State.StateDB(), nil
+}
+
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 	c = c.atBlock(block)
-- 
2.43.0


From df04600b4f5c8fc3e14d455e9550f187456dd904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 30/67] fix: filters must resolve their range, report each new
 log once, and match topics as Ethereum does

---
 tevm/evm.go       |  6 ++---
 tevm/transport.go | 65 ++++++++++++++++++++++++++++++++---------------
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index fdf220b..f7cda0d 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -589,13 +589,13 @@ func (f *filter) matches(log *types.Log) bool {
 	if f.addr != nil && log.Address != common.Address(*f.addr) {
 		return false
 	}
+	if len(f.topics) > len(log.Topics) {
+		return false
+	}
 	for i := range f.topics {
 		if f.topics[i] == nil {
 			continue
 		}
-		if len(log.Topics) <= i {
-			return false
-		}
 		if !bytes.Equal(log.Topics[i][:], f.topics[i][:]) {
 			return false
 		}
diff --git a/tevm/transport.go b/tevm/transport.go
index bfbd90b..8dcc20c 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -269,7 +269,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 			Address   *seth.Address `json:"address,omitempty"`
 			Topics    []*seth.Hash  `json:"topics,omitempty"`
 		}
-		req := new(newFilterReq)
+		req := &newFilterReq{FromBlock: -2, ToBlock: -2}
 		if err := marshal(params, req); err != nil {
 			return nil, err
 		}
@@ -298,9 +298,17 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
+	// a filter that starts at the latest or the pending
+	// block starts at what is that block now
+	switch pending := blocknum(*c.State.Pending.Number); from {
+	case -1:
+		from = pending
+	case -2:
+		from = pending - 1
+	}
 	c.filtcount++
 	if c.filters == nil {
 		c.filters = make(map[int]*filter)
@@ -310,10 +318,40 @@ func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.
 		to:     to,
 		addr:   addr,
 		topics: topics,
+
+		// changes are those since the filter was created
+		lastlog: c.sealedLogs(),
 	}
 	return c.filtcount, nil
 }
 
+// sealedLogs returns the number of logs in sealed blocks
+func (c *Chain) sealedLogs() int {
+	n := len(c.State.Logs)
+	for n > 0 && c.State.Logs[n-1].BlockNumber >= uint64(*c.State.Pending.Number) {
+		n--
+	}
+	return n
+}
+
+// filterRange returns the matching logs from the given
+// index on, and the index of the next one to inspect.
+func (c *Chain) filterRange(filt *filter, start int) ([]seth.Log, int) {
+	end := c.sealedLogs()
+	if filt.to == -1 {
+		end = len(c.State.Logs)
+	}
+	out := make([]seth.Log, 0)
+	for i := start; i < end; i++ {
+		if filt.matches(c.State.Logs[i]) {
+			var next seth.Log
+			l2l(c.State.Logs[i], &next)
+			out = append(out, next)
+		}
+	}
+	return out, end
+}
+
 func (c *Chain) filterLogs(fd int) ([]seth.Log, error) {
 	// unlike filterChanges, this is supposed
 	// to yield every matching entry to the filter
@@ -325,14 +363,9 @@ func (c *Chain) filterLogs(fd int) ([]seth.Log, error) {
 		return nil, fmt.Errorf("bad filter id %d", fd)
 	}
 
-	out := make([]seth.Log, 0)
-	for i := range c.State.Logs {
-		if filt.matches(c.State.Logs[i]) {
-			var next seth.Log
-			l2l(c.State.Logs[i], &next)
-			out = append(out, next)
-		}
-	}
+	// these are not going to be changes
+	var out []seth.Log
+	out, filt.lastlog = c.filterRange(filt, 0)
 	return out, nil
 }
 
@@ -345,16 +378,8 @@ func (c *Chain) filterChanges(fd int) ([]seth.Log, error) {
 		return nil, fmt.Errorf("bad filter id %d", fd)
 	}
 
-	out := make([]seth.Log, 0)
-	sub := c.State.Logs[filt.lastlog:]
-	for i := range sub {
-		if filt.matches(sub[i]) {
-			var next seth.Log
-			l2l(sub[i], &next)
-			out = append(out, next)
-		}
-	}
-	filt.lastlog += len(sub)
+	var out []seth.Log
+	out, filt.lastlog = c.filterRange(filt, filt.lastlog)
 	return out, nil
 }
 
-- 
2.43.0


From eda5b6dd52f26c18656ddc6e7982fd1827ffac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 31/67] fix: a failing node behind a fork must fail the
 request, not the server

---
 tevm/evm.go       | 19 +++++++++++++++----
 tevm/transport.go | 20 +++++++++++++++++++-
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index f7cda0d..8d4f667 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -132,6 +132,17 @@ func (s *gethState) setAccount(addr *seth.Address, acct *Account) {
 	s.Accounts.Insert(addr[:], acct[:])
 }
 
+// fallbackError is the value of the panic
+// when the fallback state cannot be read
+type fallbackError struct {
+	what string
+	err  error
+}
+
+func (f *fallbackError) Error() string {
+	return "fallback " + f.what + ": " + f.err.Error()
+}
+
 type statesnap struct {
 	Refund   seth.Uint64
 	Accounts int
@@ -176,12 +187,12 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	c := s.Fallback.Client
 	bal, err := c.GetBalanceAt(addr, s.Fallback.Block)
 	if err != nil {
-		panic("fallback GetBalance: " + err.Error())
+		panic(&fallbackError{"GetBalance", err})
 	}
 	acct.SetBalance((*big.Int)(&bal))
 	nonce, err := c.GetNonceAt(addr, s.Fallback.Block)
 	if err != nil {
-		panic("fallback GetNonce: " + err.Error())
+		panic(&fallbackError{"GetNonce", err})
 	}
 	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
 		return acct, false
@@ -271,7 +282,7 @@ func (s *gethState) getCode(addr *seth.Address) []byte {
 		var err error
 		buf, err = c.GetCodeAt(addr, s.Fallback.Block)
 		if err != nil {
-			panic("fallback GetCode: " + err.Error())
+			panic(&fallbackError{"GetCode", err})
 		}
 		if s.Trace != nil {
 			s.Trace("Fallback GetCode", addr.String())
@@ -385,7 +396,7 @@ func (s *gethState) GetState(addr common.Address, hash common.Hash) common.Hash
 		a := seth.Address(addr)
 		result, err := s.Fallback.StorageAt(&a, (*seth.Hash)(&hash), s.Fallback.Block)
 		if err != nil {
-			panic("fallback StorageAt: " + err.Error())
+			panic(&fallbackError{"StorageAt", err})
 		}
 		s.Storage.Insert(h[:], result[:])
 		v = result[:]
diff --git a/tevm/transport.go b/tevm/transport.go
index 8dcc20c..ee27919 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -143,9 +143,27 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 	return nil
 }
 
-func (c *Chain) reply(method string, params []json.RawMessage) (json.RawMessage, error) {
+func (c *Chain) reply(method string, params []json.RawMessage) (_ json.RawMessage, err error) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	if c.State.Fallback.Client != nil {
+		// the request fails, without having any effect,
+		// if the node that this is a fork of does
+		db := c.State.StateDB()
+		snap := db.Snapshot()
+		defer func() {
+			e := recover()
+			if e == nil {
+				return
+			}
+			ferr, ok := e.(*fallbackError)
+			if !ok {
+				panic(e)
+			}
+			db.RevertToSnapshot(snap)
+			err = ferr
+		}()
+	}
 	ret, err := c.execute(method, params)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c49ed6ddffa02a00ba0878b0ceb67ff57c216ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 32/67] fix: a saved chain must keep the receipts of the
 pending block

---
 tevm/evm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 8d4f667..4a306ee 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1198,7 +1198,8 @@ func (c *Chain) MarshalJSON() ([]byte, error) {
 	b, err := json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
-	}{c.State, c.block2snap})
+		Pendingrx  []*seth.Receipt `json:",omitempty"`
+	}{c.State, c.block2snap, c.pendingrx})
 	return b, err
 }
 
@@ -1207,6 +1208,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	var s struct {
 		State      State
 		Block2snap map[int64]int
+		Pendingrx  []*seth.Receipt
 	}
 	if err := json.Unmarshal(b, &s); err != nil {
 		return err
@@ -1215,5 +1217,6 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	defer c.mu.Unlock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
+	c.pendingrx = s.Pendingrx
 	return nil
 }
-- 
2.43.0


From 8df83e0f4b8ba51f949d18976eb7ce06223a5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:31 +0000
Subject: [PATCH 33/67] fix: parsing an amount without integer part must not
 add to the old amount

---
 cc/currency.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..2cb57fe 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -115,6 +115,7 @@ func parseDigits(num *big.Int, s string, digits int) (*big.Int, error) {
 	if ip == "" && fp == "" {
 		return nil, errors.New("cc: number cannot be empty")
 	}
+	num.SetInt64(0) // it may be in use
 	if ip != "" {
 		if !isdigit(rune(ip[0])) {
 			return nil, errors.New("cc: invalid character in integer part: " + s)
-- 
2.43.0


From c8652bcbfaedf37de23f541a3fe076b2f171a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 34/67] fix: amounts that are not addressable must not print
 and encode as their currency only

---
 cc/currency.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cc/currency.go b/cc/currency.go
index 2cb57fe..c5f0f14 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -480,12 +480,15 @@ func (a *Amount) Scan(s fmt.ScanState, verb rune) error {
 
 // String prints the currency amount next to the currency name, e.g.
 //  124.09123402 BTC
-func (a *Amount) String() string {
+//
+// String has a value receiver, since an Amount that is not
+// addressable would otherwise print like its Currency.
+func (a Amount) String() string {
 	return widestring(&a.Amount, a.Digits()) + " " + string(a.Currency)
 }
 
 // MarshalText implements encoding.TextMarshaler.
-func (a *Amount) MarshalText() ([]byte, error) {
+func (a Amount) MarshalText() ([]byte, error) {
 	return []byte(a.String()), nil
 }
 
-- 
2.43.0


From 23b78d3df4de8726241f21402f2311afae9129f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 35/67] fix: NewRate must return the closest rate

---
 cc/currency.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index c5f0f14..e9c7255 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -32,8 +32,11 @@ func NewRate(f float64) *Rate {
 	rat.SetFloat64(f)
 	num, denom := rat.Num(), rat.Denom()
 	if num.Sign() != 0 {
+		// floor(num/denom + 1/2)
 		pow10(num, RateDigits)
-		num.Div(num, denom)
+		num.Lsh(num, 1)
+		num.Add(num, denom)
+		num.Div(num, new(big.Int).Lsh(denom, 1))
 	}
 	return (*Rate)(num)
 }
-- 
2.43.0


From e3ecef491b43c110bcf372c2ea0a9b8b859af25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 36/67] fix: decoding a rate from a lone quote must not panic

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index e9c7255..5c5a755 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -182,7 +182,7 @@ func (r *Rate) UnmarshalJSON(b []byte) error {
 	if string(b) == "null" {
 		return nil
 	}
-	if len(b) > 0 && b[0] == '"' && b[len(b)-1] == '"' {
+	if len(b) > 1 && b[0] == '"' && b[len(b)-1] == '"' {
 		b = b[1 : len(b)-1]
 	}
 	n, err := ParseRate(string(b))
-- 
2.43.0


From a3d5ef0296b2caf6aa4db89707d878d66a66fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 37/67] fix: IsOnCurve must refuse coordinates outside the
 field

---
 ec/btcec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ec/btcec.go b/ec/btcec.go
index 0a711b3..9053d66 100644
--- a/ec/btcec.go
+++ b/ec/btcec.go
@@ -106,6 +106,11 @@ func (curve *KoblitzCurve) fieldJacobianToBigAffine(x, y, z *fieldVal) (*big.Int
 // Part of the elliptic.Curve interface. This function differs from the
 // crypto/elliptic algorithm since a = 0 not -3.
 func (curve *KoblitzCurve) IsOnCurve(x, y *big.Int) bool {
+	// Coordinates are elements of the field.
+	if x.Sign() < 0 || x.Cmp(curve.P) >= 0 || y.Sign() < 0 || y.Cmp(curve.P) >= 0 {
+		return false
+	}
+
 	// Convert big ints to field values for faster arithmetic.
 	fx, fy := curve.bigAffineToField(x, y)
 
-- 
2.43.0


From 34de2a2d1f1b7f6066ef1b5e9020e698bc9345ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 38/67] fix: bindgen must map every supported ABI type to a
 type that can carry it

---
 bindgen/main.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index f3c9f4b..be3f0ee 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -103,20 +103,21 @@ func main() {
 }
 
 func typeconv(a string) string {
-	switch a {
-	case "bool", "int8", "int16", "int32", "int64",
-		"uint8", "uint16", "uint32", "uint64":
-		fallthrough
-	case "int", "uint", "uint128", "uint256":
+	switch {
+	case a == "bool", isint(a):
 		return "*seth.Int"
-	case "address":
+	case a == "address":
 		return "*seth.Address"
-	case "address[]":
+	case a == "string", a == "bytes":
+		return "*seth.Bytes"
+	case a == "address[]":
 		return "*seth.AddrSlice"
-	case "uint256[]":
+	case strings.HasSuffix(a, "[]") && isint(a[:len(a)-2]):
 		return "*seth.IntSlice"
+	case strings.HasSuffix(a, "[]") && isfixed(a[:len(a)-2]):
+		return "*seth.DataSlice"
 	default:
-		return "seth.Data"
+		return "*seth.Data"
 	}
 }
 
@@ -125,23 +126,30 @@ func rettype(a string) string {
 	case "bool", "int8", "int16", "int32", "int64",
 		"uint8", "uint16", "uint32", "uint64":
 		return a
-	case "int", "uint", "uint128", "uint256":
-		return "seth.Int"
-	case "address":
-		return "seth.Address"
-	case "address[]":
-		return "seth.AddrSlice"
-	case "uint256[]":
-		return "seth.IntSlice"
 	case "string":
 		return "string"
 	case "bytes":
 		return "[]byte"
 	default:
-		return "seth.Data"
+		return deref(typeconv(a))
 	}
 }
 
+// isint returns whether a is one of the integer types
+func isint(a string) bool {
+	a = strings.TrimPrefix(a, "u")
+	return strings.HasPrefix(a, "int") && isdigits(a[len("int"):])
+}
+
+// isfixed returns whether a is one of bytes1 through bytes32
+func isfixed(a string) bool {
+	return a != "bytes" && strings.HasPrefix(a, "bytes") && isdigits(a[len("bytes"):])
+}
+
+func isdigits(a string) bool {
+	return strings.Trim(a, "0123456789") == ""
+}
+
 func deref(v string) string {
 	if len(v) > 0 && v[0] == '*' {
 		return v[1:]
-- 
2.43.0


From 73856006e5f35bf3c9ba6e8b0e7903052aa0ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 39/67] fix: bindgen must bind view and pure functions as
 constant calls

---
 bindgen/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index be3f0ee..342c63a 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -179,8 +179,10 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 		if d.Type != "function" {
 			continue
 		}
+		// newer compilers only report the state mutability
+		constant := d.Constant || d.Mutability == "view" || d.Mutability == "pure"
 		// don't do anything for pointless functions
-		if d.Constant && len(d.Outputs) == 0 {
+		if constant && len(d.Outputs) == 0 {
 			continue
 		}
 
@@ -194,7 +196,7 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 		}
 		fmt.Fprint(w, strings.Join(argstrs, ", ")+") ")
 
-		if d.Constant {
+		if constant {
 			var retargs []string
 			for i := range d.Outputs {
 				// TODO: handle composite types (tuples, structs)
-- 
2.43.0


From 965932ff58f44b55336a8e5c2ff02f472063440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 40/67] fix: bindgen must give overloaded functions distinct
 method names

---
 bindgen/main.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index 342c63a..53f23d1 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -157,6 +157,31 @@ func deref(v string) string {
 	return v
 }
 
+// methodNames returns a distinct method name for each
+// descriptor in the ABI. Overloaded functions after the
+// first one have a number appended to their name.
+func methodNames(abi []seth.ABIDescriptor) []string {
+	titles := make(map[string]bool)
+	for i := range abi {
+		titles[strings.Title(abi[i].Name)] = true
+	}
+	used := make(map[string]bool)
+	names := make([]string, len(abi))
+	for i := range abi {
+		if abi[i].Type != "function" {
+			continue
+		}
+		title := strings.Title(abi[i].Name)
+		name := title
+		for n := 0; used[name] || (name != title && titles[name]); n++ {
+			name = fmt.Sprintf("%s%d", title, n)
+		}
+		used[name] = true
+		names[i] = name
+	}
+	return names
+}
+
 func generate(w io.Writer, c *seth.CompiledContract) {
 	if bin {
 		fmt.Fprintf(w, "var %sCode = %#v\n", c.Name, c.Code)
@@ -174,6 +199,7 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 	fmt.Fprintln(w, "}")
 
 	// methods
+	names := methodNames(c.ABI)
 	for i := range c.ABI {
 		d := &c.ABI[i]
 		if d.Type != "function" {
@@ -188,7 +214,7 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 
 		fmt.Fprintln(w)
 
-		fmt.Fprintf(w, "func (z *%s) %s(", c.Name, strings.Title(d.Name))
+		fmt.Fprintf(w, "func (z *%s) %s(", c.Name, names[i])
 		// input arguments
 		var argstrs []string
 		for i := range d.Inputs {
-- 
2.43.0


From 281314e35c049875b4e046835428f2a272a2cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 41/67] fix: eth call must parse array arguments

---
 cmd/eth/call.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..426f059 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -86,11 +86,12 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if len(val) < 2 || val[0] != '[' || val[len(val)-1] != ']' {
 		fatalf("array values must be enclosed with square braces\n")
 	}
+	val = val[1 : len(val)-1]
 	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
+	if val == "" {
 		// doesn't really matter what type this is...
 		s := make(seth.IntSlice, 0)
 		return &s
-- 
2.43.0


From c6fe5a3e6f0cbcdb04852351e6652ebe84b76b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 42/67] fix: eth call must accept exactly the integers of each
 type

---
 cmd/eth/call.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 426f059..249af09 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -79,7 +79,16 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
+	// a signed value is in range if it, or its complement
+	// if it is negative, fits in one bit less
+	mag := v
+	if signed {
+		bitwidth--
+		if v.Sign() < 0 {
+			mag = new(big.Int).Not(v)
+		}
+	}
+	if mag.BitLen() > bitwidth {
 		fatalf("value %q overflows bit-width %d", s, bitwidth)
 	}
 	return (*seth.Int)(v)
@@ -139,17 +148,17 @@ func parsearg(typ, val string) seth.EtherType {
 	case "bytes":
 		return etherbytes(val)
 	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
+		return etherint(val, 8, typ == "int8")
 	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
+		return etherint(val, 16, typ == "int16")
 	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
+		return etherint(val, 32, typ == "int32")
 	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
+		return etherint(val, 64, typ == "int64")
 	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
+		return etherint(val, 128, typ == "int128")
 	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
+		return etherint(val, 256, typ == "int256")
 	case "address":
 		return etheraddr(val)
 	}
-- 
2.43.0


From 188a8c04dbb42634cab178737e91c974413b1c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 43/67] fix: eth call must encode the text of string arguments

---
 cmd/eth/call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 249af09..1a409fc 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -30,7 +30,8 @@ func init() {
 }
 
 func etherstring(s string) seth.EtherType {
-	return etherbytes(s)
+	b := seth.Bytes(s)
+	return &b
 }
 
 func unhex(s string) []byte {
-- 
2.43.0


From 87c571647fd61c8e3f1ffb7ff12dc5945014412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 44/67] fix: eth call must report a bad or unknown signature
 without crashing

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 1a409fc..d6e605c 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -182,7 +182,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -203,7 +203,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From dd3e24e1613047239c42ba268d86da236be6c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 45/67] fix: eth call must refuse more arguments than the
 signature has

---
 cmd/eth/call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index d6e605c..e0edfa5 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -237,6 +237,9 @@ func call(fs *flag.FlagSet) {
 
 	c := client()
 	callargs := parsefn(c, addr, args[1], args[2:])
+	if len(args[2:]) != len(callargs) {
+		fatalf("signature wants %d arguments, but %d were provided\n", len(callargs), len(args[2:]))
+	}
 
 	sign, from := signer()
 	opts := seth.CallOpts{
-- 
2.43.0


From 6ad47852ed24c3ac1b299e4c04ea7b967800c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 46/67] fix: eth jumptab must read entries of every push width
 up to the end of the code

---
 cmd/eth/jumptab.go | 66 +++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/cmd/eth/jumptab.go b/cmd/eth/jumptab.go
index 64cf541..2cf8e6b 100644
--- a/cmd/eth/jumptab.go
+++ b/cmd/eth/jumptab.go
@@ -174,42 +174,54 @@ func jumpentries(code []byte) []jmpentry {
 	//
 	//   PUSH4 0x06fdde03 DUP2 EQ PUSH2 0x0145 JUMPI
 	//
-	// TODO: is the PUSH after EQ always PUSH2?
-	// That would make the code a bit simpler.
+	// The prefix and the destination are pushed with the
+	// shortest PUSH that can hold them.
 	var entries []jmpentry
 	base := code[preamble:]
-	for len(base) > 12 {
-		var pushbytes, prefixbytes [4]byte
-
-		if base[0] == oppush1+3 &&
-			base[5] == opdup1+1 &&
-			base[6] == opeq {
-			// first case: PUSH4 <prefix> DUP2 EQ
-			copy(prefixbytes[:], base[1:5])
-		} else if base[0] == opdup1 &&
-			base[1] == oppush1+3 &&
-			base[6] == opeq {
-			// second case: DUP1 PUSH4 <prefix> EQ
-			copy(prefixbytes[:], base[2:6])
+	for {
+		var e jmpentry
+		var prefix, dest []byte
+
+		if len(base) > 0 && base[0] == opdup1 {
+			// DUP1 PUSH <prefix>
+			prefix, base = pushed(base[1:])
 		} else {
+			// PUSH <prefix> DUP2
+			prefix, base = pushed(base)
+			if len(base) == 0 || base[0] != opdup1+1 {
+				break
+			}
+			base = base[1:]
+		}
+		if prefix == nil || len(base) == 0 || base[0] != opeq {
 			break
 		}
-
-		// width of PUSH used to identify PC
-		pwidth := 1 + int(base[7]-oppush1)
-		if pwidth > 4 {
+		dest, base = pushed(base[1:])
+		if dest == nil || len(base) == 0 || base[0] != opjumpi {
 			break // ???
 		}
-		copy(pushbytes[4-pwidth:], base[8:8+pwidth])
-		if base[8+pwidth] != opjumpi {
-			break // ???
+		base = base[1:]
+
+		copy(e.prefix[4-len(prefix):], prefix)
+		for _, b := range dest {
+			e.jmpdest = e.jmpdest<<8 | int(b)
 		}
-		entries = append(entries, jmpentry{
-			prefix:  prefixbytes,
-			jmpdest: int(binary.BigEndian.Uint32(pushbytes[:])),
-		})
-		base = base[8+pwidth+1:]
+		entries = append(entries, e)
 	}
 
 	return entries
 }
+
+// pushed returns the operand of the PUSH1 through PUSH4
+// instruction at the start of code, and the code after it,
+// or nil if there is no such instruction
+func pushed(code []byte) (arg, rest []byte) {
+	if len(code) == 0 || code[0] < oppush1 || code[0] > oppush1+3 {
+		return nil, nil
+	}
+	width := 1 + int(code[0]-oppush1)
+	if len(code) < 1+width {
+		return nil, nil
+	}
+	return code[1 : 1+width], code[1+width:]
+}
-- 
2.43.0


From d641ea7f3f1203cdfdba96a7d9c8e37415e95c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 47/67] fix: eth jumptab must read the first jump table of the
 code

---
 cmd/eth/jumptab.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/eth/jumptab.go b/cmd/eth/jumptab.go
index 2cf8e6b..b7c2d17 100644
--- a/cmd/eth/jumptab.go
+++ b/cmd/eth/jumptab.go
@@ -151,17 +151,19 @@ func jumptab(fs *flag.FlagSet) {
 
 func jumpentries(code []byte) []jmpentry {
 	// for each of the possible jump table preambles,
-	// try to find an appropriate match in the code
-	preamble := -1
+	// try to find an appropriate match in the code; the
+	// first one is the contract's own, since the code of
+	// contracts that it creates comes after
+	first, preamble := -1, -1
 	for _, p := range prefixes {
 		buf, err := hex.DecodeString(p)
 		if err != nil {
 			panic(err)
 		}
-		preamble = bytes.Index(code, buf)
-		if preamble != -1 {
-			preamble = preamble + len(buf)
-			break
+		i := bytes.Index(code, buf)
+		if i != -1 && (first == -1 || i < first) {
+			first = i
+			preamble = i + len(buf)
 		}
 	}
 	if preamble == -1 {
-- 
2.43.0


From 9743e8a5c84d1d306c37a8b1f54e18541b1d65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 48/67] fix: a signature with a recovery id other than 0 or 1
 is not valid

---
 signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index b73fce2..b40e15d 100644
--- a/signature.go
+++ b/signature.go
@@ -82,7 +82,7 @@ func (z *Signature) parts() (r, s big.Int, v int, ok bool) {
 	if s.Sign() == 0 {
 		return
 	}
-	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
+	ok = v <= 1 && r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
 	return
 }
 
-- 
2.43.0


From a83978b1f664b6f5cab9511179c5c37868dcf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 49/67] fix: eth must sign with the key that matched

---
 cmd/eth/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..a1fce29 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -156,6 +156,7 @@ func signer() (seth.Signer, seth.Address) {
 		fatalf("bad keyspec %q\n", err)
 	}
 	for _, kd := range keys() {
+		kd := kd // matched must not follow the loop
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
-- 
2.43.0


From 245648d62ad7c32e220f19b7609fa9caa8a202bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 50/67] fix: eth sign must read standard input for "-"

---
 cmd/eth/sign.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/eth/sign.go b/cmd/eth/sign.go
index 2dfe974..c94cc6e 100644
--- a/cmd/eth/sign.go
+++ b/cmd/eth/sign.go
@@ -50,9 +50,13 @@ func sign(fs *flag.FlagSet) {
 		fatalf("eth sign: cannot specify more than one of -x or -j at a time\n")
 	}
 
-	f, err := os.Open(args[0])
-	if err != nil {
-		fatalf("cannot sign %s: %s\n", args[0], err)
+	f := os.Stdin
+	if args[0] != "-" {
+		var err error
+		f, err = os.Open(args[0])
+		if err != nil {
+			fatalf("cannot sign %s: %s\n", args[0], err)
+		}
 	}
 	buf, err := ioutil.ReadAll(f)
 	if err != nil {
-- 
2.43.0


From 79c914f8d08dfcfeb211ddf825d0258a9757c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 51/67] fix: eth block must show ranges that start at the
 pending block

---
 cmd/eth/block.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 8b4d0d9..4ffcf84 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -28,6 +28,19 @@ func showblock(b *seth.Block) {
 	fmt.Printf("%s\n", buf)
 }
 
+// resolve gets the number of a block, which
+// the pending block need not have
+func resolve(c *seth.Client, b *seth.Block) int64 {
+	if b.Number != nil {
+		return int64(*b.Number)
+	}
+	latest := getblock(c, seth.Latest, false)
+	if latest.Number == nil {
+		fatalf("latest block has no number\n")
+	}
+	return int64(*latest.Number) + 1
+}
+
 func blockrange(c *seth.Client, spec string) {
 	var split []string
 	var opstr string
@@ -46,8 +59,12 @@ func blockrange(c *seth.Client, spec string) {
 	// an absolute number; we may actually
 	// have to fetch the block to do this
 	start := blocknum(split[0])
+	var first *seth.Block
 	if start < 0 {
-		start = int64(*(getblock(c, start, false).Number))
+		// keep this block, since the pending block
+		// can't be had by its number
+		first = getblock(c, start, true)
+		start = resolve(c, first)
 	}
 
 	diff, err := strconv.ParseInt(split[1], 0, 64)
@@ -60,7 +77,11 @@ func blockrange(c *seth.Client, spec string) {
 	}
 
 	for i := int64(0); i < diff; i++ {
-		showblock(getblock(c, op(start, i), true))
+		b := first
+		if i > 0 || b == nil {
+			b = getblock(c, op(start, i), true)
+		}
+		showblock(b)
 	}
 }
 
-- 
2.43.0


From 5b43b23b02c23c32a59ea2a78a55acf1ab00c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 52/67] fix: eth block must refuse ranges that go below block
 zero

---
 cmd/eth/block.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 4ffcf84..6ca6618 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -71,6 +71,12 @@ func blockrange(c *seth.Client, spec string) {
 	if err != nil {
 		fatalf("couldn't parse %q as an integer: %s\n", split[1], err)
 	}
+	if diff < 0 {
+		fatalf("bad number of blocks %q\n", split[1])
+	}
+	if opstr == "-" && diff-1 > start {
+		fatalf("block range %q goes below block 0\n", spec)
+	}
 	op := func(a, b int64) int64 { return a + b }
 	if opstr == "-" {
 		op = func(a, b int64) int64 { return a - b }
-- 
2.43.0


From 3bf9201f3ac85540318851ae71efe3f7e9b31b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 53/67] fix: eth read must show negative integers

---
 cmd/eth/read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/read.go b/cmd/eth/read.go
index f85f006..a372044 100644
--- a/cmd/eth/read.go
+++ b/cmd/eth/read.go
@@ -81,13 +81,17 @@ func read(fs *flag.FlagSet) {
 		fatalf("error making call: %s\n", err)
 	}
 
-	for _, v := range *d {
+	for i, v := range *d {
 		switch v := v.(type) {
 		case *string:
 			fmt.Println(*v)
 		case *bool:
 			fmt.Println(*v)
 		case *big.Int:
+			if strings.HasPrefix(rettypes[i], "int") && v.Bit(255) == 1 {
+				// integers are decoded as unsigned
+				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
+			}
 			fmt.Println(v.String())
 		case *seth.Address:
 			fmt.Println(v.String())
-- 
2.43.0


From aef0bd5a535d7c212cca6f91ac19f6b0948debfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 54/67] fix: yubihsm: listing more than one object misread all
 but the first

The SDK's object descriptor is packed and of odd size, so an array of
them has another stride in C than in Go.
---
 yubihsm/yubihsm.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index 9253446..e8f9d96 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -15,6 +15,8 @@ package yubihsm
 //
 // yh_object_type *yh_obj_desc_type(yh_object_descriptor *o)      { return &o->type; }
 // yh_algorithm   *yh_obj_desc_algorithm(yh_object_descriptor *o) { return &o->algorithm; }
+//
+// void yh_obj_desc_get(yh_object_descriptor *dst, yh_object_descriptor *src, size_t i) { *dst = src[i]; }
 import "C"
 
 import (
@@ -194,15 +196,19 @@ func (s *Session) ListObjects(f *Filter) ([]*Object, error) {
 		return nil, err
 	}
 
-	if len(ods) > int(nods) {
-		ods = ods[:int(nods)]
+	if len(ods) < int(nods) {
+		nods = C.size_t(len(ods))
 	}
 
-	objects := make([]*Object, len(ods))
+	objects := make([]*Object, int(nods))
 
-	for i := range ods {
+	for i := range objects {
+		// the C type is packed, so its elements
+		// are not as far apart as Go's
+		var od C.yh_object_descriptor
+		C.yh_obj_desc_get(&od, &ods[0], C.size_t(i))
 		o := new(Object)
-		o.unpack(&ods[i])
+		o.unpack(&od)
 		objects[i] = o
 	}
 
-- 
2.43.0


From 36700f7d5d4b1e499fa76d61d7ecd7a575e64b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 55/67] fix: yubihsm: a session could be destroyed while the
 device was using it

The finalizer may run as soon as a method has read the C pointer.
---
 yubihsm/yubihsm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index e8f9d96..a57a8c6 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -162,6 +162,7 @@ type Session struct {
 func (s *Session) Authenticate(ctx *Context) error {
 	rc := C.yh_authenticate_session(s.session,
 		(*C.uint8_t)(&ctx[0]), C.size_t(len(ctx)))
+	runtime.KeepAlive(s)
 	return rcerr(rc)
 }
 
@@ -191,6 +192,7 @@ func (s *Session) ListObjects(f *Filter) ([]*Object, error) {
 	rc := C.yh_util_list_objects(s.session,
 		id, typ, doms, &caps, alg, label,
 		&ods[0], &nods)
+	runtime.KeepAlive(s)
 
 	if err := rcerr(rc); err != nil {
 		return nil, err
@@ -219,6 +221,7 @@ func (s *Session) ListObjects(f *Filter) ([]*Object, error) {
 func (s *Session) GetObject(id int, typ ObjectType) (*Object, error) {
 	var od C.yh_object_descriptor
 	rc := C.yh_util_get_object_info(s.session, C.uint16_t(id), C.yh_object_type(typ), &od)
+	runtime.KeepAlive(s)
 	if err := rcerr(rc); err != nil {
 		return nil, err
 	}
@@ -233,6 +236,7 @@ func (s *Session) GetPublicKey(id int) ([]byte, error) {
 	b := make([]byte, 4096)
 	sz := C.size_t(len(b))
 	rc := C.yh_util_get_pubkey(s.session, C.uint16_t(id), (*C.uint8_t)(&b[0]), &sz, &algo)
+	runtime.KeepAlive(s)
 	if err := rcerr(rc); err != nil {
 		return nil, err
 	}
@@ -261,6 +265,7 @@ func (s *Session) GenerateECKey(label string, domains int, caps *Capabilities, a
 
 	rc := C.yh_util_generate_key_ec(s.session, &cid, clabel, C.uint16_t(domains),
 		(*C.yh_capabilities)(caps), C.yh_algorithm(algo))
+	runtime.KeepAlive(s)
 
 	return int(cid), rcerr(rc)
 }
@@ -273,6 +278,7 @@ func (s *Session) SignECDSA(id int, data []byte) (R, S *big.Int, err error) {
 	rc := C.yh_util_sign_ecdsa(s.session, C.uint16_t(id),
 		(*C.uint8_t)(&data[0]), C.size_t(len(data)),
 		(*C.uint8_t)(&out[0]), &outlen)
+	runtime.KeepAlive(s)
 
 	if err := rcerr(rc); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 19723465657e75b1fcda23d05c9fdb2fcba9924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 56/67] fix: yubihsm: empty passwords, messages and buffers
 panicked

---
 yubihsm/yubihsm.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/yubihsm/yubihsm.go b/yubihsm/yubihsm.go
index a57a8c6..674d6a3 100644
--- a/yubihsm/yubihsm.go
+++ b/yubihsm/yubihsm.go
@@ -89,14 +89,15 @@ func (c *Connector) SetProxyServer(url string) error {
 // will be used to receive data, though after the call len(res.Data) will
 // reflect the length of the data actually received.
 func (c *Connector) Send(msg, res *Message) error {
-	rsize := C.size_t(cap(res.Data))
+	buf := res.Data[:cap(res.Data)]
+	rsize := C.size_t(len(buf))
 	rc := C.yh_send_plain_msg((*C.yh_connector)(c),
-		C.yh_cmd(msg.Command), (*C.uint8_t)(&msg.Data[0]), C.size_t(len(msg.Data)),
-		(*C.yh_cmd)(&res.Command), (*C.uint8_t)(&res.Data[0]), &rsize)
+		C.yh_cmd(msg.Command), cbytes(msg.Data), C.size_t(len(msg.Data)),
+		(*C.yh_cmd)(&res.Command), cbytes(buf), &rsize)
 	if err := rcerr(rc); err != nil {
 		return err
 	}
-	res.Data = res.Data[:int(rsize)]
+	res.Data = buf[:int(rsize)]
 	return nil
 }
 
@@ -105,7 +106,7 @@ func (c *Connector) Send(msg, res *Message) error {
 func (c *Connector) NewDerivedSession(id int, password []byte, recreate bool, ctx *Context) (*Session, error) {
 	s := new(Session)
 	rc := C.yh_create_session_derived((*C.yh_connector)(c), C.uint16_t(id),
-		(*C.uint8_t)(&password[0]), C.size_t(len(password)),
+		cbytes(password), C.size_t(len(password)),
 		C._Bool(recreate), (*C.uint8_t)(&ctx[0]), C.size_t(len(ctx)), &s.session)
 	if err := rcerr(rc); err != nil {
 		return nil, err
@@ -118,8 +119,8 @@ func (c *Connector) NewDerivedSession(id int, password []byte, recreate bool, ct
 func (c *Connector) NewSession(id int, key, mac []byte, recreate bool, ctx *Context) (*Session, error) {
 	s := new(Session)
 	rc := C.yh_create_session((*C.yh_connector)(c), C.uint16_t(id),
-		(*C.uint8_t)(&key[0]), C.size_t(len(key)),
-		(*C.uint8_t)(&mac[0]), C.size_t(len(mac)),
+		cbytes(key), C.size_t(len(key)),
+		cbytes(mac), C.size_t(len(mac)),
 		C._Bool(recreate), (*C.uint8_t)(&ctx[0]), C.size_t(len(ctx)), &s.session)
 	if err := rcerr(rc); err != nil {
 		return nil, err
@@ -276,7 +277,7 @@ func (s *Session) SignECDSA(id int, data []byte) (R, S *big.Int, err error) {
 	outlen := C.size_t(len(out))
 
 	rc := C.yh_util_sign_ecdsa(s.session, C.uint16_t(id),
-		(*C.uint8_t)(&data[0]), C.size_t(len(data)),
+		cbytes(data), C.size_t(len(data)),
 		(*C.uint8_t)(&out[0]), &outlen)
 	runtime.KeepAlive(s)
 
@@ -768,3 +769,12 @@ func cstr(s string) *C.char {
 	}
 	return &cc[0]
 }
+
+// cbytes creates a pointer to the bytes for use with C code, which is nil if
+// there are none.
+func cbytes(b []byte) *C.uint8_t {
+	if len(b) == 0 {
+		return nil
+	}
+	return (*C.uint8_t)(&b[0])
+}
-- 
2.43.0


From dd6eba77fe0d9b478600d4da5c50838440929586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 57/67] fix: yubihsm: Unlock hid that the device refused the
 password

---
 yubihsm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yubihsm.go b/yubihsm.go
index 49f2323..4c86255 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -40,7 +40,7 @@ func (y *yubictx) Unlock(b []byte) error {
 	}
 	if err := sess.Authenticate(y.ctx); err != nil {
 		sess.Destroy()
-		return nil
+		return err
 	}
 	y.sess = sess
 	return nil
-- 
2.43.0


From 7229e67cdb72671686f40720204d82a0039a6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 58/67] fix: yubihsm: a failed listing left some of the keys as
 all of them

---
 yubihsm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yubihsm.go b/yubihsm.go
index 4c86255..6377b39 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -68,6 +68,7 @@ func (y *yubictx) loadk256() error {
 		return err
 	}
 
+	var pks []HSMKey
 	for i := range objs {
 		var spk PublicKey
 		pk, err := y.sess.GetPublicKey(objs[i].ID)
@@ -75,12 +76,13 @@ func (y *yubictx) loadk256() error {
 			return err
 		}
 		copy(spk[:], pk)
-		y.pks = append(y.pks, HSMKey{
+		pks = append(pks, HSMKey{
 			ID:     "yubihsm:" + strconv.Itoa(objs[i].ID),
 			Public: spk,
 			Aux:    objs[i],
 		})
 	}
+	y.pks = pks
 	return nil
 }
 
-- 
2.43.0


From 7844c3466d388afcf1a53f992f13ef1e0669f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 59/67] fix: yubihsm: what the device signed was not checked to
 be the key's signature

---
 yubihsm.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/yubihsm.go b/yubihsm.go
index 6377b39..f078fdb 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -102,14 +102,13 @@ func yubisigner(sess *yubihsm.Session, k *HSMKey) Signer {
 		}
 
 		// Figure out what 'v' should be.
-		sig := NewSignature(r, s, 0)
-		if pk0, err := NewSignature(r, s, 0).Recover(sum); err != nil {
-			return nil, err
-		} else if *pk0 != k.Public {
-			sig = NewSignature(r, s, 1)
+		for v := 0; v < 2; v++ {
+			sig := NewSignature(r, s, v)
+			if pk, err := sig.Recover(sum); err == nil && *pk == k.Public {
+				return sig, nil
+			}
 		}
-
-		return sig, nil
+		return nil, fmt.Errorf("hsm: signature is not by key %s", k.ID)
 	}
 }
 
-- 
2.43.0


From 58684bd75c6f870e58a26a1054e329a503cdc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 60/67] fix: yubihsm: a signature with components out of range
 panicked

---
 yubihsm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yubihsm.go b/yubihsm.go
index f078fdb..a131757 100644
--- a/yubihsm.go
+++ b/yubihsm.go
@@ -101,6 +101,10 @@ func yubisigner(sess *yubihsm.Session, k *HSMKey) Signer {
 			return nil, err
 		}
 
+		if r.Sign() <= 0 || r.Cmp(order) >= 0 || s.Sign() <= 0 || s.Cmp(order) >= 0 {
+			return nil, fmt.Errorf("hsm: signature out of range")
+		}
+
 		// Figure out what 'v' should be.
 		for v := 0; v < 2; v++ {
 			sig := NewSignature(r, s, v)
-- 
2.43.0


From 0abb5579779f3d20f176964e852d86100a4c5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 61/67] fix: erc20: a token without the events crashed the
 compliance test

---
 tevm/erc20/compliance.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 2fc1694..12ad0fa 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -21,7 +21,7 @@ type Token struct {
 func assertln(t *testing.T, cond bool, text string) {
 	if !cond {
 		t.Helper()
-		t.Error(text)
+		t.Fatal(text)
 	}
 }
 
@@ -34,13 +34,15 @@ func mustError(t *testing.T, err error, text string) {
 }
 
 func isERC20Approve(l *seth.Log, from, to *seth.Address) bool {
-	return bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
+	return len(l.Topics) == 3 &&
+		bytes.Equal(l.Topics[0], seth.ERC20Approve[:]) &&
 		bytes.Equal(l.Topics[1][12:], from[:]) &&
 		bytes.Equal(l.Topics[2][12:], to[:])
 }
 
 func isERC20Transfer(l *seth.Log, from, to *seth.Address) bool {
-	return bytes.Equal(l.Topics[0], seth.ERC20Transfer[:]) &&
+	return len(l.Topics) == 3 &&
+		bytes.Equal(l.Topics[0], seth.ERC20Transfer[:]) &&
 		bytes.Equal(l.Topics[1][12:], from[:]) &&
 		bytes.Equal(l.Topics[2][12:], to[:])
 }
-- 
2.43.0


From aa79de43d211eb644f99ed2f3b1103eacf15570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 62/67] fix: erc20: the ABI test did not look for totalSupply()

---
 tevm/erc20/compliance.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 12ad0fa..2d0b678 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -67,6 +67,7 @@ func TestABICompliance(t *testing.T, cc *seth.CompiledContract) {
 		{"transferFrom(address,address,uint256)", false},
 		{"allowance(address,address)", true},
 		{"balanceOf(address)", true},
+		{"totalSupply()", true},
 	}
 	events := []struct {
 		sig     string
-- 
2.43.0


From 08c4c94faacf5fd26845f42f40b8abc9cf0f56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 63/67] fix: erc20: balances were compared by their low 64 bits

---
 tevm/erc20/compliance.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tevm/erc20/compliance.go b/tevm/erc20/compliance.go
index 2d0b678..dffba1b 100644
--- a/tevm/erc20/compliance.go
+++ b/tevm/erc20/compliance.go
@@ -125,15 +125,15 @@ func TestCompliance(t *Token) {
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "event not emitted by token")
 
 	balance := t.BalanceOf(&addr)
-	assertln(t.T, balance.Int64() == 1000, "incorrect balance after mint")
+	assertln(t.T, balance.Cmp(seth.NewInt(1000)) == 0, "incorrect balance after mint")
 
 	addr2 := t.C.NewAccount(1)
 	ok, err := t.Transfer(&addr, &addr2, seth.NewInt(100))
 	please(t.T, err)
 	assertln(t.T, ok, "transfer() returned false")
 	balance2 := t.BalanceOf(&addr2)
-	if balance2.Int64() != 100 {
-		t.Errorf("expected a balance of 100; found %d", balance2.Int64())
+	if balance2.Cmp(seth.NewInt(100)) != 0 {
+		t.Errorf("expected a balance of 100; found %s", balance2)
 	}
 
 	logs = t.C.Logs()
@@ -143,8 +143,8 @@ func TestCompliance(t *Token) {
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
 
 	balance = t.BalanceOf(&addr)
-	if balance.Int64() != (1000 - 100) {
-		t.Errorf("expected a balance of 900; found %d", balance.Int64())
+	if balance.Cmp(seth.NewInt(1000-100)) != 0 {
+		t.Errorf("expected a balance of 900; found %s", balance)
 	}
 
 	ok, err = t.Approve(&addr, &addr2, seth.NewInt(100))
@@ -173,7 +173,7 @@ func TestCompliance(t *Token) {
 	assertln(t.T, bytes.Equal(transfer.Address[:], t.Addr[:]), "transfer event not emitted by token")
 
 	balance = t.BalanceOf(&addr)
-	assertln(t.T, balance.Int64() == 800, "balance is whack")
+	assertln(t.T, balance.Cmp(seth.NewInt(800)) == 0, "balance is whack")
 
 	// may as well test burning while we're here...
 	if !t.HasBurn {
@@ -193,7 +193,7 @@ func TestCompliance(t *Token) {
 	supply2 := t.TotalSupply()
 	sp := (*big.Int)(supply)
 	sp.Sub(sp, (*big.Int)(supply2))
-	assertln(t.T, sp.Int64() == 200, "supply didn't fall by 200 after burning")
+	assertln(t.T, sp.Cmp(big.NewInt(200)) == 0, "supply didn't fall by 200 after burning")
 }
 
 func ret2i(b []byte) *seth.Int {
-- 
2.43.0


From 647104a789470e68ea3f7a751f5de06956ef6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 64/67] fix: keccak registered legacy Keccak as crypto.SHA3,
 which then gave wrong digests

---
 keccak/register.go | 18 ------------------
 1 file changed, 18 deletions(-)
 delete mode 100644 keccak/register.go

diff --git a/keccak/register.go b/keccak/register.go
deleted file mode 100644
index 375d78c..0000000
--- a/keccak/register.go
+++ /dev/null
@@ -1,18 +0,0 @@
-// Copyright 2014 The Go Authors. All rights reserved.
-// Use of this source code is governed by a BSD-style
-// license that can be found in the LICENSE file.
-
-// +build go1.4
-
-package keccak
-
-import (
-	"crypto"
-)
-
-func init() {
-	crypto.RegisterHash(crypto.SHA3_224, New224)
-	crypto.RegisterHash(crypto.SHA3_256, New256)
-	crypto.RegisterHash(crypto.SHA3_384, New384)
-	crypto.RegisterHash(crypto.SHA3_512, New512)
-}
-- 
2.43.0


From 8017737be28b0593e6f0c9f87ed469aee37e7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 65/67] fix: cc: a token refused for its address stayed
 registered under its name

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index 5c5a755..12ae01f 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -547,13 +547,13 @@ func registerCurrency(c *currency) Currency {
 		}
 		return Currency(p.name)
 	}
-	currencies[c.name] = c
 	if !c.addr.Zero() {
 		if _, ok := tokens[c.addr]; ok {
 			panic("cc: conflicting token address: " + c.addr.String())
 		}
 		tokens[c.addr] = Currency(c.name)
 	}
+	currencies[c.name] = c
 	return Currency(c.name)
 }
 
-- 
2.43.0


From 8feea4a619988490db9f143d6351f23edd5b5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 66/67] fix: tevm: transactions 65536 apart in one block had
 the same hash

---
 tevm/evm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 4a306ee..b0ee134 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1098,8 +1098,9 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	// make up a tx hash:
 	// combine block number and transaction index deterministically
-	bh := n2h(uint64(*b.Number) | (uint64(len(b.Transactions)) << 48))
-	tx.Hash = seth.HashBytes(bh[:])
+	bh := n2h(uint64(*b.Number))
+	ih := n2h(uint64(len(b.Transactions)))
+	tx.Hash = seth.HashBytes(append(bh[:], ih[:]...))
 	h = tx.Hash
 
 	l0 := len(c.State.Logs)
-- 
2.43.0


From 60e77dc37cdc68a94752392d20d0d8ca9c1fcc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 67/67] fix: a bundle cache entry with a changed byte was used
 as if it were whole

---
 compile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 883e40a..c7e3ddc 100644
--- a/compile.go
+++ b/compile.go
@@ -378,8 +378,12 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	if err != nil {
 		return nil, false
 	}
-	d := msgp.NewReader(r)
-	if err := b.DecodeMsg(d); err != nil {
+	// the checksum is behind the last byte
+	buf, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, false
+	}
+	if _, err := b.UnmarshalMsg(buf); err != nil {
 		return nil, false
 	}
 	return b, true
-- 
2.43.0

