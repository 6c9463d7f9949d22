From 231af10aec984d5cfffc8ba35b4753ed5896299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 01/23] fix: propagate the carry when incrementing the CTR
 counter

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..19d0aa1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -842,8 +842,8 @@ class GOST34132015ctr(GOST34132015Cipher):
         internal = 0
         bit = bytearray(self.block_size)
         bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
+        for i in range(self.block_size - 1, -1, -1):
+            internal = ctr[i] + bit[i] + (internal >> 8)
             ctr[i] = internal & 0xff
         return ctr
 
-- 
2.43.0


From 5f1d9a91a07851e90588a1fe8d0482cd263a0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 02/23] fix: MAC of short, empty and incrementally supplied
 messages

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 35 ++++++------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 19d0aa1..286e1e0 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -933,9 +933,7 @@ class GOST34132015mac(GOST34132015):
         value_r = self._cipher_obj.encrypt(bytearray(self._cipher_obj.block_size * b'\x00'))
         self._key_1, self._key_2 = self._get_mac_key(value_r)
         self._fin_buff = bytearray()
-        self._iter_buf = bytearray()
         self._prev_mac = bytearray(self._cipher_obj.block_size)
-        self._cur_mac = bytearray(self._cipher_obj.block_size)
         if data != bytearray(b''):
             self.update(data)
 
@@ -983,33 +981,16 @@ class GOST34132015mac(GOST34132015):
         if not isinstance(data, (bytes, bytearray)):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
-        data = self._iter_buf + data
+        data = self._fin_buff + data
+        # The last block (complete or not) is kept until the finalization
+        num_block = max(0, (len(data) - 1) // self.block_size)
         block = bytearray()
-        prev_block = self._cur_mac
-        for i in range(0, self._get_num_block(data) - 1):
+        prev_block = self._prev_mac
+        for i in range(0, num_block):
             block = self._cipher_obj.encrypt(add_xor(prev_block, self._get_block(data, i)))
             prev_block = block
-        if self._get_pad_size(data) == 0:
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[len(data) - self.block_size:len(data)])
-                )
-            )
-            self._cur_mac = block
-            self._prev_mac = prev_block
-            self._iter_buf = bytearray(b'')
-        else:
-            begin_data = len(data) - 2 * self.block_size + self._get_pad_size(data)
-            end_data = len(data) - self.block_size + self._get_pad_size(data)
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[begin_data:end_data])
-                )
-            )
-            self._cur_mac = block
-            self._prev_mac = block
-            self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
-        self._fin_buff = data[self.block_size * (self._get_num_block(data) - 1):]
+        self._prev_mac = prev_block
+        self._fin_buff = data[self.block_size * num_block:]
 
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
@@ -1017,7 +998,7 @@ class GOST34132015mac(GOST34132015):
             final_key = self._key_1
         else:
             final_key = self._key_2
-            self._fin_buff = self._set_pad_mode_3(self._fin_buff[self.block_size:])
+            self._fin_buff = self._set_pad_mode_3(self._fin_buff)
         result = bytearray()
         result = self._cipher_obj.encrypt(
             add_xor(add_xor(self._fin_buff, self._prev_mac), final_key)
-- 
2.43.0


From d3be5801bcc016f956fd5e82e14fd1632de8b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 03/23] fix: reject a MAC size smaller than one byte

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 286e1e0..64fab15 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1025,7 +1025,7 @@ class GOST34132015mac(GOST34132015):
               size.
         """
         temp = deepcopy(self)
-        if mac_size > temp.block_size:
+        if mac_size < 1 or mac_size > temp.block_size:
             temp.clear()
             raise GOSTCipherError('GOSTCipherError: invalid message authentication code size')
         return temp.mac_final()[0:mac_size:]
-- 
2.43.0


From 63af6afbfd1f2b33796a0dbf11bfae4ae8a8f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 04/23] fix: reject an empty initialization vector

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 64fab15..36bdb86 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,11 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (
+                (not check_init_vect) or
+                len(init_vect) == 0 or
+                (len(init_vect) % self.block_size) != 0
+        ):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From 268e7ff6f6a9ec1ca6e941e16e5329fb468f0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:16 +0000
Subject: [PATCH 05/23] fix: do not expose the live CTR counter buffer

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 36bdb86..27e3423 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -854,7 +854,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From fd0222564e95a3b797afff4601bad54a4e6f26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:19 +0000
Subject: [PATCH 06/23] fix: drop the Streebog buffer once its bytes have been
 processed

---
 gostcrypto/gosthash/gost_34_11_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..264cde5 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -862,6 +862,8 @@ class GOST34112012:
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
         if self._pad_block_size < _BLOCK_SIZE:
             self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        else:
+            self._buff = bytearray(b'')
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From 3b63c05717421961e43a1748ba056fa9551f52c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 07/23] fix: HMAC of an empty message

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..99b8f0c 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -175,6 +175,8 @@ class R5011132016:
         Returns:
             HMAC message authentication code as a byte object.
         """
+        if self._counter == 0:
+            self.update(bytearray(b''))
         fin_hasher_obj = GOST34112012(self._hasher_obj.name, data=bytearray(b''))
         fin_hasher_obj.update(add_xor(self._key, _O_PAD) + self._hasher_obj.digest())
         result = fin_hasher_obj.digest()
-- 
2.43.0


From 65ba0a7ea8375dd33feb33336e9da019acc277bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:27 +0000
Subject: [PATCH 08/23] fix: do not share the HMAC key buffer with the caller

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 99b8f0c..4d693e8 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From 284fe67c94e4d4bff02f932550155e2e67986186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 09/23] fix: zero_fill must return zero bytes

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From 03b8bbb43c556c60cbbc8ed652119b4b18bfb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 10/23] fix: PBKDF clear must also clear the HMAC key

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..c3a2df6 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -166,6 +166,8 @@ class R5011112016:
     def clear(self):
         """Сlear the password value."""
         self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From c1758c430237c80e15938fe17647041d709ec29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:35 +0000
Subject: [PATCH 11/23] fix: do not expose the live PBKDF salt buffer

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index c3a2df6..1146ed0 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -172,7 +172,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From 3ef6c739f6055327dc8a9ba72f8612ff67c85c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 12/23] fix: MAC clear must also clear the derived keys and the
 state

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 27e3423..7f24bcc 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -936,11 +936,20 @@ class GOST34132015mac(GOST34132015):
         super().__init__(algorithm, key)
         value_r = self._cipher_obj.encrypt(bytearray(self._cipher_obj.block_size * b'\x00'))
         self._key_1, self._key_2 = self._get_mac_key(value_r)
-        self._fin_buff = bytearray()
         self._prev_mac = bytearray(self._cipher_obj.block_size)
+        self._fin_buff = bytearray()
         if data != bytearray(b''):
             self.update(data)
 
+    def clear(self) -> None:
+        """Clear the values of the cipher keys and of the MAC state."""
+        super().clear()
+        if hasattr(self, '_fin_buff'):
+            self._key_1 = zero_fill(self._key_1)
+            self._key_2 = zero_fill(self._key_2)
+            self._prev_mac = zero_fill(self._prev_mac)
+            self._fin_buff = zero_fill(self._fin_buff)
+
     def _set_pad_mode_3(self, data: bytearray) -> bytearray:
         if self._get_pad_size(data) == 0:
             result = data
-- 
2.43.0


From 6e725fa30fe1783bbcf9c3b8cd5f6a3e4944c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 13/23] fix: reject curves that do not satisfy the MOV
 condition

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..7849328 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From 904f5a6769bede1185efd9deca65ef9dcca9cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 14/23] fix: a zero random value must not hang the signature

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 7849328..5e8e13e 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -643,7 +643,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -690,7 +690,7 @@ class GOST34102012:
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
         while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-- 
2.43.0


From 2759b916880c8c6a151afa8809da317c451877e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 15/23] fix: take a new random value when r or s of a signature
 is zero

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 5e8e13e..b02a575 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -698,7 +698,12 @@ class GOST34102012:
                 sign_k = bytearray_to_int(rand_k)
                 sign_c = self._mul_point(sign_k)
                 sign_r = sign_c[0] % self._q
+                if sign_r == 0:
+                    rand_k = self._get_rand_k()
             sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            if sign_s == 0:
+                sign_r = 0
+                rand_k = self._get_rand_k()
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
         return result
-- 
2.43.0


From 574cfb9b2cc61afa551bed089327fa3dd77f0960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 16/23] fix: reject a private key that is zero modulo q

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index b02a575..0ff7151 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -679,6 +679,8 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
+        if bytearray_to_int(private_key) % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
         sign_e = self._set_e(digest)
@@ -780,7 +782,9 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
-        private_key = bytearray_to_int(private_key)
+        private_key = bytearray_to_int(private_key) % self._q
+        if private_key == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From f185b72e16a06b1f5320ead526904bd46bd38a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 17/23] fix: check the public key and use it even when a
 coordinate is zero

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 0ff7151..b2c449d 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -554,6 +554,11 @@ class GOST34102012:
             result = False
         return result
 
+    def _check_public_key(self, x_key: int, y_key: int) -> bool:
+        if x_key >= self._p or y_key >= self._p:
+            return False
+        return (y_key * y_key - x_key ** 3 - x_key * self._a - self._b) % self._p == 0
+
     def _check_p(self) -> bool:
         result = True
         check_b = 32
@@ -616,7 +621,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
@@ -752,6 +757,8 @@ class GOST34102012:
             bytearray_to_int(public_key[:self._size]),
             bytearray_to_int(public_key[self._size:])
         )
+        if not self._check_public_key(public_key[0], public_key[1]):
+            raise GOSTSignatureError('GOSTSignatureError: invalid public key value')
         sign_r, sign_s = self._get_r_s(signature)
         if not self._verify_step_1(sign_r, sign_s):
             return False
-- 
2.43.0


From 1897469ada58682f0879f5734814d07d17d980c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 18/23] fix: reject a signature whose point is the point at
 infinity

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index b2c449d..f051dcf 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -768,6 +768,9 @@ class GOST34102012:
         sign_z_2 = self._q - sign_r * sign_v % self._q
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
+        if sign_p[0] == sign_q[0] and sign_p[1] != sign_q[1]:
+            # The sum of opposite points is the point at infinity
+            return False
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
-- 
2.43.0


From 3328d5766bf75d23ff20a78a4663b3f162a0d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 19/23] fix: set the continuation bit in every octet of a long
 OID arc

---
 gostcrypto/gostoid/oid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..5ae34cd 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -101,9 +101,9 @@ def _int_to_octet(value: int) -> bytearray:
         return bytearray(value.to_bytes(1, byteorder='big'))
     result = bytearray(_len_int(value, 7))
     for i in range(_len_int(value, 7) - 1, -1, -1):
-        result[i] = value & 0x7F
+        result[i] = (value & 0x7f) | 0x80
         value = value >> 7
-    result[0] = result[0] | 0x80
+    result[-1] = result[-1] & 0x7f
     return result
 
 
-- 
2.43.0


From c175337290d6bb15443dca9916bb18fbd4132fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 20/23] fix: report negative and missing OID arcs as
 GOSTOIDError

---
 gostcrypto/gostoid/oid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 5ae34cd..36d0beb 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -109,6 +109,8 @@ def _int_to_octet(value: int) -> bytearray:
 
 def _encode_octet(value: tuple) -> bytearray:
     result = bytearray()
+    if len(value) < 2:
+        raise GOSTOIDError('invalid second SID value')
     if value[0] == 0:
         if value[1] < 40:
             first_value = value[1]
@@ -176,6 +178,8 @@ class ObjectIdentifier:
             result = tuple(int(item) for item in self._oid_str.split('.'))
         except ValueError:
             raise GOSTOIDError('invalid OID value')
+        if min(result) < 0:
+            raise GOSTOIDError('invalid OID value')
         return result
 
     @property
-- 
2.43.0


From 0f7a18b2b8e582a2d6d254b8fcceeebdfde8c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 21/23] fix: report a password longer than 64 bytes as
 GOSTPBKDFError

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 1146ed0..d81d140 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if not isinstance(password, (bytes, bytearray)) or len(password) > 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From db85bd75e8913c644389f2e3c460ac5f54ee8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 22/23] fix: refuse a negative derived key length

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index d81d140..43f7f75 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -141,7 +141,7 @@ class R5011112016:
             GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key'):
               If the size of the derived key is incorrect.
         """
-        if dk_len > (2 ** 32 - 1) * 64:
+        if dk_len < 0 or dk_len > (2 ** 32 - 1) * 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key')
         return self._calculate_pbkdf(dk_len)[:dk_len]
 
@@ -159,7 +159,7 @@ class R5011112016:
             GOSTPBKDFError(GOSTPBKDFError: 'invalid size of the derived key'):
               If the size of the derived key is incorrect.
         """
-        if dk_len > (2 ** 32 - 1) * 64:
+        if dk_len < 0 or dk_len > (2 ** 32 - 1) * 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key')
         return self._calculate_pbkdf(dk_len)[:dk_len].hex()
 
-- 
2.43.0


From 3d90b680f731936980892f4d1c55d3507b8998db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:43 +0000
Subject: [PATCH 23/23] fix: check the range of q before reducing modulo q

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index f051dcf..4e98cd5 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -579,7 +579,7 @@ class GOST34102012:
         result = True
         if (
                 (not self._check_p_m()) or (
-                    (not self._check_x_y()) or (not self._check_p()) or (not self._check_q())
+                    (not self._check_x_y()) or (not self._check_q()) or (not self._check_p())
                 )
         ):
             result = False
-- 
2.43.0

