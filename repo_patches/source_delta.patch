From 123a6b28efb8d622aa89fd12ea7a353fc93293ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 01/58] fix: reject a key file too short to hold its CRC
 instead of panicking

---
 src/util/lc_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..3868b39 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -232,6 +232,9 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] key data too short for CRC - %d bytes", filepath, n)
+	}
 
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
-- 
2.43.0


From a4730b5529ba42a8a7ec79f738ede2361e61022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:24 +0000
Subject: [PATCH 02/58] fix: reject a private key file too short to hold its
 nonce instead of panicking

---
 src/util/lc_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 3868b39..8b4ef49 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -275,6 +275,9 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 	}
 
 	key := []byte(secret)
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] priv key data too short for nonce - %d bytes", filepath, len(data))
+	}
 	nonce := data[:12]
 	ciphertext := data[12:]
 
-- 
2.43.0


From e8ff8a1ebff1664ee5346bcd16d8586b4b801c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:25 +0000
Subject: [PATCH 03/58] fix: reject stored public keys of the wrong length or
 not on the curve

---
 src/util/lc_util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 8b4ef49..4d428b2 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -262,7 +262,16 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 		return nil, err
 	}
 
-	return ECDSAGetPublicKey(data), nil
+	if len(data) != 32 {
+		return nil, fmt.Errorf("[%s] pub key data is %d bytes, expect 32", filepath, len(data))
+	}
+
+	pub_key := ECDSAGetPublicKey(data)
+	if pub_key.Y == nil {
+		return nil, fmt.Errorf("[%s] pub key is not on the curve", filepath)
+	}
+
+	return pub_key, nil
 }
 
 // priv key are always encrypted
-- 
2.43.0


From b557a27bac46c1f71779099aa6b8a3de470bd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 04/58] fix: report errors creating the key directory instead
 of panicking on them

---
 src/util/lc_util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 4d428b2..e1a435e 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -311,11 +311,16 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 func lc_mkdir_if_not_exist(path string) error {
 
 	if _, stat_err := os.Stat(path); os.IsNotExist(stat_err) {
-		os.MkdirAll(path, 0755)
+		if err := os.MkdirAll(path, 0755); err != nil {
+			return err
+		}
 	}
 
 	// check again for the path
-	stat_info, _ := os.Stat(path)
+	stat_info, stat_err := os.Stat(path)
+	if stat_err != nil {
+		return stat_err
+	}
 	if !stat_info.Mode().IsDir() {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
-- 
2.43.0


From 54a86ac5486fbab6c10dd4021f25a714f428223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:29 +0000
Subject: [PATCH 05/58] fix: keep logging to the open log file when it is
 selected again

---
 src/util/lc_util.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index e1a435e..7d3b2c8 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -77,16 +77,14 @@ func LCSetLoggerStdout() error {
 
 func LCSetLoggerFileTmp() error {
 	// if filename exist
-	var file *os.File
 	if log_file == nil {
-		var err error
-		file, err = os.OpenFile(lc_get_log_file_tmp(), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)
+		file, err := os.OpenFile(lc_get_log_file_tmp(), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)
 		if err != nil {
 			return err
 		}
 		log_file = file
 	}
-	log.SetOutput(file)
+	log.SetOutput(log_file)
 	log.SetFlags(log.Lshortfile | log.Ldate | log.Ltime | log.Lmicroseconds)
 	return nil
 }
-- 
2.43.0


From 1a78d61f30255777137df084041ef4b63fe8a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 06/58] fix: generate key pairs whose public key can be
 recovered from X alone

---
 src/util/ecdsa_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index fa21d10..15c1181 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -44,6 +44,12 @@ func ECDSAGenerateKey() *ecdsa.PrivateKey {
 		fmt.Println(err)
 		return nil
 	} else {
+		// public keys are stored and exchanged as X only: keep the one of the
+		// two private keys for X (D or N-D) whose Y is the one computed from X
+		if ECDSACalculateY(curve, priv_key.X).Cmp(priv_key.Y) != 0 {
+			d := new(big.Int).Sub(curve.Params().N, priv_key.D)
+			priv_key = ECDSAGetPrivateKey(d.FillBytes(make([]byte, 32)))
+		}
 		return priv_key
 	}
 }
-- 
2.43.0


From c1f1da6d3e405848092b34440e0ae0ccff97c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 07/58] fix: replace key files atomically and force them to
 disk before reporting success

---
 src/util/lc_util.go | 63 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 7d3b2c8..e789b79 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -16,6 +16,7 @@ import (
 	"log"
 	"math/big"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -323,9 +324,65 @@ func lc_mkdir_if_not_exist(path string) error {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
 
+	// force the directory entries leading to path to disk - a directory found
+	// existing may have been created by a process that did not get that far
+	for dir := filepath.Clean(path); dir != filepath.Dir(dir); {
+		dir = filepath.Dir(dir)
+		if err := lc_sync_dir(dir); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
+// force the entries of a directory to disk
+func lc_sync_dir(path string) error {
+
+	dir, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+
+	err = dir.Sync()
+	if close_err := dir.Close(); err == nil {
+		err = close_err
+	}
+	return err
+}
+
+// write a key file - when this returns successfully the new content is on disk,
+// and at any time before that the file has either its old content (if any), or
+// the complete new content
+func lc_write_key_file(path string, data []byte, perm os.FileMode) error {
+
+	// created with mode 0600
+	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(perm)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if close_err := file.Close(); err == nil {
+		err = close_err
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), path)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+		return err
+	}
+
+	return lc_sync_dir(filepath.Dir(path))
+}
+
 func lc_save_pub_key(cls int, id string, pub_key *big.Int) error {
 
 	dir := lc_get_key_dir(cls, id)
@@ -340,7 +397,7 @@ func lc_save_pub_key(cls int, id string, pub_key *big.Int) error {
 	binary.BigEndian.PutUint32(pub_key_crc, crc32.ChecksumIEEE(pub_key_bytes))
 	pub_data := append(pub_key_bytes[:], pub_key_crc[:]...)
 
-	pub_write_err := ioutil.WriteFile(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
+	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
 	if pub_write_err != nil {
 		return pub_write_err
 	}
@@ -388,12 +445,12 @@ func lc_save_key_pair(cls int, id string, pub_key, priv_key *big.Int, secret []b
 
 	//fmt.Printf("%x\n", priv_data)
 
-	priv_write_err := ioutil.WriteFile(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
+	priv_write_err := lc_write_key_file(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
 	if priv_write_err != nil {
 		return priv_write_err
 	}
 
-	pub_write_err := ioutil.WriteFile(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
+	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
 	if pub_write_err != nil {
 		return pub_write_err
 	}
-- 
2.43.0


From 820c52b5d8b253007261abfa2888e380c8973b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 08/58] fix: use the prompted passphrase as pkeygen does, so
 that it opens the key again

---
 src/util/lc_util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index e789b79..fdc57cb 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -137,7 +137,7 @@ func LCLoadPrivKeyPrompt(cls int, id string) (*ecdsa.PrivateKey, error) {
 	}
 
 	// do not keep private key in fixed memory variables
-	return lc_load_priv_key(cls, id, secret)
+	return lc_load_priv_key(cls, id, lc_pad_secret(secret))
 }
 
 // ECDSA pub / priv keys for node
@@ -152,7 +152,7 @@ func LCSaveKeyPairPrompt(cls int, id string, pub_key, priv_key *big.Int) error {
 		return err
 	}
 
-	return lc_save_key_pair(cls, id, pub_key, priv_key, node_secret)
+	return lc_save_key_pair(cls, id, pub_key, priv_key, lc_pad_secret(node_secret))
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -213,6 +213,13 @@ func lc_get_priv_key_path(cls int, id string) string {
 	}
 }
 
+// AES key from a passphrase, the same way as pkeygen
+func lc_pad_secret(secret []byte) []byte {
+	padded := make([]byte, aes.BlockSize)
+	copy(padded, secret)
+	return padded
+}
+
 // key data encoded as hex dump, with CRC32 at the end
 func lc_load_key_data(filepath string) ([]byte, error) {
 
-- 
2.43.0


From 5cdf09bfadf38b9bbcd83aa8fccbf6eb1866510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 09/58] fix: replace a key alias atomically, so that a failure
 or crash cannot lose it

---
 src/main/pkeygen.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 1a96606..d39cc3a 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -8,6 +8,7 @@ import (
     //"strings"
     //"syscall"
     "crypto/aes"
+    "path/filepath"
     "../util"
 )
 
@@ -20,6 +21,28 @@ func check_path_exist(filepath string) bool {
     }
 }
 
+// point link at target, on disk when this returns successfully - until then
+// link either is as before, or points at target
+func replace_symlink(target string, link string) error {
+    tmp_link        := fmt.Sprintf("%s.tmp%d", link, os.Getpid())
+    os.Remove(tmp_link)     // left by a crashed process
+    err             := os.Symlink(target, tmp_link)
+    if err == nil {
+        err         = os.Rename(tmp_link, link)
+    }
+    if err != nil {
+        os.Remove(tmp_link)
+        return err
+    }
+
+    dir, err        := os.Open(filepath.Dir(link))
+    if err != nil {
+        return err
+    }
+    defer dir.Close()
+    return dir.Sync()
+}
+
 func generate_key_pair(cls int) (string, []byte, error) {
 
     priv_key        := util.ECDSAGenerateKey()
@@ -78,15 +101,8 @@ func process_key(cls int, class string, alias string, force bool) {
 
     if alias != "" {
         alias_path  := etc_dir + "/" + alias
-        if check_path_exist(alias_path) {
-            err := os.Remove(alias_path)
-            if err != nil {
-                fmt.Printf("ERROR: %s\n", err)
-                os.Exit(1)
-            }
-        }
         key_path    := etc_dir + "/" + id
-        err := os.Symlink(key_path, alias_path)
+        err := replace_symlink(key_path, alias_path)
         if err != nil {
             fmt.Printf("ERROR: %s\n", err)
             os.Exit(1)
-- 
2.43.0


From 8ad822a0f01737b5cb649f8af21f74d032edf83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 10/58] fix: ask before overwriting an alias whose key is
 missing

---
 src/main/pkeygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index d39cc3a..7dedfa2 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -13,7 +13,7 @@ import (
 )
 
 func check_path_exist(filepath string) bool {
-    _, stat_err := os.Stat(filepath)
+    _, stat_err := os.Lstat(filepath)
     if os.IsNotExist(stat_err) {
         return false
     } else {
-- 
2.43.0


From fd22b0835fc2fd5da7ba93f8beff25a086946c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:27 +0000
Subject: [PATCH 11/58] fix: do not take the value of a decoded varint for a
 length

---
 src/util/misc_util.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..10e21e3 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
-- 
2.43.0


From bc1c05c35753695ea0776f4d150be9d9570d9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 12/58] fix: reject a varchar length too big for int instead of
 panicking

---
 src/util/misc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index 10e21e3..a4ab093 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -118,7 +118,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if uint64(len(buf)-bufN) < bufLength {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
-- 
2.43.0


From 7be0e9f53d7135b426b10880513e2399e690bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:31 +0000
Subject: [PATCH 13/58] fix: MappedKey::IsDecoded reported the opposite

---
 src/util/key_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..222e1f3 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
-- 
2.43.0


From 51e8491de8d3fd2b19d39272537107faa53ab7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:32 +0000
Subject: [PATCH 14/58] fix: reject a truncated key, and a subkey count beyond
 the buffer

---
 src/util/key_util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 222e1f3..23005e7 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,8 +227,15 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+	// each subKey takes at least one byte
+	if subKeySize > uint64(len(k.buf)-pos) {
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
+		if len(k.buf) <= pos {
+			return 0, fmt.Errorf("MappedKey::Decode - missing subKey [%d]", idx)
+		}
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
-- 
2.43.0


From 0cf5e21088de74560b03b3fb84d6a655ef7c4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 15/58] fix: keep only the bytes of the key itself in a decoded
 key

---
 src/util/key_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 23005e7..75803b3 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -243,6 +243,9 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		pos += length
 	}
 
+	// set buf length to exact length
+	k.buf = k.buf[:pos]
+
 	k.decoded = true
 
 	return pos, nil
-- 
2.43.0


From 78bb07f36f20b3c527d5e2965bd3709808b66c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 16/58] fix: comparing a key with a shorter prefix of itself
 panicked

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 75803b3..e371cec 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -306,7 +306,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -512,7 +512,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From b1e1749b36ca0d19b0530b3770d720daf38e6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 17/58] fix: hash of a key ignored the order of subkeys, and
 repeated subkeys cancelled out

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index e371cec..b0d8fa1 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -328,7 +328,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*16777619 ^ f(key) // depends on the order of subkeys
 	}
 	return hashValue
 }
@@ -472,7 +472,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*16777619 ^ f(key) // depends on the order of subkeys
 	}
 	return hashValue
 }
-- 
2.43.0


From 847912c871844b5f81da73bdb17eba47886d5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 18/58] fix: encode a nil primitive as one zero byte, so that
 it can be read back inside an array

---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From 1b42fb4ef15a8a5d33f146c673523da1d6ccd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 19/58] fix: an element that failed to decode was returned as a
 valid nil element the next time

---
 src/util/value_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..12502eb 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -280,17 +280,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			value, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.data_array[i] = value
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -317,17 +317,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			record, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.record_list[i] = record
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From 4607ba26c28738bc6d25efdf46bebc5d594f279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 20/58] fix: reject an empty simple value, whose magic cannot
 be read

---
 src/util/value_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 12502eb..6c2e739 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -65,6 +65,10 @@ type SimpleMappedValue struct {
 
 func NewSimpleMappedValue(buf []byte) (*SimpleMappedValue, int, error) {
 
+	if len(buf) < 1 {
+		return nil, 0, fmt.Errorf("NewSimpleMappedValue - invalid empty buf")
+	}
+
 	result := &SimpleMappedValue{decoded: false, buf: buf}
 	length, err := result.Decode(nil)
 	if err != nil {
-- 
2.43.0


From 267e9c584c9fa2d312867e7ca4b97d654d165e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:18 +0000
Subject: [PATCH 21/58] fix: decode records without key, value or scheme, and
 reject a missing key

---
 src/util/record_util.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..efd21bf 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -164,9 +164,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		scheme IValue
 	)
 	// key
+	key, length = NewEmptyKey(), 0
 	hasKey := (r.buf[0] >> 6) & 0x01
 	if hasKey != 0 {
 		key, length, err = NewMappedKey(r.buf[pos:])
+		if err == nil && length == 0 {
+			err = fmt.Errorf("missing key")
+		}
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
@@ -174,13 +178,15 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
 	} else {
 		r.key = key
-		pos += len(r.key.Buf())
+		pos += length
 	}
 
 	// value
 	if len(r.buf) < pos {
 		return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no value, %d, %x", len(r.buf), r.buf)
 	}
+	value, length, err = NewStandardMappedValue([]byte{0x00}) // nil value
+	length = 0
 	hasValue := (r.buf[0] >> 5) & 0x01
 	if hasValue != 0 {
 		value, length, err = NewStandardMappedValue(r.buf[pos:])
@@ -191,13 +197,15 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
 	} else {
 		r.value = value
-		pos += len(r.value.Buf())
+		pos += length
 	}
 
 	// scheme
 	if len(r.buf) < pos {
 		return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no scheme, %d, %x", len(r.buf), r.buf)
 	}
+	scheme, length, err = NewStandardMappedValue([]byte{0x00}) // nil scheme
+	length = 0
 	hasScheme := (r.buf[0] >> 4) & 0x01
 	if hasScheme != 0 {
 		scheme, length, err = NewStandardMappedValue(r.buf[pos:])
@@ -208,7 +216,7 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
 	} else {
 		r.scheme = scheme
-		pos += len(r.scheme.Buf())
+		pos += length
 	}
 
 	// timestamp bit
-- 
2.43.0


From 1788e63615f593f7979e853226ca64bfe60fd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:20 +0000
Subject: [PATCH 22/58] fix: reject a record whose signature is cut off,
 instead of reading it as not signed

---
 src/util/record_util.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index efd21bf..52d5300 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -239,9 +239,7 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 		if len(r.buf) < pos {
 			return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no signature, %d, %x", len(r.buf), r.buf)
 		} else if len(r.buf) < pos+64 { // 2 * 32 bytes signature
-			// signature is optional - even if signature bit is set
-			r.signature_r = nil
-			r.signature_s = nil
+			return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, incomplete signature, %d, %x", len(r.buf), r.buf)
 		} else {
 			r.signature_r = collection.ByteArrayToBigInt(r.buf[pos : pos+32])
 			r.signature_s = collection.ByteArrayToBigInt(r.buf[pos+32 : pos+64])
-- 
2.43.0


From 17b735a24bdf9909182ab391107ae6ae8c5658f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:21 +0000
Subject: [PATCH 23/58] fix: report an error copying part of a record instead
 of panicking on it

---
 src/util/record_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 52d5300..8ef68c9 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -275,22 +275,22 @@ func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 	var err error
 
 	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
 	if err != nil {
 		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
 	}
+	result.key = key.(IKey)
 
 	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
 	if err != nil {
 		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
 	}
+	result.value = value.(IValue)
 
 	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
 	if err != nil {
 		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
 	}
+	result.scheme = scheme.(IValue)
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
 	result.signature_r, result.signature_s = r.Signature() // signature is immutable
-- 
2.43.0


From 2e52befc99d92e4d4c052c8d788b3eb238512bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:23 +0000
Subject: [PATCH 24/58] fix: a record without timestamp lost its signature when
 encoded

---
 src/util/record_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 8ef68c9..b516d35 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -457,13 +457,13 @@ func (r *Record) Encode(IContext) error {
 
 		buf[0] |= byte(0x01) << 2
 		buf = append(buf, collection.TimeToBytes(r.timestamp)...)
+	}
 
-		// encode signature
-		if r.signature_r != nil && r.signature_s != nil {
-			buf[0] |= byte(0x01) << 1
-			buf = append(buf, collection.BigIntToByteArray(r.signature_r)...)
-			buf = append(buf, collection.BigIntToByteArray(r.signature_s)...)
-		}
+	// encode signature
+	if r.signature_r != nil && r.signature_s != nil {
+		buf[0] |= byte(0x01) << 1
+		buf = append(buf, collection.BigIntToByteArray(r.signature_r)...)
+		buf = append(buf, collection.BigIntToByteArray(r.signature_s)...)
 	}
 
 	// record encoded buf
-- 
2.43.0


From 91cddb1a34ccc2c1025d9cca72e7fff01d1710e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:25 +0000
Subject: [PATCH 25/58] fix: do not encode a record with a value or scheme too
 big to be decoded

---
 src/util/record_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index b516d35..6ecb265 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -434,6 +434,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.value.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
+		} else if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 5
@@ -446,6 +448,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.scheme.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
+		} else if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 4
-- 
2.43.0


From b1f2da78a88a4ffbdd47dba8e036ac3fdcf22bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:27 +0000
Subject: [PATCH 26/58] fix: mark which of domain, tablet and buckets an
 encoded scheme has

---
 src/util/scheme_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..21d9184 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -158,7 +158,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +167,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,7 +176,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
@@ -326,7 +326,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -336,7 +336,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -346,7 +346,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From 943e66eb1a6f3192f85eb1b358a12cc069714a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 27/58] fix: reject an empty or truncated scheme, and a bucket
 count beyond the buffer

---
 src/util/scheme_util.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 21d9184..b5f5fc0 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -157,8 +157,15 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	var length int
 	var err error
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - empty buf")
+	}
+
 	// decode domain
 	if s.buf[0]&(0x01<<7) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing domain")
+		}
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -168,6 +175,9 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 
 	// decode tablet
 	if s.buf[0]&(0x01<<6) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing tablet")
+		}
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -177,13 +187,23 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 
 	// decode buckets
 	if s.buf[0]&(0x01<<5) != 0 {
+		if len(s.buf) <= pos {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing buckets")
+		}
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+		// each bucket takes at least one byte
+		if bucketSize > uint64(len(s.buf)-pos) {
+			return 0, fmt.Errorf("MappedScheme::Decode - bucket size [%d] bigger than remaining buf size [%d]", bucketSize, len(s.buf)-pos)
+		}
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
+			if len(s.buf) <= pos {
+				return 0, fmt.Errorf("MappedScheme::Decode - missing bucket [%d]", idx)
+			}
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
 			if err != nil {
 				return 0, fmt.Errorf("MappedScheme::Decode - bucket [%d] error [%v]", idx, err)
-- 
2.43.0


From fa9aec4746a25c03d948ef105d4c6d22bf344035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 28/58] fix: encode raft time after its magic instead of over
 it

---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..e112bff 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From 0013cebca5878b757caa690a45aee994cfc1d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 29/58] fix: raft time LT and LE ignored a greater term or
 millis

---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index e112bff..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From 5e4bdf2dc7e6a0a5d494003ac8acb75945fa0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 30/58] fix: reject an empty consensus id instead of panicking

---
 src/util/consensus_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..8ac9bc8 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -280,7 +280,11 @@ type MappedConsensusID struct {
 }
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
-	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
+	if buf == nil || len(buf) == 0 {
+		return nil, fmt.Errorf("NewConsensusID - no magic")
+	}
+
+	if buf[0] == 0x00 {
 		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
 	}
 
-- 
2.43.0


From add4dd23f023df0d17e82aa1d5b42c014cf47b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:06 +0000
Subject: [PATCH 31/58] fix: reject damaged index tables, and look up in an
 empty one, without panicking

---
 src/util/mph_util.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..9808252 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -119,6 +119,14 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 	pos += 4
 
 	////////////////////////////////////////
+	// lookup relies on the masks to stay within level 0 and level 1
+	if level0_len < 1 || t.level0Mask != int(level0_len)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 0 length %d does not match mask %d", level0_len, t.level0Mask)
+	}
+	if level1_len < 1 || t.level1Mask != int(level1_len)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 1 length %d does not match mask %d", level1_len, t.level1Mask)
+	}
+
 	// verify key, or verify hash
 	if buf[0] == 1 {
 
@@ -132,6 +140,11 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		// each key takes at least one byte
+		if len(buf) < pos+int(verifyKeySize) {
+			return nil, pos, fmt.Errorf("NewMPHTable - missing verify key data %d", verifyKeySize)
+		}
+
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
@@ -144,7 +157,7 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 			}
 
 			// verify key data content
-			if len(buf) < pos+verifyKeyN {
+			if verifyKeyN == 0 || len(buf) < pos+verifyKeyN {
 				return nil, pos, fmt.Errorf("NewMPHTable - missing verify key data [%d] %d", i, len(buf))
 			}
 
@@ -357,6 +370,10 @@ func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	seed := t.level0[i0]
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
 	n = t.level1[i1]
+	if int(n) >= len(t.verifyKey)+len(t.verifyHash) {
+		// empty table, or damaged level 1
+		return n, false
+	}
 	if t.verifyKey != nil {
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
-- 
2.43.0


From d1aa3bd5073fe1ba4088ef238419e20c803d7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 32/58] fix: verify seed of an index was drawn from 12 values -
 ^ is XOR in Go

---
 src/util/mph_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index 9808252..d325718 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -289,7 +289,7 @@ func MPHBuild(keys []IKey, verify_by_key bool) *MPHTable {
 		sparseBuckets = make([][]int, len(level0))
 		zeroSeed      = collection.MurmurSeed(0)
 		keyArray      = make([]IKey, len(keys))
-		verifySeed    = uint32(RandUint64Range(2^16, 2^32-1))
+		verifySeed    = uint32(RandUint64Range(1<<16, 1<<32-1))
 	)
 	for i, s := range keys {
 		keyArray[i] = s
-- 
2.43.0


From fe3a713c0d6f0a5cc34b56bc86269010f0115777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:33 +0000
Subject: [PATCH 33/58] fix: comparing a slice with a shorter prefix of itself
 panicked

---
 src/collection/util.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..42695bc 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,7 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -470,7 +470,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +504,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +538,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +572,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +606,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +640,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +674,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +708,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +742,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From 70ba858cebc2c00a0e015169dd513864256b0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:35 +0000
Subject: [PATCH 34/58] fix: hash of a slice of hashables always panicked

---
 src/collection/hashable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..d15bcc6 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -102,7 +102,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 		if obj == nil {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
+			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((*IHashable)(nil)).Elem()) {
 				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
 			}
 			h ^= obj.(IHashable).HashUint32(f)
-- 
2.43.0


From 5481a5d3ba6891503826e4c8ebdb237ec2c73248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 35/58] fix: hash of an integer slice panicked unless its
 capacity was a multiple of its length

---
 src/collection/hashable.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index d15bcc6..373b720 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -204,7 +204,7 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -253,7 +253,7 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -302,7 +302,7 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -351,7 +351,7 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -400,7 +400,7 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
 
@@ -449,6 +449,6 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
-- 
2.43.0


From 1803f4e4bfd967e53bc8eedbf63fcdd62883a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 36/58] fix: an iterator used past its end panicked instead of
 returning nil

---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From 2930b06aedfabdfdfef100646a14ebc45f931a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:41 +0000
Subject: [PATCH 37/58] fix: a key comparison that panicked during removal lost
 the key of another node

---
 src/collection/avl.go | 45 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..3ec4325 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -230,23 +230,20 @@ func (root *AVLNode) removeR(key IComparable) (*AVLNode, *AVLNode, bool) {
 		case root.link[1] == nil:
 			return root.link[0], found, false
 		}
-		heir := root.link[0]
-		for heir.link[1] != nil {
-			heir = heir.link[1]
-		}
-		root.key = heir.key
-		root.value = heir.value
-		key = heir.key
 	}
 	dir := 0
-	if root.key.Compare(key) < 0 {
+	if IsNil(found) && root.key.Compare(key) < 0 {
 		dir = 1
 	}
 	var done bool
 	var node *AVLNode
-	root.link[dir], node, done = root.link[dir].removeR(key)
-	if IsNil(found) {
-		found = node
+	if !IsNil(found) {
+		// no key comparison (which might panic) from here on
+		root.link[0], node, done = root.link[0].removeMaxR()
+		root.key = node.key
+		root.value = node.value
+	} else {
+		root.link[dir], found, done = root.link[dir].removeR(key)
 	}
 	if done {
 		return root, found, true
@@ -262,6 +259,32 @@ func (root *AVLNode) removeR(key IComparable) (*AVLNode, *AVLNode, bool) {
 	return resultRoot, found, resultDone
 }
 
+// remove the node with the greatest key, without comparing keys
+// returns
+// *AVLNode new node
+// *AVLNode removed node
+// bool whether balanced
+func (root *AVLNode) removeMaxR() (*AVLNode, *AVLNode, bool) {
+	if root.link[1] == nil {
+		return root.link[0], root, false
+	}
+	var max *AVLNode
+	var done bool
+	root.link[1], max, done = root.link[1].removeMaxR()
+	if done {
+		return root, max, true
+	}
+	root.balance -= 1
+	switch root.balance {
+	case 1, -1:
+		return root, max, true
+	case 0:
+		return root, max, false
+	}
+	resultRoot, resultDone := root.removeBalance(1)
+	return resultRoot, max, resultDone
+}
+
 func (root *AVLNode) getR(key IComparable) *AVLNode {
 	if root.key.Equal(key) {
 		return root
-- 
2.43.0


From cf34529de13bd5440aa565955239648e5354c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 38/58] fix: a range iterator skipped members inside the range
 instead of those before it

---
 src/collection/avl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index 3ec4325..32906d1 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -471,11 +471,15 @@ func (i *AVLIterator) advance() {
 
 	if i.start != nil {
 
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
+		for comp := i.start.Compare(i.currNode.key); comp > 0; {
 
 			if i.currNode.link[1] != nil {
 
 				i.currNode = i.currNode.link[1]
+				for i.currNode.link[0] != nil {
+					i.paths = append(i.paths, i.currNode)
+					i.currNode = i.currNode.link[0]
+				}
 				comp = i.start.Compare(i.currNode.key)
 
 			} else {
-- 
2.43.0


From 0fd8ecf1f5c961f70e0ae9c05c2e0054474125a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:54 +0000
Subject: [PATCH 39/58] fix: signed random ranges returned values below min

---
 src/util/rand_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..ac2bba0 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -155,7 +155,7 @@ func RandUint64() uint64 {
 
 func RandInt8Range(min, max int8) int8 {
 	data := RandInt8()
-	result := data%(max-min) + min
+	result := int8(uint8(data)%uint8(max-min)) + min
 	return result
 }
 
@@ -167,7 +167,7 @@ func RandUint8Range(min, max uint8) uint8 {
 
 func RandInt16Range(min, max int16) int16 {
 	data := RandInt16()
-	result := data%(max-min) + min
+	result := int16(uint16(data)%uint16(max-min)) + min
 	return result
 }
 
@@ -179,7 +179,7 @@ func RandUint16Range(min, max uint16) uint16 {
 
 func RandInt32Range(min, max int32) int32 {
 	data := RandInt32()
-	result := data%(max-min) + min
+	result := int32(uint32(data)%uint32(max-min)) + min
 	return result
 }
 
@@ -191,7 +191,7 @@ func RandUint32Range(min, max uint32) uint32 {
 
 func RandInt64Range(min, max int64) int64 {
 	data := RandInt64()
-	result := data%(max-min) + min
+	result := int64(uint64(data)%uint64(max-min)) + min
 	return result
 }
 
-- 
2.43.0


From c43f8437048df3134121e93cac09fcc66c9ebdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:04 +0000
Subject: [PATCH 40/58] fix: copying a key with an empty subkey panicked

---
 src/util/key_util.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b0d8fa1..f875926 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -265,7 +265,8 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.keys = append(result.keys, key) // may be empty, unlike what Add takes
+		result.estBufSize += 1 + len(key)
 	}
 
 	return result, nil
@@ -452,7 +453,8 @@ func (k *Key) Copy() IEncodable {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.keys = append(result.keys, key) // may be empty, unlike what Add takes
+		result.estBufSize += 1 + len(key)
 	}
 
 	return result
@@ -463,7 +465,8 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		result.keys = append(result.keys, key) // may be empty, unlike what Add takes
+		result.estBufSize += 1 + len(key)
 	}
 
 	return result, nil
-- 
2.43.0


From 3df76e059730821489b0676b18393ad03032bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:53 +0000
Subject: [PATCH 41/58] fix: reject a value with more elements than its content
 can hold

---
 src/util/value_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 6c2e739..e61f1dc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -507,6 +507,11 @@ func (d *StandardMappedValue) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("StandardMappedValue::Decode - invalid magic [%x] - length ", d.buf[0])
 	}
 
+	// each element takes at least one byte
+	if d.size > content_length {
+		return 0, fmt.Errorf("StandardMappedValue::Decode - size [%d] bigger than content length [%d]", d.size, content_length)
+	}
+
 	d.content = d.buf[pos-int(content_length) : pos]
 	d.buf = d.buf[:pos]
 	d.decoded = true
-- 
2.43.0


From de6fb152debda6f229d41a82e88cc6c0f2ddfe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 42/58] fix: building an index of keys with repeated subkeys
 could go on for ever

The last bit of the hash of a key made of one subkey twice was always 0.
---
 src/util/key_util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index f875926..5850258 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -3,6 +3,7 @@ package util
 import (
 	"fmt"
 	"io"
+	"math/bits"
 	"reflect"
 
 	"../collection"
@@ -329,7 +330,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue = hashValue*16777619 ^ f(key) // depends on the order of subkeys
+		hashValue = bits.RotateLeft32(hashValue, 13)*5 ^ f(key) // depends on the order of subkeys, in every bit
 	}
 	return hashValue
 }
@@ -475,7 +476,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue = hashValue*16777619 ^ f(key) // depends on the order of subkeys
+		hashValue = bits.RotateLeft32(hashValue, 13)*5 ^ f(key) // depends on the order of subkeys, in every bit
 	}
 	return hashValue
 }
-- 
2.43.0


From 8ae9e0c7d1cd1d70b89d6ae67be841d4e9087bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:38 +0000
Subject: [PATCH 43/58] fix: building an index with the empty key among the
 keys could go on for ever

---
 src/util/key_util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 5850258..af6dce6 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -119,8 +119,7 @@ func (k *EmptyKey) Compare(c collection.IComparable) int {
 }
 
 func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
-	return hashValue
+	return ^f([]byte{}) // differs from the hash of an empty subkey
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
@@ -328,6 +327,9 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 }
 
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return ^f([]byte{}) // differs from the hash of an empty subkey
+	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = bits.RotateLeft32(hashValue, 13)*5 ^ f(key) // depends on the order of subkeys, in every bit
@@ -474,6 +476,9 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return ^f([]byte{}) // differs from the hash of an empty subkey
+	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = bits.RotateLeft32(hashValue, 13)*5 ^ f(key) // depends on the order of subkeys, in every bit
-- 
2.43.0


From bd38216a3763a17759f59cb4e172867fc1eff26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 44/58] fix: building an index of keys that share subkeys could
 go on for ever

The hashes of (a,c), (a,d), (b,c) and (b,d) cancelled out under every seed, so
that some sets of 2^n keys fitted under none.
---
 src/util/key_util.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index af6dce6..b3574bc 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -326,13 +326,24 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 	}
 }
 
+// mixHash is the final mix of murmur 3: without it, the hashes of keys that share
+// subkeys, as (a,c), (a,d), (b,c) and (b,d), are related in the same way under every seed
+func mixHash(h uint32) uint32 {
+	h ^= h >> 16
+	h *= 0x85ebca6b
+	h ^= h >> 13
+	h *= 0xc2b2ae35
+	h ^= h >> 16
+	return h
+}
+
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	if len(k.keys) == 0 {
 		return ^f([]byte{}) // differs from the hash of an empty subkey
 	}
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue = bits.RotateLeft32(hashValue, 13)*5 ^ f(key) // depends on the order of subkeys, in every bit
+	hashValue := f(k.keys[0])
+	for _, key := range k.keys[1:] {
+		hashValue = mixHash(bits.RotateLeft32(hashValue, 13)*5 ^ f(key)) // depends on the order of subkeys
 	}
 	return hashValue
 }
@@ -479,9 +490,9 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	if len(k.keys) == 0 {
 		return ^f([]byte{}) // differs from the hash of an empty subkey
 	}
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue = bits.RotateLeft32(hashValue, 13)*5 ^ f(key) // depends on the order of subkeys, in every bit
+	hashValue := f(k.keys[0])
+	for _, key := range k.keys[1:] {
+		hashValue = mixHash(bits.RotateLeft32(hashValue, 13)*5 ^ f(key)) // depends on the order of subkeys
 	}
 	return hashValue
 }
-- 
2.43.0


From 0275058c30e7d8d51893533ab5c4c3f6e44190bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 45/58] fix: a file opened by the sync helper could be gone
 after power loss although it was synced

The name of a new file was never forced to disk.
---
 src/util/fsync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/fsync.go b/src/util/fsync.go
index 873e8d8..0de0004 100644
--- a/src/util/fsync.go
+++ b/src/util/fsync.go
@@ -6,6 +6,7 @@ import (
 	//"io"
 	//"io/ioutil"
 	"os"
+	"path/filepath"
 )
 
 func check(e error) {
@@ -18,6 +19,13 @@ func Open(filename string) *os.File {
 	f, err := os.OpenFile("/tmp/"+filename, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, 0755)
 	check(err)
 
+	// a new file is durable only once its name is
+	err = lc_sync_dir(filepath.Dir(f.Name()))
+	if err != nil {
+		f.Close()
+	}
+	check(err)
+
 	return f
 }
 
-- 
2.43.0


From f72a31ddd483a70b3333a6a83c88559432fde6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 46/58] fix: order a comparable slice that is nil

A comparable slice made of a nil slice compared as less than everything,
another one and itself included: a sorted map or set never found such a
key again, and kept every copy that was put.
---
 src/collection/comparable.go | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..de21aa1 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -88,13 +88,11 @@ func (s *ComparableSlice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -145,13 +143,11 @@ func (s *ComparableByteSlice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableByteSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -202,13 +198,11 @@ func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt8Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -259,13 +253,11 @@ func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -316,13 +308,11 @@ func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -373,13 +363,11 @@ func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -430,13 +418,11 @@ func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -487,13 +473,11 @@ func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt64Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -545,13 +529,11 @@ func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint64Slice [%v]", reflect.TypeOf(c)))
 	}
-- 
2.43.0


From 02a97b0985778d92435480ca6abed84d7d3d58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:50 +0000
Subject: [PATCH 47/58] fix: a key changed after it was encoded still passed
 off the old encoding

Key.Add left the key marked as encoded, so that Buf returned the encoding
of the key without the added part.
---
 src/util/key_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b3574bc..a58b469 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -579,6 +579,7 @@ func (k *Key) Add(subKey []byte) *Key {
 	}
 
 	k.keys = append(k.keys, subKey)
+	k.encoded = false
 	k.estBufSize += 1 + len(subKey)
 	return k
 }
-- 
2.43.0


From 7fbfb7b41711be773aa8698599f235d1fbf47a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 48/58] fix: copies of keys share no bytes with the original

---
 src/util/key_util.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index a58b469..8a2dc85 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -252,7 +252,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	// make a deep copy of the buf
+	buf := make([]byte, len(k.buf))
+	copy(buf, k.buf)
+	result, _, err := NewMappedKey(buf)
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
@@ -265,7 +268,7 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.keys = append(result.keys, key) // may be empty, unlike what Add takes
+		result.keys = append(result.keys, append([]byte{}, key...)) // may be empty, unlike what Add takes
 		result.estBufSize += 1 + len(key)
 	}
 
@@ -467,7 +470,7 @@ func (k *Key) Copy() IEncodable {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.keys = append(result.keys, key) // may be empty, unlike what Add takes
+		result.keys = append(result.keys, append([]byte{}, key...)) // may be empty, unlike what Add takes
 		result.estBufSize += 1 + len(key)
 	}
 
@@ -479,7 +482,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.keys = append(result.keys, key) // may be empty, unlike what Add takes
+		result.keys = append(result.keys, append([]byte{}, key...)) // may be empty, unlike what Add takes
 		result.estBufSize += 1 + len(key)
 	}
 
-- 
2.43.0


From 77bcb6917577e4f142cd789048128d8001c7e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:46 +0000
Subject: [PATCH 49/58] fix: copies of schemes share no bytes with the original

---
 src/util/scheme_util.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index b5f5fc0..c78bb3b 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -225,16 +225,18 @@ func (s *MappedScheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for idx, bucket := range s.buckets {
+			c.buckets[idx] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
@@ -405,16 +407,18 @@ func (s *Scheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for idx, bucket := range s.buckets {
+			c.buckets[idx] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
-- 
2.43.0


From 5814d8f1e02cc7a1ef5f45f580feab7e4ce4ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 50/58] fix: do not encode a record with a timestamp that the
 encoding cannot hold

---
 src/util/record_util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 6ecb265..d7323b2 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -459,8 +459,14 @@ func (r *Record) Encode(IContext) error {
 	// encode timestamp
 	if r.timestamp != nil {
 
+		timestamp_buf := collection.TimeToBytes(r.timestamp)
+		timestamp, err := collection.BytesToTime(timestamp_buf)
+		if err != nil || !timestamp.Equal(*r.timestamp) {
+			return fmt.Errorf("Record::Encode - timestamp out of range [%v]", r.timestamp)
+		}
+
 		buf[0] |= byte(0x01) << 2
-		buf = append(buf, collection.TimeToBytes(r.timestamp)...)
+		buf = append(buf, timestamp_buf...)
 	}
 
 	// encode signature
-- 
2.43.0


From 7bfd8adb5b8f9855d203ae965e0bdfe1891daf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 51/58] fix: do not encode a record with a signature that the
 encoding cannot hold

---
 src/util/record_util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d7323b2..afa2d21 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -471,6 +471,13 @@ func (r *Record) Encode(IContext) error {
 
 	// encode signature
 	if r.signature_r != nil && r.signature_s != nil {
+
+		for _, number := range []*big.Int{r.signature_r, r.signature_s} {
+			if number.Sign() < 0 || number.BitLen() > 8*32 {
+				return fmt.Errorf("Record::Encode - signature out of range [%v]", number)
+			}
+		}
+
 		buf[0] |= byte(0x01) << 1
 		buf = append(buf, collection.BigIntToByteArray(r.signature_r)...)
 		buf = append(buf, collection.BigIntToByteArray(r.signature_s)...)
-- 
2.43.0


From 97c1ac8d5b3b4d838bdc5579704a4c30cbccebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 52/58] fix: do not report a key pair as saved that cannot be
 loaded

---
 src/util/lc_util.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index fdc57cb..3d703e6 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -414,6 +414,11 @@ func lc_save_pub_key(cls int, id string, pub_key *big.Int) error {
 
 func lc_save_key_pair(cls int, id string, pub_key, priv_key *big.Int, secret []byte) error {
 
+	// what is saved is what can be loaded
+	if err := lc_check_key_pair(pub_key, priv_key); err != nil {
+		return err
+	}
+
 	dir := lc_get_key_dir(cls, id)
 	if err := lc_mkdir_if_not_exist(dir); err != nil {
 		return err
@@ -465,6 +470,26 @@ func lc_save_key_pair(cls int, id string, pub_key, priv_key *big.Int, secret []b
 	return nil
 }
 
+// whether a key pair loads as the same after it is saved
+func lc_check_key_pair(pub_key, priv_key *big.Int) error {
+
+	if pub_key == nil || priv_key == nil {
+		return fmt.Errorf("key pair is not complete")
+	}
+
+	loaded_pub_key := ECDSAGetPublicKey(collection.BigIntToByteArray(pub_key))
+	if loaded_pub_key.X.Cmp(pub_key) != 0 || loaded_pub_key.Y == nil {
+		return fmt.Errorf("pub key is not on the curve")
+	}
+
+	loaded_priv_key := collection.ByteArrayToBigInt(collection.BigIntToByteArray(priv_key))
+	if loaded_priv_key.Cmp(priv_key) != 0 {
+		return fmt.Errorf("priv key is out of range")
+	}
+
+	return nil
+}
+
 func lc_get_node_conf_path(node_id string) string {
 	return lc_get_key_dir(CLS_NODE, node_id) + "/node.conf"
 }
-- 
2.43.0


From cb87dfbe6746dbedc41e01d080e6f747ab20b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 53/58] fix: do not remove an alias that is named as the
 temporary link

---
 src/main/pkeygen.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 7dedfa2..3080206 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -24,12 +24,16 @@ func check_path_exist(filepath string) bool {
 // point link at target, on disk when this returns successfully - until then
 // link either is as before, or points at target
 func replace_symlink(target string, link string) error {
-    tmp_link        := fmt.Sprintf("%s.tmp%d", link, os.Getpid())
-    os.Remove(tmp_link)     // left by a crashed process
-    err             := os.Symlink(target, tmp_link)
-    if err == nil {
-        err         = os.Rename(tmp_link, link)
+    tmp_link        := ""
+    err             := os.ErrExist
+    for i := 0; os.IsExist(err); i++ {  // names there are may be other aliases
+        tmp_link    = fmt.Sprintf("%s.tmp%d.%d", link, os.Getpid(), i)
+        err         = os.Symlink(target, tmp_link)
     }
+    if err != nil {
+        return err
+    }
+    err             = os.Rename(tmp_link, link)
     if err != nil {
         os.Remove(tmp_link)
         return err
-- 
2.43.0


From a7026cd52c3c8f37e15a1246e47ed0b3d6959011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 54/58] fix: readers of a decoded value at the same time do not
 see elements half stored

---
 src/util/value_util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index e61f1dc..eda8387 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -5,6 +5,7 @@ import (
 	//"time"
 	//"math/big"
 	"encoding/binary"
+	"sync"
 
 	"../collection"
 )
@@ -194,7 +195,8 @@ type StandardMappedValue struct {
 	// buf
 	decoded bool
 	buf     []byte
-	// elements
+	// elements - filled in when they are first asked for, also by readers at the same time
+	lock        sync.Mutex
 	data_array  []IValue
 	record_list []IRecord
 	size        uint16
@@ -280,6 +282,9 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return nil, fmt.Errorf("StandardMappedValue::ValueAt - idx [%d] bigger than size [%d]", idx, d.size)
 	}
 
+	d.lock.Lock()
+	defer d.lock.Unlock()
+
 	if d.data_array[idx] != nil {
 		return d.data_array[idx], nil
 	}
@@ -317,6 +322,9 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return nil, fmt.Errorf("StandardMappedValue::RecordAt - idx [%d] bigger than size [%d]", idx, d.size)
 	}
 
+	d.lock.Lock()
+	defer d.lock.Unlock()
+
 	if d.record_list[idx] != nil {
 		return d.record_list[idx], nil
 	}
-- 
2.43.0


From 2b7cbf806dc07811cfa2bbe2275eefe03c0a7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 55/58] fix: do not encode a record with a key longer than what
 is decoded

---
 src/util/record_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index afa2d21..05d6d4e 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -422,6 +422,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.key.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - key error [%v]", err)
+		} else if len(r.key.Buf()) > MAX_KEY_LENGTH {
+			return fmt.Errorf("Record::Encode - key size %d larger than %d", len(r.key.Buf()), MAX_KEY_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 6
-- 
2.43.0


From 8a1fed2170c961cc1ddf99fa1168c249028b48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:22 +0000
Subject: [PATCH 56/58] fix: do not encode a record with half a signature as
 not signed

---
 src/util/record_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 05d6d4e..3bbb99d 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -472,7 +472,11 @@ func (r *Record) Encode(IContext) error {
 	}
 
 	// encode signature
-	if r.signature_r != nil && r.signature_s != nil {
+	if (r.signature_r == nil) != (r.signature_s == nil) {
+
+		return fmt.Errorf("Record::Encode - signature is not complete")
+
+	} else if r.signature_r != nil && r.signature_s != nil {
 
 		for _, number := range []*big.Int{r.signature_r, r.signature_s} {
 			if number.Sign() < 0 || number.BitLen() > 8*32 {
-- 
2.43.0


From 3015a029d52e5eda7a0b890c3ea295c6ec388b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 57/58] fix: do not load a public key whose X is no coordinate
 of the curve

---
 src/util/ecdsa_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index 15c1181..4b7629d 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -81,6 +81,11 @@ func ECDSAGetPublicKey(pub_bytes []byte) *ecdsa.PublicKey {
 }
 
 func ECDSACalculateY(curve elliptic.Curve, x *big.Int) *big.Int {
+	// not a coordinate of any point
+	if x.Sign() < 0 || x.Cmp(curve.Params().P) >= 0 {
+		return nil
+	}
+
 	// y² = x³ - 3x + b
 	//y2 := new(big.Int).Mul(y, y)
 	//y2.Mod(y2, curve.Params().P)
-- 
2.43.0


From 43a80782a78b3da16468b82a3e582cd914799229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:20 +0000
Subject: [PATCH 58/58] fix: reading or copying a value array or a record list
 took time quadratic in its size

---
 src/util/value_util.go | 51 +++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index eda8387..b10c070 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -203,6 +203,9 @@ type StandardMappedValue struct {
 	lookup      ILookupEncoder
 	compression ICompressEncoder
 	content     []byte
+	// how many elements were filled in - always the first ones - and how much of the content they take
+	filled     uint16
+	filled_pos int
 }
 
 ////////////////////////////////////////
@@ -289,20 +292,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	pos := 0
-	for i := uint16(0); i <= idx; i++ {
-		if d.data_array[i] == nil {
-			if len(d.content) < pos {
-				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
-			}
-			value, _, err := NewStandardMappedValue(d.content[pos:])
-			if err != nil {
-				return nil, err
-			}
-			d.data_array[i] = value
+	for d.filled <= idx {
+		if len(d.content) < d.filled_pos {
+			return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, d.filled, len(d.content), d.content)
 		}
-		pos += len(d.data_array[i].Buf())
-		//pos += length
+		value, _, err := NewStandardMappedValue(d.content[d.filled_pos:])
+		if err != nil {
+			return nil, err
+		}
+		d.data_array[d.filled] = value
+		d.filled += 1
+		d.filled_pos += len(value.Buf())
 	}
 
 	return d.data_array[idx], nil
@@ -329,19 +329,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	pos := 0
-	for i := uint16(0); i <= idx; i++ {
-		if d.record_list[i] == nil {
-			if len(d.content) < pos {
-				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
-			}
-			record, _, err := NewMappedRecord(d.content[pos:])
-			if err != nil {
-				return nil, err
-			}
-			d.record_list[i] = record
+	for d.filled <= idx {
+		if len(d.content) < d.filled_pos {
+			return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, d.filled, len(d.content), d.content)
 		}
-		pos += len(d.record_list[i].Buf())
+		record, _, err := NewMappedRecord(d.content[d.filled_pos:])
+		if err != nil {
+			return nil, err
+		}
+		d.record_list[d.filled] = record
+		d.filled += 1
+		d.filled_pos += len(record.Buf())
 	}
 
 	return d.record_list[idx], nil
@@ -407,6 +405,9 @@ func (d *StandardMappedValue) IsDecoded() bool {
 
 func (d *StandardMappedValue) Decode(IContext) (int, error) {
 
+	d.filled = 0
+	d.filled_pos = 0
+
 	format_is_set := false
 
 	pos := 1
-- 
2.43.0

