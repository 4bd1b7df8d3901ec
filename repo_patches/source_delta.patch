From 6e5048be1d68884cba6ee9fe9d55c30f060b0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:31 +0000
Subject: [PATCH 01/28] fix: requester delivers empty results and drops data of
 failed calls

A backend call that succeeded with an empty result was treated as no result
at all, so empty files could not be read. Data returned together with an error was cached and
served as a success to later callers.
---
 requester/requester.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..fdca2ff 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -155,20 +155,20 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
 				func() (interface{}, error) {
 					fileData, err := r.backend.ReadFile(w.arg1)
-					if len(fileData) > 0 {
-						return fileData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return fileData, nil
 				},
 			)
 		case workReadDir:
 			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
 				func() (interface{}, error) {
 					dirData, err := r.backend.ReadDir(w.arg1)
-					if len(dirData) > 0 {
-						return dirData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return dirData, nil
 				},
 			)
 		case workDecryptName:
@@ -176,10 +176,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
 				func() (interface{}, error) {
 					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
-					if len(decryptedName) > 0 {
-						return decryptedName, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return decryptedName, nil
 				},
 			)
 		case workNone:
-- 
2.43.0


From eb12c6d144c8ec2b8c6fc4b7f1f32513eb9a876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 02/28] fix: an empty file decrypts to no data instead of
 failing with EOF

---
 filetree/decrypt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..cac2f1a 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -23,6 +23,10 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
 	fileID, err := f.readFileID(fileBytes)
+	if err == io.EOF {
+		// Nothing has been written after the header: the file is empty.
+		return []byte{}, nil
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 73e802d6db16ee2da5c6a525e6988c7e809fd585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 03/28] fix: do not panic on a file truncated inside its first
 block

The header is followed by too few bytes to hold any plaintext, so there are no blocks to index.
---
 filetree/decrypt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index cac2f1a..d92f595 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -1,6 +1,7 @@
 package filetree
 
 import (
+	"errors"
 	"io"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
@@ -30,6 +31,9 @@ func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if plainLength == 0 {
+		return nil, errors.New("truncated block")
+	}
 	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
 	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
 	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
-- 
2.43.0


From a19274a09e7b629091877f7deddd492a0c2ea52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:16 +0000
Subject: [PATCH 04/28] fix: Stat works on regular files

The whole path was resolved as a directory, so every stat (and fstat of an open file) of a
regular file failed.
---
 filetree/filetree.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..50f72b6 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -185,9 +185,17 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	cleanPath := filepath.Clean(plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
-	cipherPath, err := f.findPath(cleanPath)
-	if err != nil {
-		return statErr(fmt.Sprintf("error finding path: %s", err))
+	cipherPath := f.encryptedRoot
+	if cleanPath != "/" {
+		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding parent path: %s", err))
+		}
+		item, err := f.findInDir(cipherDirPath, plainBaseName)
+		if err != nil {
+			return statErr(err.Error())
+		}
+		cipherPath = filepath.Join(cipherDirPath, item.Name())
 	}
 	item, err := f.fsAccessor.Stat(cipherPath)
 	if err != nil {
-- 
2.43.0


From fb7a5d57040cf1b66e596c9d33782da8cf9523a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:34 +0000
Subject: [PATCH 05/28] fix: honour the AESSIV feature flag

Volumes created with AES-SIV content encryption were opened with AES-GCM, so no file could be read.
---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 50f72b6..e43cec1 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -74,6 +74,9 @@ func Init(
 		return nil, err
 	}
 	cryptoBackend := cryptocore.BackendGoGCM
+	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
+		cryptoBackend = cryptocore.BackendAESSIV
+	}
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
 	forceDecode := false
-- 
2.43.0


From 7359c5af9e9a5df472e2404b1cfcc41ff9e0a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:57 +0000
Subject: [PATCH 06/28] fix: a relative path no longer recurses without end

The parent of a relative path is ".", whose parent is itself; take paths relative to the root.
---
 filetree/filetree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index e43cec1..7adb3a9 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -118,7 +118,7 @@ func (f *FileTree) ReadFile(plainPath string) ([]byte, error) {
 	readFileErr := func(msg string) ([]byte, error) {
 		return nil, fmt.Errorf("ReadFile: %s", msg)
 	}
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 	if cleanPath == "/" {
 		return readFileErr("/ is a directory")
 	}
@@ -159,7 +159,7 @@ func (f *FileTree) ReadDir(plainPath string) ([]os.FileInfo, error) {
 	readDirErr := func(msg string) ([]os.FileInfo, error) {
 		return nil, fmt.Errorf("ReadDir: %s", msg)
 	}
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 	ciphertextPath, err := f.findPath(cleanPath)
 	if err != nil {
 		return readDirErr(fmt.Sprintf("error finding path %s: %s", cleanPath, err))
@@ -185,7 +185,7 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	statErr := func(msg string) (os.FileInfo, error) {
 		return nil, fmt.Errorf("Stat: %s", msg)
 	}
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
 	cipherPath := f.encryptedRoot
@@ -280,7 +280,7 @@ func (f *FileTree) findInDir(cipherPath, plainName string) (item os.FileInfo, er
 // fastCache, and then walking the directory tree down the rest of the way. It
 // returns the full ciphertext path and an error if the path could not be found.
 func (f *FileTree) findPath(plainPath string) (string, error) {
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 	if cleanPath == "/" {
 		return f.encryptedRoot, nil
 	}
-- 
2.43.0


From eef1913aa94b56502f7cea20b14fe842d98f1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 07/28] fix: Mkdir no longer reports success without creating
 anything

---
 filetree/filetree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 7adb3a9..b9292de 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -212,7 +212,7 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 }
 
 func (f *FileTree) Mkdir(plainPath string) error {
-	return nil
+	return errors.New("Not supported yet")
 }
 
 func (f *FileTree) Rename(plainPath string, target string) error {
-- 
2.43.0


From de93d2a3dd53fe0ea09eb0cd69bbe3d3608b84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:48 +0000
Subject: [PATCH 08/28] fix: refuse a directory IV of the wrong length

The remote's gocryptfs.diriv went unchecked into the EME cipher, which panics unless it is 16 bytes long.
---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index b9292de..9e3f946 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -238,6 +238,9 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	if err != nil {
 		return fmt.Errorf("error reading directory IV: %s", err)
 	}
+	if len(iv) != nametransform.DirIVLen {
+		return fmt.Errorf("directory IV has wrong length %d", len(iv))
+	}
 	dirListing, err := f.reqCacher.ReadDir(cipherPath)
 	if err != nil {
 		return fmt.Errorf("error listing directory: %s", err)
-- 
2.43.0


From 4adbbb8f0147f9812fc660003b9640513c5d2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:06 +0000
Subject: [PATCH 09/28] fix: DecryptName rejects oversized names and wrong IV
 lengths instead of panicking

---
 gocrypt/nametransform/names.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..1fdd093 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -65,6 +65,10 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	// EME works on at most 128 blocks under a 16-byte tweak and panics otherwise.
+	if len(bin) > 128*aes.BlockSize || len(iv) != DirIVLen {
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From 4ec5a36d34521007e5d5e92403b2a53e63f1b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:28 +0000
Subject: [PATCH 10/28] fix: DecryptName with an empty IV looks up the key the
 worker caches it under

---
 requester/makerequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..ee222c4 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -21,7 +21,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		panic("Invalid request type")
 	}
 	key := arg1
-	if len(arg2) > 0 {
+	if requestType == workDecryptName {
 		key = complexKey(arg1, arg2)
 	}
 
-- 
2.43.0


From 449aa43bdd73507e0590767f33444e29af9d1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 11/28] fix: a fetch in flight while the cache is cleared no
 longer puts its old result back

---
 requester/makerequest.go |  2 +-
 requester/requester.go   |  2 +-
 requester/synccache.go   | 22 ++++++++++++++--------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index ee222c4..9c5abe4 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -65,7 +65,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				} else {
 					retryErrs = append(retryErrs, "empty data for path in cache")
 				}
-				cache.Delete(key)
+				cache.DeleteErr(key)
 				continue
 			}
 
diff --git a/requester/requester.go b/requester/requester.go
index fdca2ff..9579834 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -131,7 +131,7 @@ func (r *Requester) performRequestAndCache(
 		wt.Lock()
 
 		data, err := request()
-		cache.Set(key, genCacheEntry{data: data, err: err})
+		cache.Complete(key, num, genCacheEntry{data: data, err: err})
 
 		wt.cv.Broadcast()
 		wt.Unlock()
diff --git a/requester/synccache.go b/requester/synccache.go
index f0f1351..034c9d2 100644
--- a/requester/synccache.go
+++ b/requester/synccache.go
@@ -51,18 +51,24 @@ func (s *syncCache) GetOrInsert(key string, value genCacheEntry) (genCacheEntry,
 	return cacheEntry, loaded
 }
 
-// Set sets the the value associated with the key in the cache in a thread-safe
-// way
-func (s *syncCache) Set(key string, value genCacheEntry) {
+// Complete replaces the placeholder that lockerNum inserted for the key by its
+// result in a thread-safe way. If the placeholder is gone, e.g. because the
+// cache was cleared in the meantime, the result is outdated and is dropped.
+func (s *syncCache) Complete(key string, lockerNum int, value genCacheEntry) {
 	s.lock.Lock()
-	s.m[key] = value
+	cacheEntry, found := s.m[key]
+	if found && cacheEntry.lockerNum == lockerNum {
+		s.m[key] = value
+	}
 	s.lock.Unlock()
 }
 
-// Delete deletes the the value associated with the key from the cache in a
-// thread-safe way
-func (s *syncCache) Delete(key string) {
+// DeleteErr deletes the entry associated with the key from the cache in a
+// thread-safe way if it is an error
+func (s *syncCache) DeleteErr(key string) {
 	s.lock.Lock()
-	delete(s.m, key)
+	if s.m[key].err != nil {
+		delete(s.m, key)
+	}
 	s.lock.Unlock()
 }
-- 
2.43.0


From d467b1665b953b5bb8b9a07a1452e83d3d518186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:00 +0000
Subject: [PATCH 12/28] fix: a connection that broke during a call is not put
 back into the pool

---
 backend/provider.go | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/backend/provider.go b/backend/provider.go
index 455cc8c..702892a 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -25,6 +25,18 @@ func NewProvider(remoteAddr string, clientConfig *ssh.ClientConfig, logger *log.
 	}
 }
 
+// release gives up a connection after a call that may have broken it: it is
+// only put back into the pool if it's still okay.
+func (p *Provider) release(c *conn) {
+	// Test the sftp session, which can be gone although the underlying ssh
+	// connection is still okay.
+	if _, err := c.sftpConn.Getwd(); err != nil {
+		c.Close()
+	} else {
+		p.p.Put(c)
+	}
+}
+
 // ReadFile acquires a connection from the connection pool and calls ReadFile
 // on the acquired SFTP connection.
 func (p *Provider) ReadFile(path string) ([]byte, error) {
@@ -34,22 +46,18 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	file, err := c.sftpConn.Open(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
-			c.Close()
-		} else {
-			p.p.Put(c)
-		}
+		p.release(c)
 		return nil, err
 	}
-	defer p.p.Put(c)
-	defer func() { _ = file.Close() }()
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
 	if err != nil {
+		_ = file.Close()
+		p.release(c)
 		return nil, err
 	}
+	_ = file.Close()
+	p.p.Put(c)
 	return buf.Bytes(), nil
 }
 
@@ -62,13 +70,7 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 	}
 	listing, err := c.sftpConn.ReadDir(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
-			c.Close()
-		} else {
-			p.p.Put(c)
-		}
+		p.release(c)
 		return nil, err
 	}
 	p.p.Put(c)
@@ -84,13 +86,7 @@ func (p *Provider) Stat(path string) (os.FileInfo, error) {
 	}
 	stat, err := c.sftpConn.Stat(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
-			c.Close()
-		} else {
-			p.p.Put(c)
-		}
+		p.release(c)
 		return nil, err
 	}
 	p.p.Put(c)
-- 
2.43.0


From 1343172b1001d45d14b98882d3b4664315668e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:14 +0000
Subject: [PATCH 13/28] fix: a lost connection no longer turns into truncated
 data

---
 backend/provider.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/backend/provider.go b/backend/provider.go
index 702892a..f8c9b5e 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -56,7 +56,12 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 		p.release(c)
 		return nil, err
 	}
-	_ = file.Close()
+	// A lost connection looks like the end of the file, so the data is only
+	// complete if the file can still be closed.
+	if err = file.Close(); err != nil {
+		p.release(c)
+		return nil, err
+	}
 	p.p.Put(c)
 	return buf.Bytes(), nil
 }
@@ -73,6 +78,12 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 		p.release(c)
 		return nil, err
 	}
+	// A lost connection looks like the end of the listing, so the listing is
+	// only complete if the connection is still okay.
+	if _, err = c.sftpConn.Getwd(); err != nil {
+		c.Close()
+		return nil, err
+	}
 	p.p.Put(c)
 	return listing, nil
 }
-- 
2.43.0


From 35825ca80e7099cc47507d48e71af1e9380f330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 14/28] fix: a worker is no longer blocked for good by a
 request that timed out

---
 requester/makerequest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 9c5abe4..3931659 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		// Buffered, so that the worker never waits for a request that has given
+		// up in the meantime.
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From afeb957303da8533b81961d9878757a9d5592a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:19 +0000
Subject: [PATCH 15/28] fix: the path cache evicts the least recently used
 entry

---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From b204b8024017b3560f142e3852df0d6dba324308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:20 +0000
Subject: [PATCH 16/28] fix: an empty or all-zero wrapped key no longer unlocks
 with any password

---
 gocrypt/configfile/config_file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..ee7ca0d 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -237,6 +237,12 @@ func (cf *ConfFile) DecryptMasterKey(password []byte) (masterkey []byte, err err
 		tlog.Warn.Printf("failed to unlock master key: %s", err.Error())
 		return nil, exitcodes.NewErr("Password incorrect.", exitcodes.PasswordIncorrect)
 	}
+	// DecryptBlock() passes empty and all-zero (file hole) blocks through without
+	// authenticating them, so they decrypt with any password.
+	if len(masterkey) != cryptocore.KeyLen {
+		return nil, fmt.Errorf("Encrypted master key has an invalid length: got %d bytes, want %d",
+			len(masterkey), cryptocore.KeyLen)
+	}
 	return masterkey, nil
 }
 
-- 
2.43.0


From 42e365a37045a271c70d62441751a984f4533312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:22 +0000
Subject: [PATCH 17/28] fix: an empty password is refused instead of panicking

---
 filetree/filetree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 9e3f946..cabd61c 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -73,6 +73,10 @@ func Init(
 	if err != nil {
 		return nil, err
 	}
+	if len(masterKey) == 0 {
+		// LoadAndDecrypt does not decrypt the key when the password is empty
+		return nil, errors.New("the password must not be empty")
+	}
 	cryptoBackend := cryptocore.BackendGoGCM
 	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
 		cryptoBackend = cryptocore.BackendAESSIV
-- 
2.43.0


From 01edb678f76bb994d0ca93dd4ff9d851fc18a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:24 +0000
Subject: [PATCH 18/28] fix: a volume with plaintext names is refused instead
 of being misread

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index cabd61c..fbbd648 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -73,6 +73,9 @@ func Init(
 	if err != nil {
 		return nil, err
 	}
+	if conf.IsFeatureFlagSet(configfile.FlagPlaintextNames) {
+		return nil, errors.New("filesystems with plaintext names are not supported")
+	}
 	if len(masterKey) == 0 {
 		// LoadAndDecrypt does not decrypt the key when the password is empty
 		return nil, errors.New("the password must not be empty")
-- 
2.43.0


From fbf511248896f97eb4681892358018801f113bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:10 +0000
Subject: [PATCH 19/28] fix: an incomplete configuration is refused at start-up

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..a4decea 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err := cfg.Validate(); err != nil {
+		log.Fatalln("invalid config file:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From f1beeadfb82186ab0a6f350a1f7bedf45cece13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:36 +0000
Subject: [PATCH 20/28] fix: a client that does not complete its handshake no
 longer blocks the others

---
 main.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/main.go b/main.go
index a4decea..9988b4e 100644
--- a/main.go
+++ b/main.go
@@ -105,20 +105,25 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
-
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+		go handleConn(nConn, sshConfig, reqHandlers, logger)
+	}
+}
 
-		go handleChannels(chans, reqHandlers, logger)
+func handleConn(nConn net.Conn, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
+	// Before use, a handshake must be performed on the incoming
+	// net.Conn. It runs outside of the accept loop, so that a client that
+	// does not complete it only blocks itself.
+	_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+	if err != nil {
+		logger.Println("failed to handshake", err)
+		return
 	}
+	logger.Println("SSH server established")
+
+	// The incoming Request channel must be serviced.
+	go ssh.DiscardRequests(reqs)
+
+	handleChannels(chans, reqHandlers, logger)
 }
 
 func handleChannels(chans <-chan ssh.NewChannel, reqHandlers sftp.Handlers, logger *log.Logger) {
-- 
2.43.0


From 1a5748befdef920035aaa8eb48d03e75f5b57fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:57 +0000
Subject: [PATCH 21/28] fix: a malformed subsystem request no longer ends the
 proxy

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 9988b4e..183abc0 100644
--- a/main.go
+++ b/main.go
@@ -159,6 +159,10 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
+				if len(req.Payload) < 4 {
+					logger.Println("malformed subsystem request")
+					break
+				}
 				logger.Printf("Subsystem: %s\n", req.Payload[4:])
 				if string(req.Payload[4:]) == "sftp" {
 					ok = true
-- 
2.43.0


From f9d0595ee04160e940ceffa6065f90de9e2dcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:01 +0000
Subject: [PATCH 22/28] fix: a key file without a PEM block is an error instead
 of a panic

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e1461f9..cf9b8fe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,7 +89,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 
 func isPrivateKeyEncrypted(key []byte) bool {
 	block, _ := pem.Decode(key)
-	return x509.IsEncryptedPEMBlock(block)
+	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
-- 
2.43.0


From 7697c23f044db0c0feded8b2b96eed44c8b424f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:03 +0000
Subject: [PATCH 23/28] fix: a wrong key passphrase that decrypts to garbage no
 longer ends the attempts

---
 config/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index cf9b8fe..0643f99 100644
--- a/config/config.go
+++ b/config/config.go
@@ -77,9 +77,10 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
 			if err == nil {
 				return signer, nil
-			} else if err != x509.IncorrectPasswordError {
-				return nil, err
 			}
+			// A wrong passphrase is not always recognised as such: it can also
+			// decrypt to data that is not a key. So any error is a reason to
+			// ask again.
 		}
 		return nil, x509.IncorrectPasswordError
 	}
-- 
2.43.0


From f07d0ff6ac8db8e765bd73590fbec50a57d2a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:56 +0000
Subject: [PATCH 24/28] fix: a refused scrypt parameter no longer leaves the
 temporary configuration behind

---
 filetree/filetree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index fbbd648..115c649 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -69,17 +69,23 @@ func Init(
 	if err = f.Close(); err != nil {
 		return nil, err
 	}
-	masterKey, conf, err := configfile.LoadAndDecrypt(f.Name(), password)
+	conf, err := configfile.Load(f.Name())
+	// Unsupported scrypt parameters end the process when the key is derived,
+	// so the temporary file has to be gone before that.
+	os.Remove(f.Name())
 	if err != nil {
 		return nil, err
 	}
 	if conf.IsFeatureFlagSet(configfile.FlagPlaintextNames) {
 		return nil, errors.New("filesystems with plaintext names are not supported")
 	}
-	if len(masterKey) == 0 {
-		// LoadAndDecrypt does not decrypt the key when the password is empty
+	if len(password) == 0 {
 		return nil, errors.New("the password must not be empty")
 	}
+	masterKey, err := conf.DecryptMasterKey(password)
+	if err != nil {
+		return nil, err
+	}
 	cryptoBackend := cryptocore.BackendGoGCM
 	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
 		cryptoBackend = cryptocore.BackendAESSIV
-- 
2.43.0


From eb64fa333bf6b7ede8fbe14d25ef96e75f31e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 25/28] fix: end a session whose data ended within a packet

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 183abc0..1e962db 100644
--- a/main.go
+++ b/main.go
@@ -175,8 +175,10 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 
 	server := sftp.NewRequestServer(channel, reqHandlers)
 
-	if err := server.Serve(); err == io.EOF {
-		server.Close()
+	err = server.Serve()
+	// Also when the client's data ended within a packet.
+	server.Close()
+	if err == io.EOF {
 		logger.Println("sftp client exited session.")
 	} else if err != nil {
 		logger.Println("sftp server completed with error:", err)
-- 
2.43.0


From 07661afba983daed544b8e2c82ac899097646677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 26/28] fix: key decrypted names by the IV itself, not a 64-bit
 hash of it

The directory IV comes from the remote and the hash key is a constant, so two
IVs with the same hash are easy to find; a name asked for under one of them was
answered with the result for the other.
---
 requester/complexkey.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/requester/complexkey.go b/requester/complexkey.go
index 83a5c98..17bc844 100644
--- a/requester/complexkey.go
+++ b/requester/complexkey.go
@@ -1,20 +1,10 @@
 package requester
 
-import (
-	"fmt"
-
-	"github.com/dchest/siphash"
-)
-
-// Code adapted from github.com/cornelk/hashmap
-// Under the Apache 2.0 license:
-// https://github.com/cornelk/hashmap/blob/33e58823eb9d4426a8d2b604cece33c3c15df8cc/LICENSE
-const (
-	// generated by splitting the md5 sum of "hashmap"
-	sipHashKey1 = 0xdda7806a4847ec61
-	sipHashKey2 = 0xb5940c2623a5aabd
-)
+import "fmt"
 
+// complexKey combines a name and an IV into a cache key. The IV is part of the
+// key as it is: the remote chooses it, so different IVs could be made to share
+// a short hash.
 func complexKey(s string, b []byte) string {
-	return fmt.Sprintf("%s+%x", s, siphash.Hash(sipHashKey1, sipHashKey2, b))
+	return fmt.Sprintf("%s+%x", s, b)
 }
-- 
2.43.0


From 7b541f6e2d4065a32498c93e04255bcfb4edfde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:40 +0000
Subject: [PATCH 27/28] fix: do not hold a worker's ticket locked while it
 waits for the remote

A request whose result was there already had to wait for the worker's next,
unrelated call when that one took the lock first.
---
 requester/requester.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/requester/requester.go b/requester/requester.go
index 9579834..ddde923 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -128,11 +128,13 @@ func (r *Requester) performRequestAndCache(
 	if !loaded {
 		wt := &r.lockers[num]
 		responseCh <- wt
-		wt.Lock()
 
+		// The ticket is only locked to announce the result: whoever waits for
+		// an earlier request of this worker must not have to wait for this one.
 		data, err := request()
-		cache.Complete(key, num, genCacheEntry{data: data, err: err})
 
+		wt.Lock()
+		cache.Complete(key, num, genCacheEntry{data: data, err: err})
 		wt.cv.Broadcast()
 		wt.Unlock()
 	} else {
-- 
2.43.0


From 60f1efde7ba1f580751c9414d5c6c4b91725157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 28/28] fix: the pass-through handlers close the files they
 read and report a connection that is lost on the way

The remote file opened for a read was never closed, and a connection lost during
a read or a listing looked like the end of it, so that the client was given a
shortened file or listing as complete.
---
 handlers/proxy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/handlers/proxy.go b/handlers/proxy.go
index 773d552..fff7090 100644
--- a/handlers/proxy.go
+++ b/handlers/proxy.go
@@ -32,6 +32,11 @@ func (p *proxy) Fileread(req *sftp.Request) (io.ReaderAt, error) {
 	}
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
+	// A lost connection looks like the end of the file, so the file is only
+	// complete if it can still be closed.
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -80,6 +85,11 @@ func (p *proxy) Filelist(req *sftp.Request) (sftp.ListerAt, error) {
 		if err != nil {
 			return nil, err
 		}
+		// A lost connection looks like the end of the listing, so the listing
+		// is only complete if the connection is still okay.
+		if _, err = p.client.Getwd(); err != nil {
+			return nil, err
+		}
 		return listerat(fileList), nil
 	case "Stat":
 		fileInfo, err := p.client.Stat(req.Filepath)
-- 
2.43.0

