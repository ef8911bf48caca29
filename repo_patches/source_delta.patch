From ae2fdc6e85b19d9b3bbbb5482eebec3776741b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 01/23] fix: reject header index entries that point outside the
 header data

---
 header.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/header.go b/header.go
index 5894a58..c578a33 100644
--- a/header.go
+++ b/header.go
@@ -31,6 +31,12 @@ import (
 
 const introMagic = 0x8eade801
 
+// limits enforced by rpm on the header index and data area
+const (
+	maxHeaderEntries = 0xffff
+	maxHeaderSize    = 0xfffffff
+)
+
 type entry struct {
 	dataType, count int32
 	contents        []byte
@@ -84,6 +90,9 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	if intro.Magic != introMagic {
 		return nil, fmt.Errorf("bad magic for header")
 	}
+	if intro.Entries > maxHeaderEntries || intro.Size > maxHeaderSize {
+		return nil, fmt.Errorf("RPM header is too big")
+	}
 	// read entries
 	entryTable, err := readExact(f, int(intro.Entries*16))
 	if err != nil {
@@ -116,10 +125,16 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || int(tag.Offset) > len(data) || tag.Count < 0 {
+			return nil, fmt.Errorf("tag %d has an invalid offset or count", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
 			end = int(tag.Offset) + typeSize*int(tag.Count)
+			if end > len(data) {
+				return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+			}
 		} else {
 			// String types are null-terminated
 			end = int(tag.Offset)
-- 
2.43.0


From 1b3f820e46183fdab75a00a8e2a94ea261bb25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 02/23] fix: do not panic on string tags without any value

---
 header.go     | 28 ++++++++++++++++++++--------
 signatures.go |  8 ++++----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/header.go b/header.go
index c578a33..6ce9963 100644
--- a/header.go
+++ b/header.go
@@ -226,6 +226,18 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 	return strs[:ent.count], nil
 }
 
+// get the first of the strings held by a tag
+func (hdr *rpmHeader) firstString(tag int) (string, error) {
+	vals, err := hdr.GetStrings(tag)
+	if err != nil {
+		return "", err
+	}
+	if len(vals) == 0 {
+		return "", fmt.Errorf("tag %d has no values", tag)
+	}
+	return vals[0], nil
+}
+
 // get an int array using whatever the appropriate sized type is
 func (hdr *rpmHeader) getInts(tag int) (buf interface{}, n int, err error) {
 	ent, ok := hdr.entries[tag]
@@ -363,7 +375,7 @@ func (hdr *rpmHeader) GetBytes(tag int) ([]byte, error) {
 
 // GetNEVRA gets the name, epoch, version, release and arch of the RPM.
 func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
-	name, err := hdr.GetStrings(NAME)
+	name, err := hdr.firstString(NAME)
 	if err != nil {
 		return nil, err
 	}
@@ -374,24 +386,24 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 		// no epoch is treated as 0
 		epoch = []uint64{0}
 	}
-	version, err := hdr.GetStrings(VERSION)
+	version, err := hdr.firstString(VERSION)
 	if err != nil {
 		return nil, err
 	}
-	release, err := hdr.GetStrings(RELEASE)
+	release, err := hdr.firstString(RELEASE)
 	if err != nil {
 		return nil, err
 	}
-	arch, err := hdr.GetStrings(ARCH)
+	arch, err := hdr.firstString(ARCH)
 	if err != nil {
 		return nil, err
 	}
 	return &NEVRA{
-		Name:    name[0],
+		Name:    name,
 		Epoch:   strconv.FormatUint(epoch[0], 10),
-		Version: version[0],
-		Release: release[0],
-		Arch:    arch[0],
+		Version: version,
+		Release: release,
+		Arch:    arch,
 	}, nil
 }
 
diff --git a/signatures.go b/signatures.go
index 4678155..88726a4 100644
--- a/signatures.go
+++ b/signatures.go
@@ -89,19 +89,19 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 }
 
 func getSha1(sigHeader *rpmHeader) string {
-	vals, err := sigHeader.GetStrings(SIG_SHA1)
+	val, err := sigHeader.firstString(SIG_SHA1)
 	if err != nil {
 		return ""
 	}
-	return vals[0]
+	return val
 }
 
 func getSha256(sigHeader *rpmHeader) string {
-	vals, err := sigHeader.GetStrings(SIG_SHA256)
+	val, err := sigHeader.firstString(SIG_SHA256)
 	if err != nil {
 		return ""
 	}
-	return vals[0]
+	return val
 }
 
 func getHashAndType(sigHeader *rpmHeader) (string, crypto.Hash) {
-- 
2.43.0


From 957d6e86fe06b8ab8f6cdccf8beb71bab7ac19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 03/23] fix: reject file lists with inconsistent attribute
 arrays

---
 header.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/header.go b/header.go
index 6ce9963..b899a31 100644
--- a/header.go
+++ b/header.go
@@ -209,8 +209,14 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(dirIdxs) != len(baseNames) {
+			return nil, errors.New("mismatched number of directory indexes and base names")
+		}
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
+			if uint64(dirIdxs[i]) >= uint64(len(dirs)) {
+				return nil, fmt.Errorf("directory index %d out of range", dirIdxs[i])
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -461,6 +467,15 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	for _, n := range []int{
+		len(fileSizes), len(fileUserName), len(fileGroupName), len(fileFlags),
+		len(fileMtimes), len(fileDigests), len(fileModes), len(linkTos),
+		len(devices), len(inodes),
+	} {
+		if n != len(paths) {
+			return nil, errors.New("mismatched number of file attributes")
+		}
+	}
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
-- 
2.43.0


From 4323a21d98de4d8b195bdbea3bfa2028019a324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 04/23] fix: check header digests of any length

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index b899a31..952d349 100644
--- a/header.go
+++ b/header.go
@@ -109,7 +109,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if len(hash) > 0 {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 30e2a91c4e7129e50f70d255a5f8e0dfc099291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 05/23] fix: apply signature option defaults to unset fields

---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 88726a4..46894a4 100644
--- a/signatures.go
+++ b/signatures.go
@@ -39,14 +39,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
-- 
2.43.0


From d830bd0032b17238d86dc56cb2a5aef0c8af524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 06/23] fix: detect hard links when deciding whether to
 overwrite in place

---
 fileutil/fileutil_unix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..aa5a129 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -21,12 +21,14 @@ package fileutil
 
 import (
 	"os"
+	"syscall"
+
 	"golang.org/x/sys/unix"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 783490daf31568b670cf31102708dfc9f689bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 07/23] fix: compare versions containing newlines

---
 vercmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercmp.go b/vercmp.go
index e9cba8c..2ebb21f 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,9 +22,9 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~]*)(.*)$`)
-	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
-	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
+	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
 
 // VersionSlice provides the Sort interface for sorting version strings.
-- 
2.43.0


From c02805ff7b29e8a47bf7e8a2f88bfd2ed101618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 08/23] fix: reject signed numbers in cpio headers

---
 cpio/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpio/header.go b/cpio/header.go
index 89af114..a510e57 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -63,7 +63,7 @@ func (br *binaryReader) Read16(buf *int) error {
 	if _, err := io.ReadFull(br.r, bb); err != nil {
 		return err
 	}
-	i, err := strconv.ParseInt(string(bb), 16, 0)
+	i, err := strconv.ParseUint(string(bb), 16, 32)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d669fac26f1362ba2d2e4be9ec2c85f170042509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 09/23] fix: reject cpio entries without a filename

---
 cpio/cpio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..eabd145 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -81,6 +81,10 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 		return cs.readStrippedEntry(hdr)
 	}
 
+	if hdr.namesize < 1 {
+		return nil, errors.New("invalid cpio header: missing filename")
+	}
+
 	// Read filename
 	buf := make([]byte, hdr.namesize)
 	if _, err = io.ReadFull(cs.stream, buf); err != nil {
-- 
2.43.0


From 08da67257966211bbb8f9dd5c9cd4092d504c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 10/23] fix: reject impossible sizes of stripped cpio entries

---
 cpio/cpio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index eabd145..b0697e5 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 // TRAILER is the filename found on the last entry of a cpio archive
@@ -129,6 +130,9 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	if size < 0 || size > math.MaxInt64-cs.stream.curPos-3 {
+		return nil, fmt.Errorf("invalid size %d for file index %d", size, hdr.index)
+	}
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
-- 
2.43.0


From b1c03510311f76802df569b5bae8391d48364998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 11/23] fix: skip over cpio content without buffering it

---
 cpio/cpio.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index b0697e5..ba1ee1b 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -154,12 +154,14 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	if offset == 0 {
 		return cr.curPos, nil
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
+	n, err := io.CopyN(io.Discard, cr, offset)
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
-	return int64(n), nil
+	return n, nil
 }
 
 func pad(num int) int {
-- 
2.43.0


From 4a8e1e8c93b377944007dafcfd9149bbfd6d96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 12/23] fix: report cpio archives that end without a trailer

---
 cpio/cpio.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index ba1ee1b..ddc7f07 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -76,7 +76,10 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 
 	// Read header
 	hdr, err := readHeader(cs.stream)
-	if err != nil {
+	if err == io.EOF {
+		// archive ended without a trailer
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	} else if hdr.stripped {
 		return cs.readStrippedEntry(hdr)
-- 
2.43.0


From 86763f2da1d90afdcb43b6b7c5b3e8a49ef47785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 13/23] fix: provide Filesize64 for stripped cpio entries

---
 cpio/cpio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index ddc7f07..6dfd72e 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -133,6 +133,7 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	hdr.size64 = size
 	if size < 0 || size > math.MaxInt64-cs.stream.curPos-3 {
 		return nil, fmt.Errorf("invalid size %d for file index %d", size, hdr.index)
 	}
-- 
2.43.0


From 97584d0a0c4d1e4721bb2f257524f0e18f88c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 14/23] fix: do not panic when a payload is accessed before its
 first entry

---
 cpio/reader.go | 3 +++
 payload.go     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..fd66c96 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -58,5 +58,8 @@ func (r *Reader) Next() (*Cpio_newc_header, error) {
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.cur == nil {
+		return 0, io.EOF
+	}
 	return r.cur.payload.Read(p)
 }
diff --git a/payload.go b/payload.go
index ca489b2..ffa34f4 100644
--- a/payload.go
+++ b/payload.go
@@ -120,5 +120,5 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
-	return pr.isLink[pr.index]
+	return pr.index < len(pr.isLink) && pr.isLink[pr.index]
 }
-- 
2.43.0


From bced424833a711e68be956b5d2d53860d3fe7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 15/23] fix: report cpio archives that end before a filename

---
 cpio/cpio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 6dfd72e..82f50c7 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -91,7 +91,9 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 
 	// Read filename
 	buf := make([]byte, hdr.namesize)
-	if _, err = io.ReadFull(cs.stream, buf); err != nil {
+	if _, err = io.ReadFull(cs.stream, buf); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 8769a44a867b751229c9345964038fa8c444989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 16/23] fix: report cpio entries whose content is cut short

---
 cpio/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..a5547a2 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,8 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if err == io.EOF && fs.curr_pos < fs.size {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
-- 
2.43.0


From aa60bc8726693db25d54fcb51d757d7da988651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 17/23] fix: read symlink targets completely

---
 cpio/extract.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..5270135 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -93,7 +93,7 @@ func Extract(rs io.Reader, dest string) error {
 			}
 		case S_ISLNK:
 			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			if _, err := io.ReadFull(entry.payload, buf); err != nil {
 				return err
 			}
 			if err := os.Symlink(string(buf), target); err != nil {
-- 
2.43.0


From 7d25670d7f0d0ea9d7aacceaeeef5a0df9d258f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 18/23] fix: allow extracting to the current and root
 directories

---
 cpio/extract.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 5270135..b51ff84 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -64,7 +64,8 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
+		rel, err := filepath.Rel(dest, target)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
-- 
2.43.0


From 2453c267b6df189a3f868cabecbc8e149f269f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 19/23] fix: extract hardlink groups without content and over
 existing files

---
 cpio/extract.go | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index b51ff84..1eea3fa 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -45,6 +45,7 @@ const (
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
 	linkMap := make(map[int][]string)
+	linked := make(map[int]bool)
 
 	stream := NewCpioStream(rs)
 
@@ -135,11 +136,11 @@ func Extract(rs io.Reader, dest string) error {
 					return fmt.Errorf("hardlinks missing")
 				}
 
-				for _, t := range l {
-					if err := os.Link(target, t); err != nil {
-						return err
-					}
+				if err := linkAll(target, l); err != nil {
+					return err
 				}
+				linkMap[entry.Header.ino] = []string{target}
+				linked[entry.Header.ino] = true
 			}
 		default:
 			return fmt.Errorf("unknown file mode 0%o for %s",
@@ -147,5 +148,40 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
+	for ino, l := range linkMap {
+		if !linked[ino] {
+			// no member of the link group has content
+			f, err := os.Create(l[0])
+			if err != nil {
+				return err
+			}
+			if err := f.Close(); err != nil {
+				return err
+			}
+		}
+		if err := linkAll(l[0], l[1:]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// make every name a hardlink to target, replacing existing files
+func linkAll(target string, names []string) error {
+	for _, t := range names {
+		if t == target {
+			continue
+		}
+		err := os.Link(target, t)
+		if os.IsExist(err) {
+			if err := os.Remove(t); err != nil {
+				return err
+			}
+			err = os.Link(target, t)
+		}
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 05965f6dcaad04a433ac64ca2edb14e502dc1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 20/23] fix: do not follow symlinks out of the extraction
 directory

---
 cpio/extract.go | 71 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 7 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 1eea3fa..9d48516 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -47,6 +47,14 @@ func Extract(rs io.Reader, dest string) error {
 	linkMap := make(map[int][]string)
 	linked := make(map[int]bool)
 
+	if err := os.MkdirAll(dest, 0755); err != nil {
+		return err
+	}
+	root, err := filepath.EvalSymlinks(dest)
+	if err != nil {
+		return err
+	}
+
 	stream := NewCpioStream(rs)
 
 	for {
@@ -65,13 +73,21 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		rel, err := filepath.Rel(dest, target)
-		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+		if !inside(dest, target) {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
 		// Create the parent directory if it doesn't exist.
+		if target == dest {
+			if entry.Header.Mode()&^07777 != S_ISDIR {
+				return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
+			}
+			continue
+		}
 		parent := filepath.Dir(target)
+		if err := checkParent(root, target); err != nil {
+			return err
+		}
 		if err := os.MkdirAll(parent, 0755); err != nil {
 			return err
 		}
@@ -114,7 +130,7 @@ func Extract(rs io.Reader, dest string) error {
 			}
 
 			// FIXME: Set permissions on files when creating.
-			f, err := os.Create(target)
+			f, err := createFile(root, target)
 			if err != nil {
 				return err
 			}
@@ -136,7 +152,7 @@ func Extract(rs io.Reader, dest string) error {
 					return fmt.Errorf("hardlinks missing")
 				}
 
-				if err := linkAll(target, l); err != nil {
+				if err := linkAll(root, target, l); err != nil {
 					return err
 				}
 				linkMap[entry.Header.ino] = []string{target}
@@ -151,7 +167,7 @@ func Extract(rs io.Reader, dest string) error {
 	for ino, l := range linkMap {
 		if !linked[ino] {
 			// no member of the link group has content
-			f, err := os.Create(l[0])
+			f, err := createFile(root, l[0])
 			if err != nil {
 				return err
 			}
@@ -159,7 +175,7 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		}
-		if err := linkAll(l[0], l[1:]); err != nil {
+		if err := linkAll(root, l[0], l[1:]); err != nil {
 			return err
 		}
 	}
@@ -167,11 +183,14 @@ func Extract(rs io.Reader, dest string) error {
 }
 
 // make every name a hardlink to target, replacing existing files
-func linkAll(target string, names []string) error {
+func linkAll(root, target string, names []string) error {
 	for _, t := range names {
 		if t == target {
 			continue
 		}
+		if err := checkParent(root, t); err != nil {
+			return err
+		}
 		err := os.Link(target, t)
 		if os.IsExist(err) {
 			if err := os.Remove(t); err != nil {
@@ -185,3 +204,41 @@ func linkAll(target string, names []string) error {
 	}
 	return nil
 }
+
+// inside returns true if target is dest or something below it
+func inside(dest, target string) bool {
+	rel, err := filepath.Rel(dest, target)
+	return err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator))
+}
+
+// checkParent fails if creating target would follow a symlink out of root
+func checkParent(root, target string) error {
+	parent := filepath.Dir(target)
+	for {
+		if _, err := os.Lstat(parent); !os.IsNotExist(err) {
+			break
+		}
+		parent = filepath.Dir(parent)
+	}
+	resolved, err := filepath.EvalSymlinks(parent)
+	if err != nil {
+		return err
+	}
+	if !inside(root, resolved) {
+		return fmt.Errorf("cpio path %q leads out of the destination", target)
+	}
+	return nil
+}
+
+// createFile creates or truncates a regular file without following symlinks
+func createFile(root, target string) (*os.File, error) {
+	if err := checkParent(root, target); err != nil {
+		return nil, err
+	}
+	if fi, err := os.Lstat(target); err == nil && !fi.Mode().IsRegular() && !fi.IsDir() {
+		if err := os.Remove(target); err != nil {
+			return nil, err
+		}
+	}
+	return os.Create(target)
+}
-- 
2.43.0


From 4959bae9d438cc088374ca6f563163a732127c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 21/23] fix: do not put an incomplete or failed package copy in
 place

---
 signatures.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/signatures.go b/signatures.go
index 46894a4..b895bb9 100644
--- a/signatures.go
+++ b/signatures.go
@@ -225,7 +225,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -235,14 +235,14 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
-		outinfo, err := os.Lstat(outpath)
-		if err == nil && canOverwrite(ininfo, outinfo) {
+		outinfo, statErr := os.Lstat(outpath)
+		if statErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
 				return err
 			}
 			// in-place didn't work; fallback to rewrite
-		} else if err == nil && !outinfo.Mode().IsRegular() {
+		} else if statErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
 			outfile, err := os.Create(outpath)
 			if err != nil {
@@ -253,19 +253,21 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
-			if err != nil {
-				return err
+			tempfile, tempErr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			if tempErr != nil {
+				return tempErr
 			}
 			defer func() {
+				_ = tempfile.Chmod(0644)
+				closeErr := tempfile.Close()
+				if err == nil {
+					err = closeErr
+				}
+				if err == nil {
+					err = os.Rename(tempfile.Name(), outpath)
+				}
 				if err != nil {
 					os.Remove(tempfile.Name())
-				} else {
-					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
-					err = os.Rename(tempfile.Name(), outpath)
 				}
 			}()
 			outstream = tempfile
-- 
2.43.0


From 6648cca05c0b588df7730076f12113630a5c51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 22/23] fix: do not truncate the input when the output path is
 a symlink to it

---
 signatures.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signatures.go b/signatures.go
index b895bb9..429cbcb 100644
--- a/signatures.go
+++ b/signatures.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 	"time"
 
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
@@ -235,6 +236,10 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
+		if resolved, err := filepath.EvalSymlinks(outpath); err == nil {
+			// replace what a symlink points to, which may be the input
+			outpath = resolved
+		}
 		outinfo, statErr := os.Lstat(outpath)
 		if statErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
-- 
2.43.0


From 23b9efc3bc524d0a260fd49ccbedf898caa5d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:25 +0000
Subject: [PATCH 23/23] fix: fail when something other than a directory is in a
 directory entry's place

---
 cpio/extract.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 9d48516..214d043 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -102,8 +102,11 @@ func Extract(rs io.Reader, dest string) error {
 			continue
 		case S_ISDIR:
 			m := os.FileMode(entry.Header.Mode()).Perm()
-			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
-				return err
+			if err := os.Mkdir(target, m); err != nil {
+				// an existing directory is fine, anything else is in the way
+				if fi, serr := os.Stat(target); serr != nil || !fi.IsDir() {
+					return err
+				}
 			}
 		case S_ISFIFO:
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
-- 
2.43.0

