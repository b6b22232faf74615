From 7ba8cdad2c65040b0c95dee83e22795edc35a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 01/94] fix: memfile.FileWithSize.ReadAll called itself without
 end

---
 memfile/filewithsize.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..89e0970 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -1,6 +1,9 @@
 package memfile
 
-import "os"
+import (
+	"io"
+	"os"
+)
 
 type FileWithSize struct {
 	file *os.File
@@ -31,4 +34,15 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	info, err := fws.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	data := make([]byte, info.Size())
+	_, err = io.ReadFull(io.NewSectionReader(fws.file, 0, info.Size()), data)
+	if err != nil {
+		return nil, err
+	}
+	return data, nil
+}
-- 
2.43.0


From 58f1e752bebf09308318fae75ffbaec9876e33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 02/94] fix: appendOptimizedFile.ReadAll read from the current
 file offset instead of the start

---
 memfile/appendoptimized.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..9bac11a 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -46,10 +46,13 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	info, _ := a.file.Stat()
+	info, err := a.file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	size := info.Size()
 	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	_, err = io.ReadFull(io.NewSectionReader(a.file, 0, size), data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b52a1a780058959810b39b19ff1a6204db9dc432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 03/94] fix: appendOptimizedFile.WriteAt ignored a failing seek
 and appended at the wrong place

---
 memfile/appendoptimized.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 9bac11a..d9243f9 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -93,7 +93,10 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 		// Previous operation was not append. But what about this operation?
 		if off == a.totalSize {
 			// Yes it is an append, set up a buffer and use it
-			a.file.Seek(0, io.SeekEnd)
+			_, err := a.file.Seek(0, io.SeekEnd)
+			if err != nil {
+				return 0, err
+			}
 			a.bufferedWriter = bufio.NewWriter(a.file)
 			nWritten, err := a.bufferedWriter.Write(p)
 			if err != nil {
-- 
2.43.0


From 3a5deff65150ef9f81eed157dfaa57896cebeb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 04/94] fix: WordFile.ReadWholeFileAsInt64s bypassed the append
 buffer and read from the current file offset

---
 wordfile/wordfile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..25a9ce0 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -84,10 +84,10 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
-	info, _ := wf.underlying.Stat()
-	size := info.Size()
+	// Go through wf.file, which knows about any buffered appends
+	size := wf.wordCount * wf.wordSize
 	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
+	_, err := io.ReadFull(io.NewSectionReader(wf.file, 0, size), data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b49070877b988a45717c4a600434e1bb238466ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 05/94] fix: WordFile.WriteWordAt silently truncated a value
 too large for the word size

---
 wordfile/wordfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index 25a9ce0..e5ef2f6 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -2,6 +2,7 @@ package wordfile
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"os"
@@ -51,6 +52,9 @@ func (wf *WordFile) ReadWordAt(off int64) (int64, error) {
 }
 
 func (wf *WordFile) WriteWordAt(val int64, off int64) error {
+	if wf.wordSize < 8 && uint64(val)>>(8*wf.wordSize) != 0 {
+		return errors.New("WriteWordAt(): value does not fit in the word size")
+	}
 	binary.LittleEndian.PutUint64(wf.scratch8[:], uint64(val))
 	_, err := wf.file.WriteAt(wf.scratch, off*wf.wordSize)
 	if err != nil {
-- 
2.43.0


From d00dea59211ea630e8db0faa1164f73d79a928a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 06/94] fix: MemShadowedWordFile kept a value in memory that
 could not be written to the file

---
 wordfile/memshadowedwordfile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..a8752e9 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -34,7 +34,11 @@ func (wf *MemShadowedWordFile) ReadWholeFileAsInt64s() ([]int64, error) {
 }
 
 func (wf *MemShadowedWordFile) WriteWordAt(val int64, off int64) error {
-	// Write to shadow and underlying
+	// Write to underlying and (once that succeeded) to shadow
+	err := wf.underlying.WriteWordAt(val, off)
+	if err != nil {
+		return err
+	}
 	length := int64(len(wf.shadow))
 	if off >= length {
 		newVals := off + 1 - length
@@ -44,8 +48,7 @@ func (wf *MemShadowedWordFile) WriteWordAt(val int64, off int64) error {
 	}
 	wf.shadow[off] = val
 
-	err := wf.underlying.WriteWordAt(val, off)
-	return err
+	return nil
 }
 
 func (wf *MemShadowedWordFile) CountWords() (words int64, err error) {
-- 
2.43.0


From 61fbeecfada69298db7e56124f239d6a4a0c3457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 07/94] fix: creating a word file ignored a failing close

---
 wordfile/concretemmapcreator.go     | 4 +---
 wordfile/concretewordfilecreator.go | 9 +++------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/wordfile/concretemmapcreator.go b/wordfile/concretemmapcreator.go
index 7fb1ee0..aa2ffcd 100644
--- a/wordfile/concretemmapcreator.go
+++ b/wordfile/concretemmapcreator.go
@@ -57,9 +57,7 @@ func (wfc *ConcreteMmapWordFileCreator) CreateWordFile() error {
 		log.Println("CreateWordFile(): Could not call os.Create()")
 		return err
 	}
-	defer file.Close()
-
-	return nil
+	return file.Close()
 }
 
 func (wfc *ConcreteMmapWordFileCreator) OpenWordFileReadOnly() (ReadAtWordCounter, error) {
diff --git a/wordfile/concretewordfilecreator.go b/wordfile/concretewordfilecreator.go
index 60eb7e5..053a7f4 100644
--- a/wordfile/concretewordfilecreator.go
+++ b/wordfile/concretewordfilecreator.go
@@ -67,9 +67,7 @@ func (wfc *ConcreteWordFileCreator) CreateWordFile() error {
 		log.Println("CreateWordFile(): Could not call os.Create()")
 		return err
 	}
-	defer file.Close()
-
-	return nil
+	return file.Close()
 }
 
 func (wfc *ConcreteWordFileCreator) OpenWordFile() (ReadWriteAtWordCounter, error) {
@@ -153,10 +151,9 @@ func (wfc *ConcreteWordFileCreator) CreateWordFileFilledZeros(count int64) error
 	}
 	err = file.Truncate(count * wfc.wordSize)
 	if err != nil {
+		file.Close()
 		return err
 	}
 
-	defer file.Close()
-
-	return nil
+	return file.Close()
 }
-- 
2.43.0


From 8e123555febbbf1696811396af3435d6e16c0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 08/94] fix: opening a word file leaked the file handle on
 failure

---
 wordfile/concretewordfilecreator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wordfile/concretewordfilecreator.go b/wordfile/concretewordfilecreator.go
index 053a7f4..dcc22f0 100644
--- a/wordfile/concretewordfilecreator.go
+++ b/wordfile/concretewordfilecreator.go
@@ -79,17 +79,20 @@ func (wfc *ConcreteWordFileCreator) OpenWordFile() (ReadWriteAtWordCounter, erro
 
 	wordCount, err := wfc.countWords(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 
 	var result ReadWriteAtWordCounter
 	appendOptimizedFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 	if wfc.memShadowed {
 		result, err = NewMemShadowedWordFile(appendOptimizedFile, file, wfc.wordSize, wordCount)
 		if err != nil {
+			file.Close()
 			return nil, err
 		}
 	} else {
@@ -106,6 +109,7 @@ func (wfc *ConcreteWordFileCreator) OpenWordFileReadOnly() (ReadAtWordCounter, e
 
 	wordCount, err := wfc.countWords(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 
@@ -114,6 +118,7 @@ func (wfc *ConcreteWordFileCreator) OpenWordFileReadOnly() (ReadAtWordCounter, e
 	if wfc.memShadowed {
 		result, err = NewMemShadowedWordFile(fileWithSize, file, wfc.wordSize, wordCount)
 		if err != nil {
+			file.Close()
 			return nil, err
 		}
 	} else {
-- 
2.43.0


From ac13f1c5bf9dde4293fcc77c071a6d0ec2c0c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 09/94] fix: IntArrayMapStore.AppendToArray ignored failures to
 save or load an array file, and could overwrite an unreadable one

---
 intarrayarray/intarraymapstore.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..d734af6 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -68,7 +68,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
@@ -76,13 +79,15 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		if err != nil {
 			return err
 		}
-		// Make a note of the filename and number
-		ms.latestFilepath = filepath
-		ms.latestFileNumber = fileNumber
+		ms.latestFilepath = ""
 		err = ms.latestIntArrayArray.LoadFile(filepath)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			// We don't mind about file not found, happy to be empty
+			return err
 		}
+		// Make a note of the filename and number
+		ms.latestFilepath = filepath
+		ms.latestFileNumber = fileNumber
 		// Append to the array
 		ms.latestIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
@@ -110,12 +115,14 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 			}
 		}
 		// We can now safely load the required file into "older"
-		// Make a note of the filename
-		ms.olderFilepath = filepath
+		ms.olderFilepath = ""
 		err := ms.olderIntArrayArray.LoadFile(filepath)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			// We don't mind a file not found here
+			return err
 		}
+		// Make a note of the filename
+		ms.olderFilepath = filepath
 		// And append to it
 		ms.olderIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
-- 
2.43.0


From 8eea2dd2dce94917fa506e60dc8feb1cdb8de744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 10/94] fix: IntArrayMapStore saved an older array file without
 creating that file's own folder

---
 intarrayarray/intarraymapstore.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index d734af6..103b719 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -3,6 +3,7 @@ package intarrayarray
 import (
 	"github.com/KitchenMishap/pudding-shed/numberedfolders"
 	"os"
+	pathpkg "path/filepath"
 )
 
 type IntArrayMapStore struct {
@@ -103,8 +104,8 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
+			// Don't forget to create its folder... as it may not exist yet
+			err := os.MkdirAll(pathpkg.Dir(ms.olderFilepath), 0755)
 			if err != nil {
 				return err
 			}
@@ -132,7 +133,12 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 
 func (ms *IntArrayMapStore) FlushFile() error {
 	if ms.olderFilepath != "" {
-		err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+		// Don't forget to create its folder... as it may not exist yet
+		err := os.MkdirAll(pathpkg.Dir(ms.olderFilepath), 0755)
+		if err != nil {
+			return err
+		}
+		err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d3f1b2a19047ec979138a4ff3e5097da69459d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 11/94] fix: CachedIntArrayMapStore ignored failures to load or
 save an array file, and could overwrite an unreadable one

---
 intarrayarray/cachedintarraymapstore.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..3a4cfc9 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -80,8 +80,9 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
-	if err != nil {
-		// Don't mind error here, we just stay empty
+	if err != nil && !os.IsNotExist(err) {
+		// We don't mind about file not found, we just stay empty
+		return nil, err
 	}
 	ms.mapFolderFilenameToArrayArray[foldersFilename] = cached
 	ms.mapFolderFilenameToFolderPath[foldersFilename] = folderPath
@@ -89,7 +90,10 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.cacheElementCount += cached.elementTally
 
 	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return &cached, nil
 }
@@ -131,7 +135,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
-- 
2.43.0


From 23a8b166e3b8ea30c39b32c89b141dee18cf1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 12/94] fix: CachedIntArrayMapStore lost count of its cached
 elements and could trim the cache forever

---
 intarrayarray/cachedintarraymapstore.go  | 15 ++++++++-------
 intarrayarray/concretemapstorecreator.go |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 3a4cfc9..215efdc 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -16,7 +16,7 @@ type CachedIntArrayMapStore struct {
 	// Live
 	cacheElementCount             int64
 	lastAccessCounter             int64 // An increasing index, indexing time of last access
-	mapFolderFilenameToArrayArray map[string]IntArrayArray
+	mapFolderFilenameToArrayArray map[string]*IntArrayArray
 	mapFolderFilenameToLastAccess map[string]int64
 	mapFolderFilenameToFolderPath map[string]string
 }
@@ -73,11 +73,12 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 
 	cached, ok := ms.mapFolderFilenameToArrayArray[foldersFilename]
 	if ok {
-		return &cached, nil // Already cached
+		return cached, nil // Already cached
 	}
 
 	// Newly cached
-	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
+	newlyCached := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
+	cached = &newlyCached
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
 	if err != nil && !os.IsNotExist(err) {
@@ -89,13 +90,13 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
 		err = ms.trimCache(foldersFilename)
 		if err != nil {
 			return nil, err
 		}
 	}
-	return &cached, nil
+	return cached, nil
 }
 
 func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error {
@@ -103,7 +104,7 @@ func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
-		if value < oldest && key != excludeFoldersFilename {
+		if value <= oldest && key != excludeFoldersFilename {
 			oldest = value
 			oldestFoldersFilename = key
 		}
@@ -169,7 +170,7 @@ func (ms *CachedIntArrayMapStore) FlushFile() error {
 			return err
 		}
 	}
-	ms.mapFolderFilenameToArrayArray = make(map[string]IntArrayArray)
+	ms.mapFolderFilenameToArrayArray = make(map[string]*IntArrayArray)
 	ms.mapFolderFilenameToLastAccess = make(map[string]int64)
 	ms.mapFolderFilenameToFolderPath = make(map[string]string)
 	ms.cacheElementCount = 0
diff --git a/intarrayarray/concretemapstorecreator.go b/intarrayarray/concretemapstorecreator.go
index 1a6bf80..2e2e2d4 100644
--- a/intarrayarray/concretemapstorecreator.go
+++ b/intarrayarray/concretemapstorecreator.go
@@ -52,9 +52,9 @@ func (c *ConcreteMapStoreCreator) OpenMap() (IntArrayMapStoreReadWrite, error) {
 		result.arrayCountPerFile = int64(math.Pow10(int(c.digitsPerFile)))
 		result.elementByteSize = c.elementByteSize
 		result.numberedFolders = numberedfolders.NewNumberedFolders(int(c.digitsPerFile), int(c.digitsPerFolder))
-		result.cacheElementCountLimit = 8000000000 / c.elementByteSize        // 8GB	ToDo Sounds like an awful lot?
-		result.mapFolderFilenameToArrayArray = make(map[string]IntArrayArray) // Not sure how it survived
-		result.mapFolderFilenameToLastAccess = make(map[string]int64)         // without these intialized before?
+		result.cacheElementCountLimit = 8000000000 / c.elementByteSize         // 8GB	ToDo Sounds like an awful lot?
+		result.mapFolderFilenameToArrayArray = make(map[string]*IntArrayArray) // Not sure how it survived
+		result.mapFolderFilenameToLastAccess = make(map[string]int64)          // without these intialized before?
 		result.mapFolderFilenameToFolderPath = make(map[string]string)
 		return &result, nil
 
-- 
2.43.0


From ce39a5dabefe28d774ba9f59f322a2014e0676f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 13/94] fix: IntArrayArray.SaveFile silently truncated a value
 too large for the element size

---
 intarrayarray/intarrayarray.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intarrayarray/intarrayarray.go b/intarrayarray/intarrayarray.go
index 4e6b8a4..c953725 100644
--- a/intarrayarray/intarrayarray.go
+++ b/intarrayarray/intarrayarray.go
@@ -2,6 +2,7 @@ package intarrayarray
 
 import (
 	"encoding/binary"
+	"errors"
 	"os"
 )
 
@@ -64,6 +65,9 @@ func (iaa *IntArrayArray) SaveFile(filepath string) error {
 		buffer = append(buffer, converter.ToBytes()...) // Concatenation of slices
 
 		for j := int64(0); j < arrayLen; j++ {
+			if iaa.elementByteSize < 8 && uint64(originalArray[j])>>(8*iaa.elementByteSize) != 0 {
+				return errors.New("IntArrayArray.SaveFile(): value does not fit in the element size")
+			}
 			byt8 := [8]byte{}
 			binary.LittleEndian.PutUint64(byt8[:], uint64(originalArray[j]))
 			// Only want the first few LS bytes
-- 
2.43.0


From b77d5b9ff0842195a3d4073f98435835bce10a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 14/94] fix: creating a hash store ignored a failing close

---
 indexedhashes/concretehashstorecreator.go       | 15 ++++++++++-----
 indexedhashes/concretehashstorecreatormemory.go |  4 +---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index ec4c90b..964c83a 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -63,7 +63,10 @@ func (hsc *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	defer hashesFile.Close()
+	err = hashesFile.Close()
+	if err != nil {
+		return err
+	}
 
 	// Lookup file (.lkp) starts off as a full file of zeroes
 	fullName = filepath.Join(hsc.folder, hsc.name+".lkp")
@@ -71,8 +74,12 @@ func (hsc *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	defer lookupFile.Close()
 	err = lookupFile.Truncate(hsc.entryByteCount << hsc.partialHashBitCount)
+	if err != nil {
+		lookupFile.Close()
+		return err
+	}
+	err = lookupFile.Close()
 	if err != nil {
 		return err
 	}
@@ -83,9 +90,7 @@ func (hsc *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	defer collisionsFile.Close()
-
-	return nil
+	return collisionsFile.Close()
 }
 
 func (hsc *ConcreteHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..8bc61e2 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -44,9 +44,7 @@ func (hsc *ConcreteHashStoreCreatorMemory) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	defer hashesFile.Close()
-
-	return nil
+	return hashesFile.Close()
 }
 
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, error) {
-- 
2.43.0


From f0fc09f67e7a324faa773e7b172db2757272c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 15/94] fix: OpenHashStore ignored a failure to set up the
 hashes file

---
 indexedhashes/concretehashstorecreator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index 964c83a..40cb6dc 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -108,7 +108,11 @@ func (hsc *ConcreteHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
 	hashesCount := stat.Size() / 32
 	var hashesFile memfile.AppendableLookupFile
 	if hsc.useAppendOptimizedForHashes {
-		hashesFile, _ = memfile.NewAppendOptimizedFile(hashesFileUnderlying)
+		hashesFile, err = memfile.NewAppendOptimizedFile(hashesFileUnderlying)
+		if err != nil {
+			hashesFileUnderlying.Close()
+			return nil, err
+		}
 	} else {
 		hashesFile = hashesFileUnderlying
 	}
-- 
2.43.0


From f24277e677e8241d1b0f48f92bd1d2e13e21c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 16/94] fix: opening a hash store leaked files when a later
 step failed

---
 indexedhashes/concretehashstorecreator.go       | 2 ++
 indexedhashes/concretehashstorecreatormemory.go | 2 ++
 indexedhashes/uniform.go                        | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index 40cb6dc..88ae63b 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -103,6 +103,7 @@ func (hsc *ConcreteHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
 	// Count the hashes
 	stat, err := hashesFileUnderlying.Stat()
 	if err != nil {
+		hashesFileUnderlying.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
@@ -157,6 +158,7 @@ func (hsc *ConcreteHashStoreCreator) OpenHashStoreReadOnly() (HashReader, error)
 	// Count the hashes
 	stat, err := hashesFile.Stat()
 	if err != nil {
+		hashesFile.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 8bc61e2..b31b1b6 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -57,6 +57,7 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Count the hashes
 	stat, err := hashesFileUnderlying.Stat()
 	if err != nil {
+		hashesFileUnderlying.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
@@ -79,6 +80,7 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Count the hashes
 	stat, err := hashesFile.Stat()
 	if err != nil {
+		hashesFile.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..63739fa 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -159,16 +159,19 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 	}
 	stat, err := file.Stat()
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 	size := stat.Size()
 	underlying, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 	store.hashFile = wordfile.NewHashFile(underlying, size/32)
 	file, err = os.OpenFile(uc.binStartsFilePath(), os.O_RDWR, 0755)
 	if err != nil {
+		store.hashFile.Close()
 		return nil, err
 	}
 	store.binStartsFile = file
-- 
2.43.0


From cae0186a25d39449586cad635ca582971e0cd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 17/94] fix: hashHexToBin built its error for a wrong length
 but never returned it

---
 indexedhashes/hexstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hexstring.go b/indexedhashes/hexstring.go
index 7b6e750..cb00ebc 100644
--- a/indexedhashes/hexstring.go
+++ b/indexedhashes/hexstring.go
@@ -21,7 +21,7 @@ func HashHexToSha256(hexAscii string, sha256 *Sha256) error {
 // Attempt to make this quick
 func hashHexToBinInternal(hexAscii string, lookup *[256 * 256]byte) ([32]byte, error) {
 	if len(hexAscii) != 64 {
-		errors.New("hash must be 64 hex digits")
+		return [32]byte{}, errors.New("hash must be 64 hex digits")
 	}
 	result := [32]byte{
 		// To get the ascii of a rune from a string, we cast to an int
-- 
2.43.0


From 37d88b98590cd6715ae1e579140f96adf2b65a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 18/94] fix: the uniform hash store could never write its
 Params.json, and its constructor ignored that

---
 indexedhashes/uniform.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 63739fa..f300571 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -64,12 +64,6 @@ func NewUniformHashStoreCreatorPrivate(hashCountEstimate int64,
 	possibleHashes := math.Pow(2, 64) // Because taking 64 LS bits of hash
 	result.params.HashDivider = uint64(possibleHashes / float64(targetNumFiles))
 
-	sep := string(os.PathSeparator)
-	fileParams, _ := os.Create(result.folderPath() + sep + "Params.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(result.params)
-	_, _ = fileParams.Write(byts)
-
 	return &result
 }
 
@@ -119,25 +113,17 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	file, err := os.OpenFile(uc.hashFilePath(), os.O_CREATE, 0755)
-	defer file.Close()
+	err = os.WriteFile(uc.hashFilePath(), nil, 0755)
 	if err != nil {
 		return err
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
-	defer fileParams.Close()
-	if err != nil {
-		return err
-	}
 	byts, err := json.Marshal(uc.params)
-	_, err = fileParams.Write(byts)
 	if err != nil {
 		return err
 	}
-
-	return nil
+	return os.WriteFile(uc.folderPath()+sep+"Params.json", byts, 0755)
 }
 
 func (uc *UniformHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
-- 
2.43.0


From 047820f5d49bdcac5068508b1b9421c21c6c9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 19/94] fix: UniformHashStore.Test used the index of a hash
 that was not found, and ignored the error

---
 indexedhashes/uniform.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index f300571..fdbe2ac 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -343,8 +343,15 @@ func (us *UniformHashStore) Test() (bool, error) {
 		if index != i {
 			fmt.Println("Repeated hash at ", i, ", ", index)
 		}
+		if index == -1 {
+			fmt.Println("Hash not found at ", i)
+			return false, nil
+		}
 		hash2 := Sha256{}
 		err = us.GetHashAtIndex(index, &hash2)
+		if err != nil {
+			return false, err
+		}
 		for j := 0; j < 32; j++ {
 			if hash[j] != hash2[j] {
 				fmt.Println("Hash mismatch at ", i, ", ", index)
-- 
2.43.0


From 2178795b2f6f3b9a8c22258713c5e68781de01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 20/94] fix: SinglePassDetails.ReadIn took a read error for the
 end of the hashes file

---
 indexedhashes/multipasspreloader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..afd8f5e 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"sync"
@@ -130,8 +131,14 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 
 	chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
 
-	nBytes, _ := hashesFile.Read(chunk)
-	for nBytes > 0 {
+	for {
+		nBytes, err := io.ReadFull(hashesFile, chunk)
+		if err == io.EOF {
+			break
+		}
+		if err != nil && err != io.ErrUnexpectedEOF {
+			return err
+		}
 		if nBytes%32 != 0 {
 			return errors.New("invalid hash file length")
 		}
@@ -141,7 +148,6 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 			spd.dealWithOneHash(&ih, mp)
 			ih.index++
 		}
-		nBytes, _ = hashesFile.Read(chunk)
 	}
 	return nil
 }
-- 
2.43.0


From 4cfa99d9d7cc6fc0a1f6ce8724554e013716b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 21/94] fix: writeOverflowFiles kept every overflow file open
 until the end and ignored failing closes

---
 indexedhashes/multipasspreloader.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index afd8f5e..9254d32 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -216,19 +216,14 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 			if err != nil {
 				return err
 			}
-			file, err := os.Create(folderPath + sep + filename + ".ovf")
-			if err != nil {
-				return err
-			}
-			defer file.Close()
+			bytes := make([]byte, 8*len(element))
 			for i := 0; i < len(element); i++ {
 				ih := element[i]
-				bytes := make([]byte, 8)
-				binary.LittleEndian.PutUint64(bytes[0:8], uint64(ih.index))
-				_, err = file.Write(bytes)
-				if err != nil {
-					return err
-				}
+				binary.LittleEndian.PutUint64(bytes[i*8:i*8+8], uint64(ih.index))
+			}
+			err = os.WriteFile(folderPath+sep+filename+".ovf", bytes, 0666)
+			if err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 64b0104646a7e95540b25387c39f97bdd2df3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 22/94] fix: the uniform preloader leaked its bin starts file
 on failure

---
 indexedhashes/multipasspreloader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index 9254d32..8e557de 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -248,12 +248,14 @@ func (mp *MultipassPreloader) CreateInitialFiles() error {
 	err = mp.binStartsFile.Truncate(int64(bsFileSize))
 	if err != nil {
 		fmt.Println("Couldn't make a ", bsFileSize/1024/1024, "MB file")
+		mp.binStartsFile.Close()
 		return err
 	}
 
 	ofFolderPath := mp.creator.folderPath() + sep + "BinOverflows"
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
+		mp.binStartsFile.Close()
 		return err
 	}
 	return nil
@@ -282,14 +284,17 @@ func (mp *MultipassPreloader) IndexTheHashes() error {
 		passDetails := NewSinglePassDetails(firstAddress, addresses)
 		err = passDetails.ReadIn(mp)
 		if err != nil {
+			mp.binStartsFile.Close()
 			return err
 		}
 		err = passDetails.writeIntoBinStartsFile(mp)
 		if err != nil {
+			mp.binStartsFile.Close()
 			return err
 		}
 		err = passDetails.writeOverflowFiles(mp)
 		if err != nil {
+			mp.binStartsFile.Close()
 			return err
 		}
 	}
-- 
2.43.0


From 1bd277ab2f07ecd56a1ae6b1c919964df6fe97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 23/94] fix: CreateHashIndexFiles ignored a failure to take a
 hash entry

---
 indexedhashes/jobs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/jobs.go b/indexedhashes/jobs.go
index 3afd79a..d21bfa3 100644
--- a/indexedhashes/jobs.go
+++ b/indexedhashes/jobs.go
@@ -93,7 +93,10 @@ func CreateHashIndexFiles() error {
 			preloader.memBlocker.WaitForSpareMemory()
 		}
 
-		preloader.delegateEntryToStores(entry, preloader.dividedAddressForHash(&hash))
+		err = preloader.delegateEntryToStores(entry, preloader.dividedAddressForHash(&hash))
+		if err != nil {
+			return err
+		}
 		heapGb = float64(memBlocker.LastHeapSize()/100000) / 10000.0
 
 		hashesSent++
-- 
2.43.0


From 833f865873921b61a836da7c5013e49520d4388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 24/94] fix: UniformHashStore.AppendHash leaked the overflow
 file on failure

---
 indexedhashes/uniform.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index fdbe2ac..58444e4 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -223,17 +223,18 @@ func (us *UniformHashStore) AppendHash(hash *Sha256) (int64, error) {
 	}
 	_, err = file.Write(toAppend[:])
 	if err != nil {
+		file.Close()
 		return -1, err
 	}
 	err = file.Sync()
 	if err != nil {
+		file.Close()
 		return -1, err
 	}
 	err = file.Close()
 	if err != nil {
 		return -1, err
 	}
-	file = nil
 
 	return newIndex, nil
 }
-- 
2.43.0


From 7995356d988a1d50a5eb60fdd9834f8a357b4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 25/94] fix: MemoryIndexedHashes gave the last index of a
 repeated hash instead of the first

---
 indexedhashes/memoryindexed.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..4fa7a8f 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -22,7 +22,11 @@ func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
-	mih.theMap[*hash] = mih.count
+	_, alreadyThere := mih.theMap[*hash]
+	if !alreadyThere {
+		// The first occurrence of a repeated hash wins
+		mih.theMap[*hash] = mih.count
+	}
 	mih.count++
 	return index, nil
 }
-- 
2.43.0


From 8c1f401b42406e1f7a91727366e6da4321b3adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 26/94] fix: a reopened memory-indexed hash store knew none of
 the hashes stored before

---
 .../concretehashstorecreatormemory.go         | 10 ++++++++++
 indexedhashes/memoryindexed.go                | 20 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index b31b1b6..db45c32 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -68,6 +68,11 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		hashFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +94,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		hashFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index 4fa7a8f..9845b2c 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -17,6 +17,26 @@ func NewMemoryIndexedHashes(hashFile *wordfile.HashFile) *MemoryIndexedHashes {
 	return &result
 }
 
+// loadExisting indexes the hashes that are already in the hash file
+func (mih *MemoryIndexedHashes) loadExisting() error {
+	count, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for ; mih.count < count; mih.count++ {
+		hash := Sha256{}
+		err = mih.theStore.GetHashAtIndex(mih.count, &hash)
+		if err != nil {
+			return err
+		}
+		_, alreadyThere := mih.theMap[hash]
+		if !alreadyThere {
+			mih.theMap[hash] = mih.count
+		}
+	}
+	return nil
+}
+
 func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	index, err := mih.theStore.AppendHash(hash)
 	if err != nil {
-- 
2.43.0


From 827148a394f5e4024ac9a6c65a3bb23fdae0bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 27/94] fix: an unreadable bin overflow file was taken for an
 absent one

---
 indexedhashes3/binfiles.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 23c435e..221b538 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -34,6 +34,9 @@ func loadBinFromSlice(theBinBytes []byte, bn binNum, ovf *overflowFiles, p *Hash
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
 		if err != nil {
 			// Do nothing when file doesn't exist
+			if !os.IsNotExist(err) {
+				return nil, err
+			}
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
@@ -65,6 +68,9 @@ func loadBinFromSliceIntoSlot(theBinBytes []byte, bn binNum, ovf *overflowFiles,
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
 		if err != nil {
 			// Do nothing when file doesn't exist
+			if !os.IsNotExist(err) {
+				return err
+			}
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
-- 
2.43.0


From 66e3fd504c6f01734a2b6efa144977dbf3df69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 28/94] fix: failures to write HashIndexingParams.json were
 ignored

---
 indexedhashes3/hashstorecreator.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..69d0dbc 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -20,15 +20,24 @@ type ConcreteHashStoreCreator struct {
 // Check that implements
 var _ indexedhashes.HashStoreCreator = (*ConcreteHashStoreCreator)(nil)
 
+func writeParamsFile(params *HashIndexingParams, hashStoreFolderPath string) error {
+	byts, err := json.Marshal(params)
+	if err != nil {
+		return err
+	}
+	sep := string(os.PathSeparator)
+	return os.WriteFile(hashStoreFolderPath+sep+"HashIndexingParams.json", byts, 0666)
+}
+
 func NewHashStoreCreatorAndPreloader(folder string, name string,
 	params *HashIndexingParams, gbMem int, ba *BinsArray) (indexedhashes.HashStoreCreator, *MultipassPreloader, error) {
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(params, hashStoreFolderPath)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -50,10 +59,10 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(params, hashStoreFolderPath)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
-- 
2.43.0


From 2289fc4a7ed6382d39db79cdda95e698e72d6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 29/94] fix: opening a bin hash store leaked files when a later
 step failed

---
 indexedhashes3/hashstore.go        | 1 +
 indexedhashes3/hashstorecreator.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/indexedhashes3/hashstore.go b/indexedhashes3/hashstore.go
index 690513c..99c2dbf 100644
--- a/indexedhashes3/hashstore.go
+++ b/indexedhashes3/hashstore.go
@@ -40,6 +40,7 @@ func newHashStoreObject(params *HashIndexingParams, folderPath string,
 	if hashesInRamDANGER {
 		err := result.loadHashesToRam()
 		if err != nil {
+			result.binNumFileWrite.Close()
 			return nil, err
 		}
 	}
diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index 69d0dbc..de0feab 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -47,6 +47,7 @@ func NewHashStoreCreatorAndPreloader(folder string, name string,
 	}
 	appendOptimizedFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 	wordFile := wordfile.NewWordFile(appendOptimizedFile, file, params.BytesRoomForBinNum(), 0)
@@ -72,6 +73,7 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	}
 	appendOptimizedFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 	wordFile := wordfile.NewWordFile(appendOptimizedFile, file, params.BytesRoomForBinNum(), 0)
@@ -152,6 +154,7 @@ func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter
 	}
 	hashStore, err := newHashStoreObject(c.params, c.folderPath, c.binNumWordFileCreator, binStartsFile, c.hashesInRamDANGER)
 	if err != nil {
+		binStartsFile.Close()
 		return nil, err
 	}
 	return hashStore, nil
@@ -166,6 +169,7 @@ func (c *ConcreteHashStoreCreator) OpenHashStoreReadOnly() (indexedhashes.HashRe
 	}
 	hashStore, err := newHashStoreObjectReadOnly(c.params, c.folderPath, c.binNumWordFileCreator, binStartsFile)
 	if err != nil {
+		binStartsFile.Close()
 		return nil, err
 	}
 	return hashStore, nil
-- 
2.43.0


From 4121ea2e5aa9a8874f3c128cd45bf6f5cb5f82df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 30/94] fix: a created bin hash store had room for one bin
 only, no parameters file, and a leaked file handle

---
 indexedhashes3/hashstorecreator.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index de0feab..c11a597 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -125,9 +125,17 @@ func (c *ConcreteHashStoreCreator) HashStoreExists() bool {
 
 func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	// Create the parameters json file
+	err := os.MkdirAll(c.folderPath, os.ModePerm)
+	if err != nil {
+		return err
+	}
+	err = writeParamsFile(c.params, c.folderPath)
+	if err != nil {
+		return err
+	}
 
 	// Create the binNumsFile
-	err := c.binNumWordFileCreator.CreateWordFile()
+	err = c.binNumWordFileCreator.CreateWordFile()
 	if err != nil {
 		return err
 	}
@@ -138,11 +146,12 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	err = binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 	if err != nil {
+		binStartsFile.Close()
 		return err
 	}
-	return nil
+	return binStartsFile.Close()
 }
 
 func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter, error) {
-- 
2.43.0


From d0f5dc2b491bc4b53d542120d0e613e722a0b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 31/94] fix: AdaptivePassPreloader.IndexTheHashes ignored a
 failure of its first stage

---
 indexedhashes3/adaptivepasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..2d362e4 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
-- 
2.43.0


From 7baace5da5c0c6472492c78eb60c27b176d48d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 32/94] fix: the bins of an adaptive pass worker that panicked
 were silently left out

---
 indexedhashes3/adaptivepass.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..7b9b64f 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -278,6 +278,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 				defer func() {
 					if r := recover(); r != nil {
 						fmt.Printf("CRITICAL: Worker %d panicked and died! Error: %v\n", workerID, r)
+						panic(r) // Its bins are lost, so the pass must not look successful
 					}
 				}()
 
-- 
2.43.0


From 0011f624b991e03644a2f1bfc1e55200441a4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 33/94] fix: an adaptive pass closed the channel of a worker
 without bins twice

---
 indexedhashes3/adaptivepass.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 7b9b64f..f50168a 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,8 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening to inChans[t], and nothing will be sent to it
 			}
 
 			wg.Add(1)
-- 
2.43.0


From 61493d5646080d8101cfe1f1189c99d5fd05b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 34/94] fix: the bin preloaders leaked the bin starts and
 hashes files

---
 indexedhashes3/adaptivepass.go          |  6 +-----
 indexedhashes3/adaptivepasspreloader.go | 10 ++++++++++
 indexedhashes3/multipasspreloader.go    |  8 ++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index f50168a..1f76231 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -63,6 +63,7 @@ func stageOneCountBinWork(hashesFilepath string, params *HashIndexingParams) ([]
 	if err != nil {
 		return nil, err
 	}
+	defer fil.Close()
 	reader := bufio.NewReaderSize(fil, 64*1024*1024)
 
 	// Read first hash
@@ -93,11 +94,6 @@ func stageOneCountBinWork(hashesFilepath string, params *HashIndexingParams) ([]
 		}
 		hi++
 	}
-	err = fil.Close()
-	if err != nil {
-		return nil, err
-	}
-
 	return result, nil
 }
 
diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 2d362e4..c6df064 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -43,11 +43,17 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
 	if err != nil {
+		ap.binStartsFile.Close()
 		return err
 	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
+	if err != nil {
+		ap.binStartsFile.Close()
+		return err
+	}
+	err = ap.binStartsFile.Close()
 	if err != nil {
 		return err
 	}
@@ -139,22 +145,26 @@ func (ap *AdaptivePassPreloader) createInitialFiles() error {
 	err = ap.binStartsFile.Truncate(binStartsFileSize)
 	if err != nil {
 		fmt.Println("Couldn't make a ", binStartsFileSize/1024/1024, "MB file")
+		ap.binStartsFile.Close()
 		return err
 	}
 
 	bnFilePath := ap.folderPath + sep + "BinNums.int"
 	f, err := os.Create(bnFilePath)
 	if err != nil {
+		ap.binStartsFile.Close()
 		return err
 	}
 	err = f.Close()
 	if err != nil {
+		ap.binStartsFile.Close()
 		return err
 	}
 
 	ofFolderPath := ap.folderPath + sep + "BinOverflows"
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
+		ap.binStartsFile.Close()
 		return err
 	}
 	return nil
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..382206b 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -51,6 +51,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		fmt.Print(sline)
 		err = os.Stdout.Sync()
 		if err != nil {
+			mp.binStartsFile.Close()
 			return err
 		}
 		firstBinNum := pass * binsPerPass
@@ -62,6 +63,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		passDetails := newSinglePassDetails(firstBinNum, binsThisPass, mp.binNumsWordFile, mp.bins)
 		err = passDetails.readIn(mp, threads) // This reuses / resets mp.bins
 		if err != nil {
+			mp.binStartsFile.Close()
 			return err
 		}
 
@@ -72,12 +74,14 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		fmt.Println("Writing files...")
 		err := passDetails.writeFiles(mp)
 		if err != nil {
+			mp.binStartsFile.Close()
 			return err
 		}
 	}
 	fmt.Println()
 	err = mp.binNumsWordFile.Close()
 	if err != nil {
+		mp.binStartsFile.Close()
 		return err
 	}
 	err = mp.binStartsFile.Close()
@@ -167,22 +171,26 @@ func (mp *MultipassPreloader) createInitialFiles() error {
 	err = mp.binStartsFile.Truncate(binStartsFileSize)
 	if err != nil {
 		fmt.Println("Couldn't make a ", binStartsFileSize/1024/1024, "MB file")
+		mp.binStartsFile.Close()
 		return err
 	}
 
 	bnFilePath := mp.folderPath + sep + "BinNums.int"
 	f, err := os.Create(bnFilePath)
 	if err != nil {
+		mp.binStartsFile.Close()
 		return err
 	}
 	err = f.Close()
 	if err != nil {
+		mp.binStartsFile.Close()
 		return err
 	}
 
 	ofFolderPath := mp.folderPath + sep + "BinOverflows"
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
+		mp.binStartsFile.Close()
 		return err
 	}
 	return nil
-- 
2.43.0


From 74ae9dc3995bd88557e474b32cc67bbf440e6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 35/94] fix: TestTheHashes took a read error for the end of the
 hashes file

---
 indexedhashes3/multipasspreloader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 382206b..10a0912 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -3,6 +3,7 @@ package indexedhashes3
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
 
@@ -115,8 +116,14 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 		hashIndex := int64(0)
 		hash := [32]byte{}
 		chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
-		nBytes, _ := hashesFile.Read(chunk)
-		for nBytes > 0 {
+		for {
+			nBytes, err := io.ReadFull(hashesFile, chunk)
+			if err == io.EOF {
+				break
+			}
+			if err != nil && err != io.ErrUnexpectedEOF {
+				return err
+			}
 			if nBytes%32 != 0 {
 				return errors.New("invalid hash file length")
 			}
@@ -129,7 +136,6 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 				}
 				hashIndex++
 			}
-			nBytes, _ = hashesFile.Read(chunk)
 		}
 		return nil
 	}
-- 
2.43.0


From 7136b331c668c92470f764afab093a28991de402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 36/94] fix: TestTheHashes leaked the files of the hash store
 it tested

---
 indexedhashes3/multipasspreloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 10a0912..52e72a4 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -103,8 +103,10 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 		wfc := wordfile.NewConcreteWordFileCreator("BinNums", mp.folderPath, mp.params.bytesRoomForBinNum, false, false)
 		hs, err := newHashStoreObject(mp.params, mp.folderPath, wfc, binStartsFile, false)
 		if err != nil {
+			binStartsFile.Close()
 			return err
 		}
+		defer func() { _ = hs.Close() }()
 
 		hashesFilepath := mp.folderPath + sep + "Hashes.hsh"
 		hashesFile, err := os.Open(hashesFilepath)
-- 
2.43.0


From a33b11f77f7da078ac3b2bda52efa60c157a3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 37/94] fix: a failing read of the hashes left the workers of a
 pass running for ever

---
 indexedhashes3/singlepass.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/indexedhashes3/singlepass.go b/indexedhashes3/singlepass.go
index d95b2d4..5dd863a 100644
--- a/indexedhashes3/singlepass.go
+++ b/indexedhashes3/singlepass.go
@@ -68,6 +68,15 @@ func (spd *singlePassDetails) readIn(mp *MultipassPreloader, threads int) error
 		}(i)
 	}
 
+	stopWorkers := func() {
+		// Close all the channels into the workers
+		for i := range threads {
+			close(workerChans[i])
+		}
+
+		wg.Wait()
+	}
+
 	hi := int64(0)
 	wi := workItem{}
 	for {
@@ -83,6 +92,7 @@ func (spd *singlePassDetails) readIn(mp *MultipassPreloader, threads int) error
 			break
 		}
 		if err != nil {
+			stopWorkers()
 			return err
 		}
 
@@ -94,6 +104,7 @@ func (spd *singlePassDetails) readIn(mp *MultipassPreloader, threads int) error
 			// First pass, store the binNum in a wordfile
 			err = spd.binNumsWordFile.WriteWordAt(int64(bn), hi)
 			if err != nil {
+				stopWorkers()
 				return err
 			}
 		}
@@ -117,12 +128,7 @@ func (spd *singlePassDetails) readIn(mp *MultipassPreloader, threads int) error
 
 		hi++
 	}
-	// Close all the channels into the workers
-	for i := range threads {
-		close(workerChans[i])
-	}
-
-	wg.Wait()
+	stopWorkers()
 
 	return nil
 }
-- 
2.43.0


From 28b1d70f4e5840bb17b5f3232f92ef79eb3e8b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 38/94] fix: a bin search could start past the first entry of
 its sort number and miss the hash

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..b36a660 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -155,6 +155,15 @@ func (b *bin) findIndexBasedOnSortNum(sn sortNum, p *HashIndexingParams) int64 {
 	for endIndex != startIndex {
 		startIndex, endIndex = b.homeInOnSortNum(startIndex, endIndex, sn, p)
 	}
+	// We may have landed in the middle of a run of equal sortNums
+	for startIndex > 0 {
+		entry := b.getEntry(startIndex-1, p)
+		_, snBefore := entry.getHashIndexSortNum(p)
+		if snBefore != sn {
+			break
+		}
+		startIndex--
+	}
 	return startIndex
 }
 
-- 
2.43.0


From abce48ed5ae839d7892d820a14218f78673a2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 39/94] fix: appending a repeated hash to a bin hid its first
 occurrence

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index b36a660..a558fe1 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -69,6 +69,15 @@ func (b *bin) insertBinEntry(sn sortNum, hi hashIndex, th truncatedHash, p *Hash
 
 	newEntry := newBinEntryBytes(th, hi, sn, p)
 	insertionPoint := b.findIndexBasedOnSortNum(sn, p)
+	// Go after any entries with the same sortNum, so that the first occurrence of a repeated hash stays first
+	for insertionPoint < b.length(bytesPerEntry) {
+		entry := b.getEntry(insertionPoint, p)
+		_, snThere := entry.getHashIndexSortNum(p)
+		if snThere != sn {
+			break
+		}
+		insertionPoint++
+	}
 	if insertionPoint > b.length(bytesPerEntry) {
 		panic("insertionPoint too large")
 	}
-- 
2.43.0


From c933e2113d56bc83727b866340f339fa4c791496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 40/94] fix: sortAndDeduplicate dropped a different hash that
 shares its truncated part with its neighbour

---
 indexedhashes3/binbytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index a558fe1..68e819c 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -332,6 +332,7 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// Create a pointer to the first entry's underlying slice window
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
 	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
@@ -339,12 +340,14 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
 
-		if currentTH != lastTH {
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
+		if currentTH != lastTH || currentSN != lastSN {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
 			lastTH = currentTH
+			lastSN = currentSN
 			writeIdx++
 		}
 	}
-- 
2.43.0


From 8d7030957242e1d3decab12ca33e8ee398ff0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 41/94] fix: stream of block hashes invented zero hashes from a
 failed, refused or short headers response

---
 corereader2/blockhashes.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/corereader2/blockhashes.go b/corereader2/blockhashes.go
index d62cda2..fc85376 100644
--- a/corereader2/blockhashes.go
+++ b/corereader2/blockhashes.go
@@ -1,6 +1,7 @@
 package corereader2
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -31,9 +32,7 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 	headersReq := "http://127.0.0.1:8332/rest/headers/1002/000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f.bin"
 
 	for {
-		var resp *http.Response
-		var err error
-		resp, err = TheOneAndOnlyClient.Get(headersReq)
+		resp, err := TheOneAndOnlyClient.Get(headersReq)
 
 		if err != nil {
 			fmt.Println(err.Error())
@@ -43,9 +42,20 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 			close(channel)
 			return err
 		}
-		expectedSize := 80 * 1002
-		bodyOutHeaders := make([]byte, expectedSize)
-		_, err = io.ReadFull(resp.Body, bodyOutHeaders)
+		if resp.StatusCode != http.StatusOK {
+			_ = resp.Body.Close()
+			fmt.Println("StreamBlockHashes(): Response is not 200 OK: " + resp.Status)
+			close(channel)
+			return errors.New("could not get block headers: " + resp.Status)
+		}
+		// This will be fewer than 1002 headers if the blockchain ends first
+		bodyOutHeaders, err := io.ReadAll(resp.Body)
+		if err != nil {
+			_ = resp.Body.Close()
+			fmt.Println(err.Error())
+			close(channel)
+			return err
+		}
 		err = resp.Body.Close()
 		if err != nil {
 			fmt.Println(err.Error())
-- 
2.43.0


From 8e1d876094b9f276e7acb4f671d92250efd0826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 42/94] fix: response body of a failed block request was never
 closed

---
 corereader2/getparseblocksbinary.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index 901ef0a..c59880c 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -95,10 +95,12 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 									fmt.Printf("Error closing response body\n")
 								}
 							} else {
+								_ = resp.Body.Close()
 								fmt.Println(err.Error())
 								fmt.Printf("ReadAll() returned error\n")
 							}
 						} else {
+							_ = resp.Body.Close()
 							fmt.Println(resp.Status)
 							fmt.Printf("Response is not 200 OK\n")
 						}
-- 
2.43.0


From d7c54251fb0903f76bf583e969740345966c807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 43/94] fix: handle lookups by hash reported a failed read as
 hash not found

---
 chainstorage/concretereadablechain.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..3c13ce4 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -269,7 +269,10 @@ func (crc *concreteReadableChain) AddressHandleByHeight(addressHeight int64) (ch
 }
 func (crc *concreteReadableChain) AddressHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IAddressHandle, error) {
 	result := AddressHandle{}
-	index, _ := crc.addrHashes.IndexOfHash(&sha256)
+	index, err := crc.addrHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("address hash not found")
 	}
@@ -285,7 +288,10 @@ func (crc *concreteReadableChain) AddressHandleByString(address string) (chainre
 
 func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.ITransHandle, error) {
 	result := TransHandle{}
-	index, _ := crc.trnHashes.IndexOfHash(&sha256)
+	index, err := crc.trnHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("transaction hash not found")
 	}
@@ -297,7 +303,10 @@ func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.S
 
 func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IBlockHandle, error) {
 	result := BlockHandle{}
-	index, _ := crc.blkHashes.IndexOfHash(&sha256)
+	index, err := crc.blkHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("block hash not found")
 	}
-- 
2.43.0


From b45d05745304e2bab3bada35316ec9996ceda4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 44/94] fix: Address.Hash returned a zero hash when the address
 could not be read

---
 chainstorage/address.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainstorage/address.go b/chainstorage/address.go
index 75d9bcf..307e883 100644
--- a/chainstorage/address.go
+++ b/chainstorage/address.go
@@ -74,7 +74,10 @@ func (adr *Address) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) {
 
 func (adr *Address) Hash() indexedhashes.Sha256 {
 	if !adr.populated {
-		adr.populate()
+		err := adr.populate()
+		if err != nil {
+			panic(err) // Hash() can't return an error
+		}
 	}
 	return adr.handle.hash
 }
-- 
2.43.0


From 921740af3f609e1e6f971ad61c6c418dddd15553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 45/94] fix: Height of a block or transaction handle returned a
 wrong height when the lookup failed

---
 chainstorage/handles.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chainstorage/handles.go b/chainstorage/handles.go
index e1fca35..99af63b 100644
--- a/chainstorage/handles.go
+++ b/chainstorage/handles.go
@@ -29,7 +29,10 @@ func (bh *BlockHandle) Height() int64 {
 		return bh.height
 	} else {
 		// ToDo Height() needs to return error
-		height, _ := bh.data.blkHashes.IndexOfHash(&bh.hash)
+		height, err := bh.data.blkHashes.IndexOfHash(&bh.hash)
+		if err != nil {
+			panic(err)
+		}
 		return height
 	}
 }
@@ -71,7 +74,10 @@ func (th *TransHandle) Height() int64 {
 		return th.height
 	} else {
 		// ToDo Height() needs to return error
-		height, _ := th.data.trnHashes.IndexOfHash(&th.hash)
+		height, err := th.data.trnHashes.IndexOfHash(&th.hash)
+		if err != nil {
+			panic(err)
+		}
 		return height
 	}
 }
-- 
2.43.0


From a0c31d68af9e103639d5aa07a3a91aad416f7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 46/94] fix: AppendHashesChi ignored a failure to store an
 address hash

---
 chainstorage/concretehasheschain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 68485a5..5322d50 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -171,6 +171,9 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 			// and is not generally known to bitcoiners
 			puddingHash3 := indexedhashes.HashOfBytes(chc.za_txoReceiver.ScriptPubBytes)
 			_, err = chc.adrHashList.AppendHash(puddingHash3)
+			if err != nil {
+				return err
+			}
 		} // for txo
 	} // for trans
 
-- 
2.43.0


From b00a9935d0f4dfef511c14a4e8bfec8005308fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 47/94] fix: hashes chain creation ignored failures to close
 the new files

---
 chainstorage/concretehasheschainfactory.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..308aad8 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -64,19 +64,28 @@ func (chcc *ConcreteHashesChainCreator) Create() error {
 	if err != nil {
 		return err
 	}
-	_ = file.Close()
+	err = file.Close()
+	if err != nil {
+		return err
+	}
 
 	file, err = os.Create(path.Join(chcc.transactionsFolder, "Hashes.hsh"))
 	if err != nil {
 		return err
 	}
-	_ = file.Close()
+	err = file.Close()
+	if err != nil {
+		return err
+	}
 
 	file, err = os.Create(path.Join(chcc.addressesFolder, "Hashes.hsh"))
 	if err != nil {
 		return err
 	}
-	_ = file.Close()
+	err = file.Close()
+	if err != nil {
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From bd5a95d6aa3b5195240a379e4761f5bf50c80c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 48/94] fix: appendTransactionFrameChi ignored a failed lookup
 of the transaction hash

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..005e640 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -695,6 +695,9 @@ func (cac *concreteAppendableChain) appendTransactionFrameChi(
 	if !cac.transactionIndexingIsDelegated {
 		// We now assume that all hashes have already been stored and indexed
 		transNum, err := cac.trnHashes.IndexOfHash(&transHash) // ToDo is this legal in the face of duplicate trans hashes?
+		if err != nil {
+			return -1, err
+		}
 		err = cac.parentBlockOfTrans.WriteWordAt(blkNum, transNum)
 		if err != nil {
 			return -1, err
-- 
2.43.0


From b8548590be44e94f2bae5475366984ac1f4cbd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 49/94] fix: a transaction or source transaction missing from
 the hash index was stored as position -1

---
 chainstorage/concreteappendablechain.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index 005e640..a5db905 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -223,6 +223,9 @@ func (cac *concreteAppendableChain) appendTransactionFrame(blockChain chainreadi
 		if err != nil {
 			return -1, err
 		}
+		if transNum == -1 {
+			return -1, errors.New("must be able to find index of transaction hash")
+		}
 		if trans.HeightSpecified() && trans.Height() != transNum {
 			panic("cannot append a transaction out of sequence")
 		}
@@ -420,6 +423,9 @@ func (cac *concreteAppendableChain) appendTxi(txi chainreadinterface.ITxi, trans
 		if err != nil {
 			return -1, err
 		}
+		if sourceTransHeight == -1 {
+			return -1, errors.New("must be able to find index of source transaction hash")
+		}
 	} else {
 		panic("source trans must be specified somehow")
 	}
@@ -698,6 +704,9 @@ func (cac *concreteAppendableChain) appendTransactionFrameChi(
 		if err != nil {
 			return -1, err
 		}
+		if transNum == -1 {
+			return -1, errors.New("must be able to find index of transaction hash")
+		}
 		err = cac.parentBlockOfTrans.WriteWordAt(blkNum, transNum)
 		if err != nil {
 			return -1, err
@@ -826,6 +835,9 @@ func (cac *concreteAppendableChain) appendTxiChi(txi *chainhandleinterface.TxiRe
 	if err != nil {
 		return -1, err
 	}
+	if sourceTransHeight == -1 {
+		return -1, errors.New("must be able to find index of source transaction hash")
+	}
 
 	var txiHeight int64
 	txiHeight, err = cac.txiTx.CountWords()
-- 
2.43.0


From 0417c14520e091eb2949f61dbb2ac671037d8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 50/94] fix: goroutine storing txis was blocked forever when
 storing the txos failed

---
 chainstorage/concreteappendablechain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index a5db905..47afbca 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -284,7 +284,7 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	}
 
 	// Txis can (we hope) be written in parallel to txos. We therefore branch off a goroutine for the txis
-	myChan := make(chan error)
+	myChan := make(chan error, 1) // Buffered, so that the goroutine can always finish
 	go func() {
 		nTxis, err := trans.TxiCount()
 		if err != nil {
@@ -737,7 +737,7 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	}
 
 	// Txis can (we hope) be written in parallel to txos. We therefore branch off a goroutine for the txis
-	myChan := make(chan error)
+	myChan := make(chan error, 1) // Buffered, so that the goroutine can always finish
 	go func() {
 		// We MUST write to the trnFirstTxi file, REGARDLESS of whether there ARE any Txis
 		putativeTxiHeight, err := cac.txiTx.CountWords() // Count all the txis by counting the txiTx field file
-- 
2.43.0


From f3e6be8b58d099d281060e5171354eeed5a4c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 51/94] fix: failures to flush and close a chain were lost, so
 an import with missing data reported success

---
 chainstorage/concreteappendablechain.go    | 41 ++++++++++++----------
 chainstorage/concretehasheschain.go        | 11 +++---
 chainstorage/interfaces.go                 |  4 +--
 jobs/intrinsicparallel.go                  | 26 ++++++--------
 transactionindexing/transactionindexing.go |  2 +-
 5 files changed, 43 insertions(+), 41 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index 47afbca..345efc4 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -985,29 +985,32 @@ func (cac *concreteAppendableChain) appendTxoChi(txo *chainhandleinterface.TxoRe
 	return txoHeight, nil
 }
 
-func (cac *concreteAppendableChain) Close() {
-	cac.blkHashes.Close()
-	cac.trnHashes.Close()
-	cac.addrHashes.Close()
-	cac.blkFirstTrans.Close()
-	cac.trnFirstTxi.Close()
-	cac.trnFirstTxo.Close()
-	cac.txiTx.Close()
-	cac.txiVout.Close()
-	cac.txoSats.Close()
-	cac.txoSpentTxi.Close()
-	cac.txoAddress.Close()
-	cac.addrFirstTxo.Close()
-	cac.addrAdditionalTxos.FlushFile()
-	cac.parentBlockOfTrans.Close()
-	cac.parentTransOfTxi.Close()
-	cac.parentTransOfTxo.Close()
+// Close closes everything, and reports all failures to do so
+func (cac *concreteAppendableChain) Close() error {
+	var errs []error
+	errs = append(errs, cac.blkHashes.Close())
+	errs = append(errs, cac.trnHashes.Close())
+	errs = append(errs, cac.addrHashes.Close())
+	errs = append(errs, cac.blkFirstTrans.Close())
+	errs = append(errs, cac.trnFirstTxi.Close())
+	errs = append(errs, cac.trnFirstTxo.Close())
+	errs = append(errs, cac.txiTx.Close())
+	errs = append(errs, cac.txiVout.Close())
+	errs = append(errs, cac.txoSats.Close())
+	errs = append(errs, cac.txoSpentTxi.Close())
+	errs = append(errs, cac.txoAddress.Close())
+	errs = append(errs, cac.addrFirstTxo.Close())
+	errs = append(errs, cac.addrAdditionalTxos.FlushFile())
+	errs = append(errs, cac.parentBlockOfTrans.Close())
+	errs = append(errs, cac.parentTransOfTxi.Close())
+	errs = append(errs, cac.parentTransOfTxo.Close())
 	for _, v := range cac.blkNonEssentialInts {
-		v.Close()
+		errs = append(errs, v.Close())
 	}
 	for _, v := range cac.trnNonEssentialInts {
-		v.Close()
+		errs = append(errs, v.Close())
 	}
+	return errors.Join(errs...)
 }
 
 func (cac *concreteAppendableChain) GetAsDelegatedTransactionIndexer() transactionindexing.ITransactionIndexer {
diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 5322d50..cf21b2b 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -1,6 +1,7 @@
 package chainstorage
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
@@ -180,10 +181,12 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 	return nil
 }
 
-func (chc *concreteHashesChain) Close() {
-	chc.blkHashList.Close()
-	chc.trnHashList.Close()
-	chc.adrHashList.Close()
+// Close closes everything, and reports all failures to do so
+func (chc *concreteHashesChain) Close() error {
+	return errors.Join(
+		chc.blkHashList.Close(),
+		chc.trnHashList.Close(),
+		chc.adrHashList.Close())
 }
 
 func (chc *concreteHashesChain) Sync() error {
diff --git a/chainstorage/interfaces.go b/chainstorage/interfaces.go
index a3080bd..cc1b67d 100644
--- a/chainstorage/interfaces.go
+++ b/chainstorage/interfaces.go
@@ -11,7 +11,7 @@ import (
 type IAppendableHashesChain interface {
 	AppendHashesCri(chain chainreadinterface.IBlockChain, hBlock chainreadinterface.IBlockHandle, blockHeight int64) error
 	AppendHashesChi(chain chainhandleinterface.IBlockChain, hBlock chainhandleinterface.BlockHandle) error
-	Close()
+	Close() error
 	Sync() error
 	CountHashes() (int64, int64, int64, error)
 }
@@ -19,7 +19,7 @@ type IAppendableHashesChain interface {
 type IAppendableChain interface {
 	AppendBlock(chainreadinterface.IBlockChain, chainreadinterface.IBlockHandle) error
 	AppendBlockChi(chainhandleinterface.IBlockChain, chainhandleinterface.BlockHandle) error
-	Close()
+	Close() error
 	Sync() error
 	GetAsChainReadInterface() chainreadinterface.IBlockChain
 	SelfTestTransHashes() error
diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 85a5c58..ea8a6a5 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -351,8 +351,7 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 		progress.Update(transCount)
 	}
 
-	hc.Close()
-	return nil
+	return hc.Close()
 }
 
 func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, transactions int64, threads int, backslashR string) error {
@@ -436,8 +435,7 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 		progress.Update(transCount)
 	}
 
-	hc.Close()
-	return nil
+	return hc.Close()
 }
 
 func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
@@ -489,7 +487,7 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 	height := int64(0)
 	hBlock, err := aOneBlockHolder.GenesisBlock()
 	if err != nil {
-		ac.Close()
+		_ = ac.Close()
 		return err
 	}
 	fmt.Println()
@@ -497,7 +495,7 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 	for !aOneBlockHolder.IsBlockHandleInvalid(hBlock) {
 		err = aOneBlockHolder.GetBlockInfo(hBlock, blockReceiver)
 		if err != nil {
-			ac.Close()
+			_ = ac.Close()
 			return err
 		}
 
@@ -512,7 +510,7 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 
 		err = ac.AppendBlockChi(aOneBlockHolder, hBlock)
 		if err != nil {
-			ac.Close()
+			_ = ac.Close()
 			return err
 		}
 
@@ -525,14 +523,13 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 
 		hBlock, err = aOneBlockHolder.NextBlock(hBlock)
 		if err != nil {
-			ac.Close()
+			_ = ac.Close()
 			return err
 		}
 		height++
 	}
 	fmt.Println()
-	ac.Close()
-	return nil
+	return ac.Close()
 }
 
 func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
@@ -587,7 +584,7 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 	for !hBlock.IsInvalid() {
 		block, err := aOneBlockHolder.BlockInterface(hBlock)
 		if err != nil {
-			ac.Close()
+			_ = ac.Close()
 			return err
 		}
 
@@ -602,7 +599,7 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 
 		err = ac.AppendBlock(aOneBlockHolder, block)
 		if err != nil {
-			ac.Close()
+			_ = ac.Close()
 			return err
 		}
 
@@ -616,14 +613,13 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 
 		hBlock, err = aOneBlockHolder.NextBlock(hBlock)
 		if err != nil {
-			ac.Close()
+			_ = ac.Close()
 			return err
 		}
 		height++
 	}
 	fmt.Println()
-	ac.Close()
-	return nil
+	return ac.Close()
 }
 
 type Progress struct {
diff --git a/transactionindexing/transactionindexing.go b/transactionindexing/transactionindexing.go
index af479c3..a9ed065 100644
--- a/transactionindexing/transactionindexing.go
+++ b/transactionindexing/transactionindexing.go
@@ -9,5 +9,5 @@ type ITransactionIndexer interface {
 	RetrieveTransHashToHeight(sha256 *indexedhashes.Sha256) (int64, error)
 	RetrieveTransHeightToParentBlock(transHeight int64) (int64, error)
 	RetrieveBlockHeightToFirstTrans(blockHeight int64) (int64, error)
-	Close()
+	Close() error
 }
-- 
2.43.0


From 8ad920d4b7fab783d25ac1d407f10b969873df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 52/94] fix: import ignored a failure to count the transactions
 of a block

---
 jobs/intrinsicparallel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index ea8a6a5..b4bc6a0 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -605,6 +605,10 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 
 		var count int64
 		count, err = block.TransactionCount()
+		if err != nil {
+			_ = ac.Close()
+			return err
+		}
 		transactionsCount += count
 		progress.Update(transactionsCount)
 
-- 
2.43.0


From 8e393e81a56d043abe5333a7611e6507478155d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 53/94] fix: chain was left open when a sync failed during
 import

---
 jobs/intrinsicparallel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index b4bc6a0..1e44623 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -504,6 +504,7 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 		if height%10000 == 0 {
 			err = ac.Sync()
 			if err != nil {
+				_ = ac.Close()
 				return err
 			}
 		}
@@ -593,6 +594,7 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 		if height%10000 == 0 {
 			err := ac.Sync()
 			if err != nil {
+				_ = ac.Close()
 				return err
 			}
 		}
-- 
2.43.0


From 9453e1de12a26e31e7d612ba81d9e7ab4b44eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 54/94] fix: hash lists were left open when gathering hashes
 failed

---
 jobs/intrinsicparallel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 1e44623..c0e880a 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -328,21 +328,25 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 		var blk chainreadinterface.IBlock
 		blk, err = chain.BlockInterface(hBlock)
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 		var transactionsInBlock int64
 		transactionsInBlock, err = blk.TransactionCount()
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 
 		err = hc.AppendHashesCri(chain, hBlock, blockHeight)
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 
 		hBlock, err = chain.NextBlock(hBlock)
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 		blockHeight++
@@ -406,6 +410,7 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 	transCount := int64(0)
 	hBlock, err := chain.GenesisBlock()
 	if err != nil {
+		_ = hc.Close()
 		return err
 	}
 
@@ -416,17 +421,20 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 
 		err = chain.GetBlockInfo(hBlock, blockInfo)
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 		transactionsInBlock := int64(len(blockInfo.TransactionHandles))
 
 		err = hc.AppendHashesChi(chain, hBlock)
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 
 		hBlock, err = chain.NextBlock(hBlock)
 		if err != nil {
+			_ = hc.Close()
 			return err
 		}
 		blockHeight++
-- 
2.43.0


From ec57cc89c04d66b0d3cd4b5c7d35b05a1ef929b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 55/94] fix: parent columns were missing from the readable view
 of an appendable chain

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index 345efc4..e3e4e63 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -65,6 +65,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
-- 
2.43.0


From c3503560454f9acd5f9713f542c63b34498b9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 56/94] fix: an optional column that could not be read was
 treated as absent when opening a chain

---
 .../concreteappendablechainfactory.go         | 12 +++++++++
 chainstorage/concretereadablechain.go         | 25 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..358fbbe 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -479,6 +479,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := blkNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			_ = result.Close()
+			return nil, err
 		}
 	}
 
@@ -490,6 +493,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := trnNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			_ = result.Close()
+			return nil, err
 		}
 	}
 
@@ -700,6 +706,9 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := blkNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			result.closeFiles()
+			return nil, err
 		}
 	}
 
@@ -711,6 +720,9 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := trnNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			result.closeFiles()
+			return nil, err
 		}
 	}
 
diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index 3c13ce4..7c12ece 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -30,6 +30,31 @@ type concreteReadableChain struct {
 	addrAdditionalTxos  intarrayarray.IntArrayMapStoreReadOnly
 }
 
+// closeFiles gives up the files of a chain that could not be fully opened
+func (crc *concreteReadableChain) closeFiles() {
+	_ = crc.blkFirstTrans.Close()
+	_ = crc.blkHashes.Close()
+	_ = crc.trnHashes.Close()
+	_ = crc.addrHashes.Close()
+	_ = crc.trnFirstTxi.Close()
+	_ = crc.trnFirstTxo.Close()
+	_ = crc.txiTx.Close()
+	_ = crc.txiVout.Close()
+	_ = crc.txoSats.Close()
+	_ = crc.txoAddress.Close()
+	_ = crc.txoSpentTxi.Close()
+	_ = crc.addrFirstTxo.Close()
+	_ = crc.parentBlockOfTrans.Close()
+	_ = crc.parentTransOfTxi.Close()
+	_ = crc.parentTransOfTxo.Close()
+	for _, v := range crc.blkNonEssentialInts {
+		_ = v.Close()
+	}
+	for _, v := range crc.trnNonEssentialInts {
+		_ = v.Close()
+	}
+}
+
 // Check that implements
 var _ chainreadinterface.IBlockChain = (*concreteReadableChain)(nil)
 var _ chainreadinterface.IHandleCreator = (*concreteReadableChain)(nil)
-- 
2.43.0


From 9461cb6e05c00462dc55e57bfcdbc183912648df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 57/94] fix: reopening the hash lists overwrote them from the
 start, and a failed open leaked the files already opened

---
 chainstorage/concretehasheschainfactory.go | 33 ++++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index 308aad8..f0f1784 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -98,35 +98,44 @@ func (chcc *ConcreteHashesChainCreator) Open() (IAppendableHashesChain, error) {
 func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, error) {
 	result := concreteHashesChain{}
 
-	file, err := os.OpenFile(path.Join(chcc.blocksFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
+	blkFile, err := openHashList(chcc.blocksFolder)
 	if err != nil {
 		return nil, err
 	}
-	opt, err := memfile.NewAppendOptimizedFile(file)
+	result.blkHashList = *blkFile
+
+	trnFile, err := openHashList(chcc.transactionsFolder)
 	if err != nil {
+		_ = result.blkHashList.Close()
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	result.trnHashList = *trnFile
 
-	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
+	adrFile, err := openHashList(chcc.addressesFolder)
 	if err != nil {
+		_ = result.blkHashList.Close()
+		_ = result.trnHashList.Close()
 		return nil, err
 	}
-	opt, err = memfile.NewAppendOptimizedFile(file)
+	result.adrHashList = *adrFile
+
+	return &result, nil
+}
+
+func openHashList(folder string) (*wordfile.HashFile, error) {
+	file, err := os.OpenFile(path.Join(folder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
-
-	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
+	info, err := file.Stat()
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
-	opt, err = memfile.NewAppendOptimizedFile(file)
+	opt, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
-
-	return &result, nil
+	return wordfile.NewHashFile(opt, info.Size()/32), nil
 }
-- 
2.43.0


From 3d3a241d02109028510330fb53ebfc7aee1b29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 58/94] fix: append optimized file stayed open when its last
 flush failed

---
 memfile/appendoptimized.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index d9243f9..44e7871 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -121,6 +121,7 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 func (a *appendOptimizedFile) Close() error {
 	er := a.flush()
 	if er != nil {
+		_ = a.file.Close()
 		return er
 	}
 	return a.file.Close()
-- 
2.43.0


From 4143632c441e6e604e3824687d3ab9e03139ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 59/94] fix: reading a hash by its number from the top tier
 used the offset with the wrong sign

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..f7ed377 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From f32739b3a8b7230a6c72e7f5c09ede8d07ab12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 60/94] fix: top tier kept a reference to the caller's buffer
 for every appended hash

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index f7ed377..4708c78 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:]) // Our own copy: the caller may re-use hash
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From a561a86f93c1d72d3f16d24a20fa5fa52eb7a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 61/94] fix: lookup of a repeated hash in the top tier returned
 its last occurrence

---
 weddingcakeback/tiertop.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 4708c78..ec4757a 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -120,7 +120,9 @@ func (tt *TierTop) Open(readOnly bool) error {
 		if err != nil {
 			return err
 		}
-		tt.theMap[hash] = i
+		if _, repeated := tt.theMap[hash]; !repeated { // The first occurrence wins
+			tt.theMap[hash] = i
+		}
 		tt.theSlice[i] = hash[:]
 	}
 	return nil
@@ -192,7 +194,9 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	h := [32]byte{}
 	copy(h[:], hash)
 
-	tt.theMap[h] = TierTopIndex(index)
+	if _, repeated := tt.theMap[h]; !repeated { // The first occurrence wins
+		tt.theMap[h] = TierTopIndex(index)
+	}
 	tt.theSlice = append(tt.theSlice, h[:]) // Our own copy: the caller may re-use hash
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
-- 
2.43.0


From ce2ea392695ec694d2048dd07f7724b8ecb2a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 62/94] fix: failure to close the baked hashes file was
 ignored, and the file leaked when the source could not be read

---
 weddingcakeback/tierbelowsource.go | 6 +++---
 weddingcakeback/tiertop.go         | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index e8b2a29..9001a5c 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -120,20 +120,20 @@ func (tb *TierBelow) AppendHashesFile(hashesFile *os.File) error {
 	srcFilename := filepath.Join(tb.TierFolder, "Hashes.hsh")
 	srcFile, err := os.Open(srcFilename)
 	if err != nil {
+		_ = hashesFile.Close()
 		return err
 	}
 	defer func() { _ = srcFile.Close() }()
 
-	defer func() { _ = hashesFile.Close() }()
-
 	// 3. Efficiently stream/copy the data from source to destination
 	// io.Copy uses a small internal buffer, preventing high memory usage for large files
 	_, err = io.Copy(hashesFile, srcFile)
 	if err != nil {
+		_ = hashesFile.Close()
 		return err
 	}
 
-	return nil
+	return hashesFile.Close()
 }
 func (tb *TierBelow) GetFirstPresentationIndex() GlobalPiType {
 	// This is only called when TierBelow is the source tier in the context of baking.
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index ec4757a..e8158c8 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -257,26 +257,27 @@ func (tt *TierTop) AppendHashesFile(hashesFile *os.File) error {
 	if tt.hashesFile != nil {
 		err := tt.hashesFile.Sync()
 		if err != nil {
+			_ = hashesFile.Close()
 			return err
 		}
 	}
 	srcFilename := filepath.Join(tt.folder, "TierTop", "Hashes.hsh")
 	srcFile, err := os.Open(srcFilename)
 	if err != nil {
+		_ = hashesFile.Close()
 		return err
 	}
 	defer func() { _ = srcFile.Close() }()
 
-	defer func() { _ = hashesFile.Close() }()
-
 	// 3. Efficiently stream/copy the data from source to destination
 	// io.Copy uses a small internal buffer, preventing high memory usage for large files
 	_, err = io.Copy(hashesFile, srcFile)
 	if err != nil {
+		_ = hashesFile.Close()
 		return err
 	}
 
-	return nil
+	return hashesFile.Close()
 }
 func (tt *TierTop) GetFirstPresentationIndex() GlobalPiType {
 	return tt.firstGlobalPresentationIndex
-- 
2.43.0


From b1a6f2c3800e9ea858dc83862a1c5a9b73ac6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 63/94] fix: creating the top tier ignored failures to close
 its new files

---
 weddingcakeback/tiertopcreator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tiertopcreator.go b/weddingcakeback/tiertopcreator.go
index a7bcb60..e85d6d6 100644
--- a/weddingcakeback/tiertopcreator.go
+++ b/weddingcakeback/tiertopcreator.go
@@ -41,20 +41,23 @@ func (ttc *TierTopCreator) Create(firstGlobalPresentationIndex GlobalPiType) err
 	if err != nil {
 		return err
 	}
-	defer func() { _ = file.Close() }()
+	err = file.Close()
+	if err != nil {
+		return err
+	}
 	// Also create a file <folder>/Tier0/FirstPresentationIndex.bin containing a uint64 of 0
 	filePath2 := filepath.Join(ttc.folder, "TierTop", "FirstPresentationIndex.bin")
 	file2, err := os.Create(filePath2)
 	if err != nil {
 		return err
 	}
-	defer func() { _ = file2.Close() }()
 	err = binary.Write(file2, binary.LittleEndian, firstGlobalPresentationIndex)
 	if err != nil {
+		_ = file2.Close()
 		return err
 	}
 
-	return nil
+	return file2.Close()
 }
 
 func (ttc *TierTopCreator) Open() (*TierTop, error) {
-- 
2.43.0


From f37cbedcb19c2603d1a74f634ad024c460590a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 64/94] fix: failing to open the layered store left the tiers
 opened so far open

---
 weddingcakeback/tiertop.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index e8158c8..d0021d1 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -57,6 +57,7 @@ func NewTierTop(cakeFolder string, config *CakeConfig, readOnly bool) (*TierTop,
 		if exists {
 			err = nextTier.Open()
 			if err != nil {
+				_ = result.CloseAll()
 				return nil, err
 			}
 			tierSoFar.SetNextTier(nextTier)
@@ -86,6 +87,7 @@ func (tt *TierTop) Open(readOnly bool) error {
 	// Count the hashes
 	stat, err := tt.underlyingFile.Stat()
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	hashesCount := stat.Size() / int64(tt.config.HashLength)
@@ -96,18 +98,21 @@ func (tt *TierTop) Open(readOnly bool) error {
 
 	firstPiFile, err := os.Open(filepath.Join(tt.folder, "TierTop", "FirstPresentationIndex.bin"))
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	defer func() { _ = firstPiFile.Close() }()
 	var firstPi GlobalPiType
 	err = binary.Read(firstPiFile, binary.LittleEndian, &firstPi)
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	tt.firstGlobalPresentationIndex = firstPi
 
 	aoFile, err := memfile.NewAppendOptimizedFile(tt.underlyingFile)
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	tt.hashesFile = wordfile.NewHashFile(aoFile, hashesCount)
@@ -118,6 +123,7 @@ func (tt *TierTop) Open(readOnly bool) error {
 	for i := TierTopIndex(0); i < TierTopIndex(hashesCount); i++ {
 		hash, err := tt.hashesFile.ReadHashAt(int64(i))
 		if err != nil {
+			_ = tt.underlyingFile.Close()
 			return err
 		}
 		if _, repeated := tt.theMap[hash]; !repeated { // The first occurrence wins
-- 
2.43.0


From e0f36c6732391e8cbb908b83a2b26daa4d533e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 65/94] fix: level files from level 10 on were written under a
 name they are not read from

---
 weddingcakeback/donutforestwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..74b0d25 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -324,7 +324,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open for append or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
@@ -435,7 +435,7 @@ func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tier
 			}
 			if dfw.LevelFiles[levelNum] == nil {
 				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 				filePath := filepath.Join(tierFolderPath, filename)
 				var err error
 				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From 13540414ef494b0a6084722b18735129305804cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 66/94] fix: lookup addressed the jump table with the prefix
 bytes in the opposite order to the writer

---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..4dd94b7 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -201,12 +201,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// The first byte of the prefix is the most significant, as each bake subdivides the previous trees in order
+		prefixIndex = prefixIndex<<8 + int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From a4ba3a6d084da397adc56d86374791d1afb47319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 67/94] fix: a level file that could not be opened was treated
 as the end of the tree

---
 weddingcakeback/tierbelow.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 4dd94b7..fd7105b 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -82,6 +82,10 @@ func (tb *TierBelow) Open() error {
 	// First we find all the LevelXX.bin files we can and mmap them into memory
 	err := tb.mmapLevelFiles()
 	if err != nil {
+		// Unmap the mmap'ed level files for a clean failure
+		for _, memoryMap := range tb.LevelXXNodesMemoryMaps {
+			_ = memoryMap.Unmap()
+		}
 		return err
 	}
 
@@ -369,7 +373,9 @@ func (tb *TierBelow) mmapLevelFiles() error {
 
 		// First we try to open the file
 		file, err := os.Open(fullName)
-		if err != nil {
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
+			return err
+		} else if err != nil {
 			// Empty level found
 			if nonEmptyLevelFound {
 				break
-- 
2.43.0


From 3d1ba02f69b80d84fa6d3f2cc0bd73722bad28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 68/94] fix: a tier that could not be opened left its hashes
 file open, and a tier with an empty level could not be closed

---
 weddingcakeback/tierbelow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index fd7105b..8d4c1bf 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -129,6 +129,7 @@ func (tb *TierBelow) Open() error {
 		}
 		// Unmap the mmap'ed jump table for a clean failure
 		_ = tb.JumpTableMemoryMap.Unmap()
+		_ = tb.underlyingFile.Close()
 		return err
 	}
 	hashesCount := stat.Size() / 32 // ToDo support other hash sizes
@@ -141,6 +142,7 @@ func (tb *TierBelow) Open() error {
 		}
 		// Unmap the mmap'ed jump table for a clean failure
 		_ = tb.JumpTableMemoryMap.Unmap()
+		_ = tb.underlyingFile.Close()
 		return err
 	}
 	tb.hashesFile = wordfile.NewHashFile(aoFile, hashesCount)
@@ -160,6 +162,9 @@ func (tb *TierBelow) CloseAll() error {
 func (tb *TierBelow) CloseThis() error {
 	// Unmap the mmap'ed files
 	for _, memoryMap := range tb.LevelXXNodesMemoryMaps {
+		if memoryMap == nil {
+			continue // An empty level
+		}
 		err := memoryMap.Unmap()
 		if err != nil {
 			return err
-- 
2.43.0


From 8d8542485505d2c63fec294b8bf75e8f086cdec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 69/94] fix: DonutForestWrite: close every file on every path,
 and before the source tier is emptied

---
 weddingcakeback/donutforestwrite.go | 98 ++++++++++++++---------------
 1 file changed, 47 insertions(+), 51 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 74b0d25..a9079f1 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -43,6 +43,12 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		// For a clean failure (nil once handed over to AppendHashesFile)
+		if hashesFile != nil {
+			_ = hashesFile.Close()
+		}
+	}()
 
 	// Open or create the jumps file
 	jumpsFilePath := filepath.Join(tierFolderPath, "DonutForestsJumpTables.bin")
@@ -50,6 +56,12 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		// For a clean failure (nil once closed)
+		if jumpsFile != nil {
+			_ = jumpsFile.Close()
+		}
+	}()
 
 	// Open or create the DonutForestsInfo.bin file
 	infoFilePath := filepath.Join(tierFolderPath, "DonutForestsInfo.bin")
@@ -57,6 +69,20 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		// For a clean failure (nil once closed)
+		if infoFile != nil {
+			_ = infoFile.Close()
+		}
+	}()
+	defer func() {
+		// For a clean failure (nil once closed)
+		for _, levelFile := range dfw.LevelFiles {
+			if levelFile != nil {
+				_ = levelFile.Close()
+			}
+		}
+	}()
 
 	dfw.Designer.GatherMetricsFromSourceTier(dfw.SourceTier, dfw.Config)
 	bakingDesign := dfw.Designer.DesignTheDesign(dfw.Config, destTierIndex)
@@ -64,12 +90,6 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// Serialize the indexBytes to each LevelXXNodes.bin file
 	err = dfw.serializeIndexBytes(bakingDesign, tierFolderPath)
 	if err != nil {
-		// Close any level files for a clean failure
-		for _, levelFile := range dfw.LevelFiles {
-			if levelFile != nil {
-				_ = levelFile.Close()
-			}
-		}
 		return err
 	}
 
@@ -119,12 +139,6 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
 			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
 			if err != nil {
-				// Close any level files for a clean failure
-				for _, levelFile := range dfw.LevelFiles {
-					if levelFile != nil {
-						_ = levelFile.Close()
-					}
-				}
 				return err
 			}
 
@@ -134,18 +148,13 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			dfw.Config.TierBelowConfigs[destTierIndex].NodeIdConfig.WriteID(nodeIdBytes, rootNodeId)
 			_, err = jumpsFile.Write(nodeIdBytes)
 			if err != nil {
-				// Close any level files for a clean failure
-				for _, levelFile := range dfw.LevelFiles {
-					if levelFile != nil {
-						_ = levelFile.Close()
-					}
-				}
 				return err
 			}
 		}
 	}
-	for _, file := range dfw.LevelFiles {
+	for i, file := range dfw.LevelFiles {
 		if file != nil {
+			dfw.LevelFiles[i] = nil
 			err := file.Close()
 			if err != nil {
 				return err
@@ -155,11 +164,12 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 
 	// Append the hashes file from the tier above
 	// This call closes hashesFile
-	err = dfw.SourceTier.AppendHashesFile(hashesFile)
+	appendTo := hashesFile
+	hashesFile = nil
+	err = dfw.SourceTier.AppendHashesFile(appendTo)
 	if err != nil {
 		return err
 	}
-	hashesFile = nil
 
 	// Append various info to the DonutForestsInfo.bin file
 	// Field A) (per DonutForest) 8 bytes firstPresentationIndex
@@ -197,6 +207,22 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 		}
 	}
 
+	// Close the remaining files we opened. This comes before the source tier is emptied, so that the content is not
+	// lost if this fails, and before any baking of the new tier below, which may wish to delete this entire folder
+	// (Hashes file is already closed in AppendHashesFile())
+	closing := jumpsFile
+	jumpsFile = nil
+	err = closing.Close()
+	if err != nil {
+		return err
+	}
+	closing = infoFile
+	infoFile = nil
+	err = closing.Close()
+	if err != nil {
+		return err
+	}
+
 	// Empty the source tier ready for new hashes
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
@@ -224,19 +250,6 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	quota := dfw.Config.TierBelowConfigs[destTierIndex].MaxDonutForests
 	used := len(newTierBelow.DonutForestsInfo)
 	if used == int(quota) {
-		// Close all the files we opened, as the next stage below may wish to delete this entire folder
-		// Hashes file is already closed in AppendHashesFile()
-		err = jumpsFile.Close()
-		if err != nil {
-			return err
-		}
-		jumpsFile = nil
-		err = infoFile.Close()
-		if err != nil {
-			return err
-		}
-		infoFile = nil
-
 		nextDfw := NewDonutForestWrite(newTierBelow, dfw.Config)
 		err := nextDfw.Write(cakeFolder)
 		if err != nil {
@@ -244,23 +257,6 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 		}
 	}
 
-	// Close all the files we opened, if not done so already
-	// hashes file is already closed in AppendHashsFile()
-	if jumpsFile != nil {
-		err = jumpsFile.Close()
-		if err != nil {
-			return err
-		}
-		jumpsFile = nil
-	}
-	if infoFile != nil {
-		err = infoFile.Close()
-		if err != nil {
-			return err
-		}
-		infoFile = nil
-	}
-
 	return nil
 }
 
-- 
2.43.0


From e31faf91c723982498ca681b0694d799f2ab4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 70/94] fix: DonutForestWrite: the closed, replaced tier must
 not stay in the chain of tiers

---
 weddingcakeback/donutforestwrite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index a9079f1..b73c039 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -227,7 +227,10 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		// The destination tier is about to be closed and replaced, so it is the tier AFTER it that we preserve
+		if replacedTier := sourceReadable.GetNextTier(); replacedTier != nil {
+			preservedNextTier = replacedTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From 5b0af003196ebc36d438377f11c2e69ac4c05900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 71/94] fix: DonutForestWrite: nodes of a group are contiguous
 across all trees of the DonutForest, as the reader expects

---
 weddingcakeback/donutforestwrite.go | 65 ++++++++++++++++-------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index b73c039..4816333 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,9 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level, for each group, the file offset where the next node of that group goes. The nodes of a group are
+	// contiguous across ALL the trees of the DonutForest (the reader finds a node from its node id on that basis).
+	GroupOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -137,7 +141,7 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			err = dfw.appendToLevelsFiles(levelsNodesBytes)
 			if err != nil {
 				return err
 			}
@@ -326,23 +330,35 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		// The index bytes go after whatever previous DonutForests are in the file
+		offset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+		// The nodes go after the index bytes, group by group
+		offset += int64(len(levelIndexBytes))
+		dfw.GroupOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.GroupOffsets[levelNum][groupIndex] = offset
+			offset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result is, for each level of the tree, a slice of byte slices, one for each group of that level.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -355,10 +371,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each level, for each group, a byte slice
+	levelsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -367,7 +383,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -389,6 +404,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			groupNodesBytes := &levelsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -401,20 +417,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 				switch spec.Format {
 				case NodeFormatLeaf:
 					// fmt.Println("Serializing FormatLeaf node")
-					dfw.serializeLeafNode(node.LeafNode, levelNodesBytes, sourceOffset)
+					dfw.serializeLeafNode(node.LeafNode, groupNodesBytes, sourceOffset)
 				case NodeFormatFull:
 					// fmt.Println("Serializing FormatFull node")
-					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatMedium:
 					// fmt.Println("Serializing FormatMedium node")
-					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatTiny:
 					// fmt.Println("Serializing FormatTiny node")
 					nodeId := currentLevelIdMap[node]
 					if nodeId == 31220 {
 						fmt.Printf("Breakpoint here\n")
 					}
-					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				}
 			}
 		}
@@ -426,26 +442,17 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	return levelsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-				if err != nil {
-					return err
-				}
+func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][][]byte) error {
+	for levelNum, groupsNodesBytes := range levelsNodesBytes {
+		for groupIndex, groupNodesBytes := range groupsNodesBytes {
+			if len(groupNodesBytes) == 0 {
+				continue
 			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
+			_, err := dfw.LevelFiles[levelNum].WriteAt(groupNodesBytes, dfw.GroupOffsets[levelNum][groupIndex])
 			if err != nil {
 				return err
 			}
+			dfw.GroupOffsets[levelNum][groupIndex] += int64(len(groupNodesBytes))
 		}
 	}
 	return nil
-- 
2.43.0


From 32219b27a38f2119570ba66da720bf5bc9d6590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 72/94] fix: GenerateSingleTree: reassurance bytes of a lone
 hash are unexamined bytes, as for any other leaf

---
 weddingcakeback/singletree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..b5a0983 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,10 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The prefix bytes have already been examined (by the jump table), so the reassurance bytes come after those
+		unexaminedBytes := input[0].Hash[PrefixBytesN:]
+		leafNode.ReassuranceHashBytes = make([]byte, min(int(reassuranceBytes), len(unexaminedBytes)))
+		copy(leafNode.ReassuranceHashBytes, unexaminedBytes)
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From 57c49d2a9f17b1a568d59a14f42f0981ccebc05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 73/94] fix: MultipassPreloader.TestTheHashes: report a failed
 close

---
 indexedhashes3/multipasspreloader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 52e72a4..e640d6c 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -93,7 +93,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	return nil
 }
 
-func (mp *MultipassPreloader) TestTheHashes() error {
+func (mp *MultipassPreloader) TestTheHashes() (result error) {
 	{
 		sep := string(os.PathSeparator)
 		binStartsFile, err := os.Open(mp.folderPath + sep + "BinStarts.bes")
@@ -106,7 +106,12 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 			binStartsFile.Close()
 			return err
 		}
-		defer func() { _ = hs.Close() }()
+		defer func() {
+			err := hs.Close()
+			if result == nil {
+				result = err
+			}
+		}()
 
 		hashesFilepath := mp.folderPath + sep + "Hashes.hsh"
 		hashesFile, err := os.Open(hashesFilepath)
-- 
2.43.0


From 746dd9cc12f4d0cc88153bc3010656ef6004034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 74/94] fix: TierZeroCreator.CreateHashStore: report a failed
 close

---
 weddingcake/tierzero.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index e8e9341..08b749a 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -132,8 +132,7 @@ func (tzc *TierZeroCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	defer func() { _ = file.Close() }()
-	return nil
+	return file.Close()
 }
 
 func (tzc *TierZeroCreator) OpenHashStore() (HashReadWriter[*Sha256], error) {
-- 
2.43.0


From 0624a06605c609a72838346818c373bf2ae779f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 75/94] fix: weddingcake mmapLevelFiles: only a missing level
 file means no more levels

---
 weddingcake/chunkfiles.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..a0ecc22 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -188,9 +188,12 @@ func (cfr *ChunkFilesRead) mmapLevelFiles() error {
 
 		// First we try to open the file
 		file, err := os.Open(fullName)
-		if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
 			break
 		} // This file is not found; will try no more
+		if err != nil {
+			return err
+		}
 
 		// If it exists, we will mmap it
 		memoryMap, err := mmap.Map(file, mmap.RDONLY, 0)
-- 
2.43.0


From 1c4501f47d0d74a17bef36e8e28616352981ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 76/94] fix: weddingcake ReadAndMmap: read each chunk of
 ChunksInfo.bin into its own Chunk

---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index a0ecc22..c58e3c6 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From 702480d0f2e7098a2c9e67f1731366f472c6038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 77/94] fix: DonutForestWrite: close every level file even if
 closing one of them fails

---
 weddingcakeback/donutforestwrite.go | 40 +++++++++++++++++------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 4816333..e3c6d0d 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -79,14 +79,6 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			_ = infoFile.Close()
 		}
 	}()
-	defer func() {
-		// For a clean failure (nil once closed)
-		for _, levelFile := range dfw.LevelFiles {
-			if levelFile != nil {
-				_ = levelFile.Close()
-			}
-		}
-	}()
 
 	dfw.Designer.GatherMetricsFromSourceTier(dfw.SourceTier, dfw.Config)
 	bakingDesign := dfw.Designer.DesignTheDesign(dfw.Config, destTierIndex)
@@ -94,6 +86,8 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// Serialize the indexBytes to each LevelXXNodes.bin file
 	err = dfw.serializeIndexBytes(bakingDesign, tierFolderPath)
 	if err != nil {
+		// Close any level files for a clean failure
+		_ = dfw.closeLevelFiles()
 		return err
 	}
 
@@ -143,6 +137,8 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
 			err = dfw.appendToLevelsFiles(levelsNodesBytes)
 			if err != nil {
+				// Close any level files for a clean failure
+				_ = dfw.closeLevelFiles()
 				return err
 			}
 
@@ -152,18 +148,15 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			dfw.Config.TierBelowConfigs[destTierIndex].NodeIdConfig.WriteID(nodeIdBytes, rootNodeId)
 			_, err = jumpsFile.Write(nodeIdBytes)
 			if err != nil {
+				// Close any level files for a clean failure
+				_ = dfw.closeLevelFiles()
 				return err
 			}
 		}
 	}
-	for i, file := range dfw.LevelFiles {
-		if file != nil {
-			dfw.LevelFiles[i] = nil
-			err := file.Close()
-			if err != nil {
-				return err
-			}
-		}
+	err = dfw.closeLevelFiles()
+	if err != nil {
+		return err
 	}
 
 	// Append the hashes file from the tier above
@@ -458,6 +451,21 @@ func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][][]byte) er
 	return nil
 }
 
+// closeLevelFiles closes every open level file, and returns the first failure (if any) to close one
+func (dfw *DonutForestWrite) closeLevelFiles() error {
+	var result error
+	for i, file := range dfw.LevelFiles {
+		if file != nil {
+			dfw.LevelFiles[i] = nil
+			err := file.Close()
+			if err != nil && result == nil {
+				result = err
+			}
+		}
+	}
+	return result
+}
+
 func (dfw *DonutForestWrite) serializeLeafNode(leafNode *SingleTreeLeafNode, bytes *[]byte, sourceOffset GlobalPiType) {
 	// A leaf node is the reassurance bytes followed by the hash index id
 
-- 
2.43.0


From 4e79c24bca9f680e614f76ed058ba2a2edc365cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 78/94] fix: a jump table whose file fails to close is unmapped
 again

---
 weddingcakeback/tierbelow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 8d4c1bf..ddf42cd 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -423,6 +423,7 @@ func (tb *TierBelow) mmapJumpTableFile() error {
 	}
 	err = file.Close()
 	if err != nil {
+		_ = tb.JumpTableMemoryMap.Unmap()
 		return err
 	}
 	return nil
-- 
2.43.0


From e581ad439f9e9d0f3d56667f300616a88f2edc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 79/94] fix: NewTierZero closes its file when it fails

---
 weddingcake/tierzero.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index 08b749a..b38990e 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -35,12 +35,14 @@ func NewTierZero(filepath string, readOnly bool) (*TierZero, error) {
 	// Count the hashes
 	stat, err := file.Stat()
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
 
 	aoFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	result.hashesFile = wordfile.NewHashFile(aoFile, hashesCount)
@@ -51,6 +53,7 @@ func NewTierZero(filepath string, readOnly bool) (*TierZero, error) {
 	for i := int64(0); i < hashesCount; i++ {
 		hash, err := result.hashesFile.ReadHashAt(i)
 		if err != nil {
+			_ = file.Close()
 			return nil, err
 		}
 		result.theMap[hash] = i
-- 
2.43.0


From 00f4a9722333f44699ccea14fc6c4389ad6bd96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 80/94] fix: the preloaders close the bin numbers file when
 indexing fails

---
 indexedhashes3/adaptivepasspreloader.go | 4 ++++
 indexedhashes3/multipasspreloader.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index c6df064..3da44be 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -31,6 +31,7 @@ func NewAdaptivePassPreloader(params *HashIndexingParams, folderPath string,
 func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	err := ap.createInitialFiles()
 	if err != nil {
+		ap.binNumsWordFile.Close()
 		return err
 	}
 
@@ -44,6 +45,7 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
 	if err != nil {
 		ap.binStartsFile.Close()
+		ap.binNumsWordFile.Close()
 		return err
 	}
 
@@ -51,10 +53,12 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
 	if err != nil {
 		ap.binStartsFile.Close()
+		ap.binNumsWordFile.Close()
 		return err
 	}
 	err = ap.binStartsFile.Close()
 	if err != nil {
+		ap.binNumsWordFile.Close()
 		return err
 	}
 	err = ap.binNumsWordFile.Close()
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index e640d6c..af29703 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -37,6 +37,7 @@ func NewMultipassPreloader(params *HashIndexingParams, folderPath string,
 func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	err := mp.createInitialFiles()
 	if err != nil {
+		mp.binNumsWordFile.Close()
 		return err
 	}
 
@@ -53,6 +54,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		err = os.Stdout.Sync()
 		if err != nil {
 			mp.binStartsFile.Close()
+			mp.binNumsWordFile.Close()
 			return err
 		}
 		firstBinNum := pass * binsPerPass
@@ -65,6 +67,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		err = passDetails.readIn(mp, threads) // This reuses / resets mp.bins
 		if err != nil {
 			mp.binStartsFile.Close()
+			mp.binNumsWordFile.Close()
 			return err
 		}
 
@@ -76,6 +79,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		err := passDetails.writeFiles(mp)
 		if err != nil {
 			mp.binStartsFile.Close()
+			mp.binNumsWordFile.Close()
 			return err
 		}
 	}
-- 
2.43.0


From dcc782555d6420128b70bf5d0a5d780311d42951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 81/94] fix: a lookup in a tier of forests checks the whole
 hash before saying found

---
 weddingcakeback/tierbelow.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index ddf42cd..a14a0ed 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -246,9 +247,16 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 				prefixBytesCount)
 
 			if hashIndexId != HashIndexIdNoMatch {
-				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				// Found a potential match. Only some bytes of the hash have been examined, so check against hashes file
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex)
+				candidate := make([]byte, len(hash))
+				inFile, err := tb.TryGetHashAtIndex(globalPi, candidate)
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if inFile && bytes.Equal(candidate, hash) {
+					return globalPi, true, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 84feeb94e83e4a8950675f54108e82a09a238ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 82/94] fix: an address of an unknown hash is an error, not the
 last address

---
 chainstorage/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainstorage/address.go b/chainstorage/address.go
index 307e883..a2ef054 100644
--- a/chainstorage/address.go
+++ b/chainstorage/address.go
@@ -1,6 +1,8 @@
 package chainstorage
 
 import (
+	"errors"
+
 	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
 	"github.com/KitchenMishap/pudding-shed/indexedhashes"
 )
@@ -25,6 +27,9 @@ func (adr *Address) populate() error {
 		if err != nil {
 			return err
 		}
+		if addressHeight == -1 {
+			return errors.New("address hash not found")
+		}
 	}
 	if !adr.handle.hashSpecified {
 		err := adr.data.addrHashes.GetHashAtIndex(addressHeight, &adr.handle.hash)
-- 
2.43.0


From ec22a2c7703ef53f5d56803e83afb21002dd2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 83/94] fix: a block or transaction of an unknown hash is an
 error

---
 chainstorage/concretereadablechain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index 7c12ece..2b93bd1 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -105,6 +105,9 @@ func (crc *concreteReadableChain) BlockInterface(hBlock chainreadinterface.IBloc
 		if err != nil {
 			return &Block{}, err
 		}
+		if blockHeight == -1 {
+			return &Block{}, errors.New("block hash not found")
+		}
 		return &Block{height: blockHeight, data: crc}, nil
 	} else {
 		panic("neither height nor hash was specified in BlockHandle")
@@ -123,6 +126,9 @@ func (crc *concreteReadableChain) TransInterface(hTrans chainreadinterface.ITran
 		if err != nil {
 			return &Transaction{}, err
 		}
+		if transHeight == -1 {
+			return &Transaction{}, errors.New("transaction hash not found")
+		}
 		return &Transaction{height: transHeight, data: crc}, nil
 	} else {
 		panic("neither height nor hash was specified in TransHandle")
-- 
2.43.0


From 4c0872c108cd2fd7040427eb43087dc45461615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 84/94] fix: the next block or transaction of one never found
 is invalid, not the first

---
 chainstorage/concretereadablechain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index 2b93bd1..2c1da6f 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -219,6 +219,9 @@ func (crc *concreteReadableChain) LatestBlock() (chainreadinterface.IBlockHandle
 
 func (crc *concreteReadableChain) NextBlock(hBlock chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
 	givenBlockNum := hBlock.Height()
+	if givenBlockNum == -1 {
+		return crc.InvalidBlock(), nil
+	}
 	nextBlockNum := givenBlockNum + 1
 	blocksInChain, err := crc.blkHashes.CountHashes()
 	if err != nil || nextBlockNum >= blocksInChain {
@@ -247,6 +250,9 @@ func (crc *concreteReadableChain) LatestTransaction() (chainreadinterface.ITrans
 
 func (crc *concreteReadableChain) NextTransaction(hTrans chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
 	givenTransNum := hTrans.Height()
+	if givenTransNum == -1 {
+		return crc.InvalidTrans(), nil
+	}
 	nextTransNum := givenTransNum + 1
 	transInChain, err := crc.trnHashes.CountHashes()
 	if err != nil || nextTransNum >= transInChain {
-- 
2.43.0


From a9e57204fe2d6a5860446b8346adaa4df0b7af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 85/94] fix: the cake gives the number a repeated hash came
 under first, whichever tiers hold it

---
 weddingcakefront/cake.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/weddingcakefront/cake.go b/weddingcakefront/cake.go
index e6a3496..f1024de 100644
--- a/weddingcakefront/cake.go
+++ b/weddingcakefront/cake.go
@@ -25,29 +25,27 @@ func newCake(tierTop *weddingcakeback.TierTop) *Cake {
 }
 
 func (c *Cake) IndexOfHash(hash *Sha256) (int64, error) {
-	found := false
 	reader := c.tierReader
-	var result GlobalPiType
-	var err error
+	result := int64(-1)
 	tierCount := -1 // To represent TierTop
-	for !found && reader != nil {
+	// Every tier is asked: the hashes of a lower tier were presented earlier, and the first occurrence of a hash wins
+	for reader != nil {
 		if tierCount == 1 {
 			fmt.Printf("Breakpoint here: tier %d\n", tierCount)
 		}
-		result, found, err = reader.TryIndexOfHash((*hash)[:])
+		tierResult, found, err := reader.TryIndexOfHash((*hash)[:])
 		if err != nil {
 			return -1, err
 		}
-		if !found {
+		if found {
+			result = int64(tierResult)
+		} else {
 			fmt.Printf("Hash not found in tier %d\n", tierCount)
-			reader = reader.GetNextTier()
 		}
+		reader = reader.GetNextTier()
 		tierCount++
 	}
-	if !found {
-		return -1, nil
-	}
-	return int64(result), nil
+	return result, nil
 }
 
 func (c *Cake) GetHashAtIndex(index int64, hash *Sha256) error {
-- 
2.43.0


From af71e2c7cde0e68cde814555c9cf9597204609e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 86/94] fix: a repeated hash in the newest tier is baked under
 its first number

---
 weddingcakeback/tiertop.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index d0021d1..a4d189a 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -248,14 +248,18 @@ func (tt *TierTop) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []Si
 	if index != 0 {
 		panic("TierZero.GetHashesForIndex() should only be called with index=0")
 	}
-	result := make([]SingleTreeHash, len(tt.theSlice))
+	result := make([]SingleTreeHash, 0, len(tt.theSlice))
 	for i := range tt.theSlice {
+		if tt.theMap[Sha256(tt.theSlice[i])] != TierTopIndex(i) {
+			continue // A repeated hash: only the first occurrence goes into the tree
+		}
 		globalPi := GlobalPiFromTierTopIndex(TierTopIndex(i), offsetToUse)
 		singleTreePi := SingleTreePiFromGlobalPi(globalPi)
-		result[i].PresentationIndex = singleTreePi
-		//result[i].SourceOffset = offsetToUse
-		result[i].Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
-		copy(result[i].Hash, tt.theSlice[i][:])
+		singleTreeHash := SingleTreeHash{PresentationIndex: singleTreePi}
+		//singleTreeHash.SourceOffset = offsetToUse
+		singleTreeHash.Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
+		copy(singleTreeHash.Hash, tt.theSlice[i][:])
+		result = append(result, singleTreeHash)
 	}
 	return result
 }
-- 
2.43.0


From 98bae123fdfe35aca1cfb0f1e304053a3f589104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 87/94] fix: a hash repeated across forests is baked under its
 first number

---
 weddingcakeback/tierbelowsource.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index 9001a5c..9ca9119 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -34,6 +34,8 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 	jumpTableIndex := index
 
 	result := make([]SingleTreeHash, 0, 1000)
+	// The DonutForests are visited oldest first, so the first occurrence of a repeated hash wins
+	alreadySeen := make(map[Sha256]bool, 1000)
 
 	// Work out the size of each jump table
 	nodeIdConfig := &tb.ThisTierConfig.NodeIdConfig
@@ -72,6 +74,10 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 					if err != nil {
 						panic(err)
 					}
+					if alreadySeen[hash] {
+						return
+					}
+					alreadySeen[hash] = true
 
 					// singleTreeOffset is used to convert globalPi to singleTreePi.
 					// It needs to be the same in all cases for this bake, as these pairs will be sent to construct a SingleTree.
-- 
2.43.0


From 89a6151c28db3d230ea6fdc4c824575b6169f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 88/94] fix: tier zero keeps the first number of a repeated
 hash

---
 weddingcake/tierzero.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index b38990e..d418821 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -56,7 +56,9 @@ func NewTierZero(filepath string, readOnly bool) (*TierZero, error) {
 			_ = file.Close()
 			return nil, err
 		}
-		result.theMap[hash] = i
+		if _, repeated := result.theMap[hash]; !repeated { // The first occurrence wins
+			result.theMap[hash] = i
+		}
 		result.theSlice[i] = hash
 	}
 	return &result, nil
@@ -91,7 +93,9 @@ func (tz *TierZero) AppendHash(hash *Sha256) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
-	tz.theMap[*hash] = index
+	if _, repeated := tz.theMap[*hash]; !repeated { // The first occurrence wins
+		tz.theMap[*hash] = index
+	}
 	tz.theSlice = append(tz.theSlice, *hash)
 	return tz.hashesFile.AppendHash(*hash)
 }
-- 
2.43.0


From de6192d6ff1972f83660f9749b2b3c8f231344a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:47 +0000
Subject: [PATCH 89/94] fix: open a uniform hash store for reading without
 opening its files for writing

---
 indexedhashes/uniform.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 58444e4..34d4d34 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -131,6 +131,10 @@ func (uc *UniformHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
 }
 
 func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, error) {
+	return uc.openHashStoreWithFlag(os.O_RDWR)
+}
+
+func (uc *UniformHashStoreCreator) openHashStoreWithFlag(flag int) (*UniformHashStore, error) {
 	if !uc.HashStoreExists() {
 		return nil, errors.New("Hash store (folder) does not exist")
 	}
@@ -139,7 +143,7 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 	store.hashDivider = uc.params.HashDivider
 	store.numberedFolders = numberedfolders.NewNumberedFolders(0, uc.params.DigitsPerFolder)
 
-	file, err := os.OpenFile(uc.hashFilePath(), os.O_RDWR, 0755)
+	file, err := os.OpenFile(uc.hashFilePath(), flag, 0755)
 	if err != nil {
 		return nil, err
 	}
@@ -149,13 +153,16 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 		return nil, err
 	}
 	size := stat.Size()
-	underlying, err := memfile.NewAppendOptimizedFile(file)
-	if err != nil {
-		file.Close()
-		return nil, err
+	var underlying memfile.AppendableLookupFile = file
+	if flag != os.O_RDONLY {
+		underlying, err = memfile.NewAppendOptimizedFile(file)
+		if err != nil {
+			file.Close()
+			return nil, err
+		}
 	}
 	store.hashFile = wordfile.NewHashFile(underlying, size/32)
-	file, err = os.OpenFile(uc.binStartsFilePath(), os.O_RDWR, 0755)
+	file, err = os.OpenFile(uc.binStartsFilePath(), flag, 0755)
 	if err != nil {
 		store.hashFile.Close()
 		return nil, err
@@ -165,8 +172,7 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 }
 
 func (uc *UniformHashStoreCreator) OpenHashStoreReadOnly() (HashReader, error) {
-	store, err := uc.OpenHashStore()
-	return store, err
+	return uc.openHashStoreWithFlag(os.O_RDONLY)
 }
 
 type UniformHashStore struct {
-- 
2.43.0


From 82e3b963c27a59df276cf00836220de2d53a5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 90/94] fix: a block or transaction handle found by hash knows
 its chain, so it can give its hash

---
 chainstorage/concretereadablechain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index 2c1da6f..533ff6a 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -335,6 +335,7 @@ func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.S
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
@@ -350,6 +351,7 @@ func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256)
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
-- 
2.43.0


From 2fbc104ad9776908b1fbde65ecb37d9f4c7ea1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 91/94] fix: the transactions of a block are stored only if
 they follow one another at the heights the source gives

---
 chainstorage/concreteappendablechain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e3e4e63..19b6bf2 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -160,7 +160,7 @@ func (cac *concreteAppendableChain) AppendBlock(blockChain chainreadinterface.IB
 			// in blocks 91812 and 91842 mean we can't look up by hash!
 			firstTransOfBlock = transNum
 		}
-		if hTrans.HeightSpecified() && hTrans.Height() != transNum {
+		if transNum != firstTransOfBlock+t || hTrans.HeightSpecified() && hTrans.Height() != transNum {
 			panic("cannot append a transaction out of sequence")
 		}
 		if t == 0 && !cac.transactionIndexingIsDelegated {
@@ -668,6 +668,9 @@ func (cac *concreteAppendableChain) AppendBlockChi(blockChain chainhandleinterfa
 				}
 			}
 		}
+		if transNum != firstTransOfBlock+int64(t) {
+			panic("cannot append a transaction out of sequence")
+		}
 	}
 
 	// Then the "contents" of the transactions
-- 
2.43.0


From c0913ee75e4b7c4db9bed0e5573905d767f4cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 92/94] fix: the memory blocker's statistics are read under its
 lock: IsThereFreeMemory and LastHeapSize raced with the waiters

---
 memblocker/memblocker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index a4b997a..1044e05 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -20,6 +20,8 @@ type MemBlocker struct {
 }
 
 func (mb *MemBlocker) IsThereFreeMemory() bool {
+	mb.someBytesFreedCond.L.Lock()
+	defer mb.someBytesFreedCond.L.Unlock()
 	allocatedBytes := mb.countAllocatedMemory()
 	return allocatedBytes < mb.maxBytes
 }
@@ -56,5 +58,7 @@ func (mb *MemBlocker) countAllocatedMemory() uint64 {
 }
 
 func (mb *MemBlocker) LastHeapSize() uint64 {
+	mb.someBytesFreedCond.L.Lock()
+	defer mb.someBytesFreedCond.L.Unlock()
 	return mb.lastHeapSize
 }
-- 
2.43.0


From 2c780a1f11fe28b43db225bc338a64e5e8693ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 93/94] fix: freed memory wakes every waiter of the memory
 blocker, not one of them

---
 memblocker/memblocker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index 1044e05..51191d7 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -45,7 +45,7 @@ func (mb *MemBlocker) StartFreeingMem() {
 }
 func (mb *MemBlocker) MemoryWasFreed() {
 	mb.someBytesFreedCond.L.Unlock()
-	mb.someBytesFreedCond.Signal()
+	mb.someBytesFreedCond.Broadcast()
 }
 
 // countAllocatedMemory returns the current process heap allocation.
-- 
2.43.0


From 2e364ec7226bb1f857ee58068f5aef58d5a65d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:24 +0000
Subject: [PATCH 94/94] fix: a hash appended to a uniform hash store is put
 into its bin, so that it is found again

---
 indexedhashes/uniform.go | 73 ++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 34d4d34..978df54 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -186,10 +186,10 @@ type UniformHashStore struct {
 func (us *UniformHashStore) folderPathFilePathFromFoldersFilename(folders string, filename string) (string, string) {
 	sep := string(os.PathSeparator)
 	if folders == "" {
-		return us.folderPath,
+		return us.folderPath + sep + "BinOverflows",
 			us.folderPath + sep + "BinOverflows" + sep + filename + ".ovf"
 	} else {
-		return us.folderPath + sep + folders,
+		return us.folderPath + sep + "BinOverflows" + sep + folders,
 			us.folderPath + sep + "BinOverflows" + sep + folders + sep + filename + ".ovf"
 	}
 }
@@ -206,43 +206,70 @@ func (us *UniformHashStore) folderPathFilePathForAddress(address uint64) (string
 }
 
 func (us *UniformHashStore) AppendHash(hash *Sha256) (int64, error) {
+	firstIndex, err := us.IndexOfHash(hash)
+	if err != nil {
+		return -1, err
+	}
 	newIndex := us.hashFile.CountHashes()
-	err := us.hashFile.WriteHashAt(*hash, newIndex)
+	err = us.hashFile.WriteHashAt(*hash, newIndex)
 	if err != nil {
 		return -1, err
 	}
-
-	// Appending index followed by hash
-	toAppend := [40]byte{}
-	binary.LittleEndian.PutUint64(toAppend[0:8], uint64(newIndex))
-	copy(toAppend[8:40], hash[0:32])
+	if firstIndex != -1 {
+		return newIndex, nil // Ignore all but first occurrence of a hash
+	}
 
 	address := us.addressForHash(hash)
-	folderPath, filePath := us.folderPathFilePathForAddress(address)
-	err = os.MkdirAll(folderPath, 0755)
+	offset := int64(address * binStartSize)
+	byts := [binStartSize]byte{}
+	_, err = us.binStartsFile.ReadAt(byts[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	file, err := os.OpenFile(filePath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0755)
+	bin := binStart{}
+	bin.FromBytes(&byts)
+	if bin.entryCount < 102 {
+		bin.indexHashes[bin.entryCount].index = newIndex
+	} else {
+		err = us.writeOverflow(address, bin.entryCount-102, newIndex)
+		if err != nil {
+			return -1, err
+		}
+	}
+	bin.entryCount++
+	bin.ToBytes(&byts)
+	_, err = us.binStartsFile.WriteAt(byts[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	_, err = file.Write(toAppend[:])
+
+	return newIndex, nil
+}
+
+// writeOverflow writes an index as an entry of the overflow file of an address
+func (us *UniformHashStore) writeOverflow(address uint64, entry int64, index int64) error {
+	folderPath, filePath := us.folderPathFilePathForAddress(address)
+	err := os.MkdirAll(folderPath, 0755)
 	if err != nil {
-		file.Close()
-		return -1, err
+		return err
 	}
-	err = file.Sync()
+	file, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0755)
+	if err != nil {
+		return err
+	}
+	byts := [8]byte{}
+	binary.LittleEndian.PutUint64(byts[:], uint64(index))
+	_, err = file.WriteAt(byts[:], entry*8)
 	if err != nil {
 		file.Close()
-		return -1, err
+		return err
 	}
-	err = file.Close()
+	err = file.Sync()
 	if err != nil {
-		return -1, err
+		file.Close()
+		return err
 	}
-
-	return newIndex, nil
+	return file.Close()
 }
 
 func (us *UniformHashStore) IndexOfHash(hash *Sha256) (int64, error) {
@@ -322,7 +349,11 @@ func (us *UniformHashStore) Close() error {
 }
 
 func (us *UniformHashStore) Sync() error {
-	return us.hashFile.Sync()
+	err := us.hashFile.Sync()
+	if err != nil {
+		return err
+	}
+	return us.binStartsFile.Sync()
 }
 
 func (us *UniformHashStore) Test() (bool, error) {
-- 
2.43.0

