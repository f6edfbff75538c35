From 08f47e40cdd8434f010cbcf5cf9c345cc8500968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 01/25] fix: storage: Find of a set longer than any indexed one
 reports not found instead of panicking

---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..e61eade 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such length indexed yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..eb3bfc3 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such length indexed yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From e9b700804efef10577f5063659d5bce1d602bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 02/25] fix: storage: refuse to write sets longer than their
 length prefix can hold

---
 pkg/storage/set16.go | 5 +++++
 pkg/storage/set8.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..6671d02 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d elements exceeds limit %d", ErrSet16, len(set16), math.MaxUint16)
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..5d2e8f8 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d elements exceeds limit %d", ErrSet8, len(set8), math.MaxUint8)
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From 786229c53899c6bb823c330b81a728980bedd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 03/25] fix: do not take short reads and truncated data for
 complete values

---
 internal/index/idx.go |  3 +++
 pkg/common/reader.go  | 21 +++++++++++++++++++++
 pkg/dag/name.go       |  6 +++++-
 pkg/storage/set16.go  |  4 +++-
 pkg/storage/set8.go   |  4 +++-
 5 files changed, 35 insertions(+), 3 deletions(-)
 create mode 100644 pkg/common/reader.go

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..9efda4d 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -8,6 +8,7 @@ import (
 	"github.com/amarin/binutils"
 	"github.com/amarin/logging"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -221,6 +222,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // do not accept short reads
+
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
diff --git a/pkg/common/reader.go b/pkg/common/reader.go
new file mode 100644
index 0000000..550008c
--- /dev/null
+++ b/pkg/common/reader.go
@@ -0,0 +1,21 @@
+package common
+
+import (
+	"io"
+)
+
+// fullReader implements io.Reader filling the whole buffer or failing.
+type fullReader struct {
+	source io.Reader
+}
+
+// FullReader wraps io.Reader to make every Read either fill the whole buffer or return an error.
+// Takes care of readers returning fewer bytes than required as well as of truncated data.
+func FullReader(source io.Reader) io.Reader {
+	return fullReader{source: source}
+}
+
+// Read reads exactly len(p) bytes or returns an error. Implements io.Reader.
+func (r fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.source, p)
+}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..33d1421 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -7,6 +7,8 @@ import (
 	"fmt"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const (
@@ -29,7 +31,9 @@ type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagNameBytes []byte
-	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
+
+	fullReader := binutils.NewBinaryReader(common.FullReader(reader))
+	if tagNameBytes, err = fullReader.ReadBytesCount(tagNameLen); err != nil {
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
 
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 6671d02..ad90a33 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -91,7 +93,7 @@ func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint16(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 5d2e8f8..94ac9e2 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -91,7 +93,7 @@ func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
-- 
2.43.0


From a96297504769a8f7446d40b554eecf0a3021e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 04/25] fix: storage: tables keep their own copy of an indexed
 set

---
 pkg/storage/table16.go | 3 ++-
 pkg/storage/table8.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..7ee2595 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -27,7 +27,8 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		panic("empty set")
 	}
 
-	item.Sort() // sort item before find or adding to index.
+	item = append(Set16{}, item...) // keep own copy, caller is free to reuse its slice.
+	item.Sort()                     // sort item before find or adding to index.
 
 	if id, found = table16.Find(item); found {
 		return id
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..aa2bca9 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -26,7 +26,8 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		panic("empty set")
 	}
 
-	item.Sort() // sort item before find or adding to index.
+	item = append(Set8{}, item...) // keep own copy, caller is free to reuse its slice.
+	item.Sort()                    // sort item before find or adding to index.
 
 	if id, found = table8.Find(item); found {
 		return id
-- 
2.43.0


From 7041e1e10dae31852e98ae9a2190855acd55b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 05/25] fix: storage: refuse to index into a full table instead
 of returning ID of another set

---
 pkg/storage/table16.go | 10 +++++++++-
 pkg/storage/table8.go  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index 7ee2595..e48e079 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -19,7 +23,7 @@ func (table16 Table16) Find(item Set16) (ID16, bool) {
 
 // Index returns 0-based ids.ID16 index of ids.Set16 in Table16 instance.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or there is no free ID to assign.
 func (table16 *Table16) Index(item Set16) (id ID16) {
 	var found bool
 
@@ -34,6 +38,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table is full") // no free ID to assign, never return ID of another set.
+	}
+
 	id = ID16(len(*table16))
 
 	*table16 = append(*table16, item)
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index aa2bca9..31ba6cc 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -18,7 +22,7 @@ func (table8 Table8) Find(item Set8) (ID8, bool) {
 
 // Index returns 0-based ids.ID8 index of ids.Set8 in Table8.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or there is no free ID to assign.
 func (table8 *Table8) Index(item Set8) (id ID8) {
 	var found bool
 
@@ -33,6 +37,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table is full") // no free ID to assign, never return ID of another set.
+	}
+
 	id = ID8(len(*table8))
 
 	*table8 = append(*table8, item)
-- 
2.43.0


From 49839aeada9dd2ad0bd9b3c6c4130dbe08006ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 06/25] fix: dag: refuse to index more tags than there are tag
 IDs instead of giving IDs of other tags

---
 pkg/dag/idx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..3fe5ad1 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -97,6 +98,7 @@ func (tagsIndex Idx) Find(name TagName) (id TagID, found bool) {
 
 // Index returns indexed ID.
 // Adds indexed to index if not indexed before.
+// Panics if there is no more TagID's left for a new one.
 func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 	var found bool
 
@@ -108,6 +110,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic("tags index is full")
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
-- 
2.43.0


From b1d1294f41793ad9a5486b99f991865aa3e20add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 07/25] fix: dag: refuse to write more tags than the length
 byte can hold

---
 pkg/dag/idx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index 3fe5ad1..6ecbe36 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -66,6 +66,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: too many tags for length byte: %d", common.ErrMarshal, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
-- 
2.43.0


From 56dabc306e1149356b985fa5371e5d4385316c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 08/25] fix: index: loading forgets earlier content and does
 not make root its own child

---
 internal/index/idx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 9efda4d..f040de8 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -204,9 +204,15 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
+	index.childrenMap = make(map[dag.ID]dag.IdMap) // forget everything known before reading
+	index.wordsCount = 0
+
 	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
+		if nodeID == 0 {
+			continue // root is nobody's child
+		}
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
-- 
2.43.0


From f024c15cf07872a5c382ef7eae869908da94b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 09/25] fix: index: refuse to write what does not fit its
 length prefix

---
 internal/index/constants.go    | 10 ++++++++++
 internal/index/tagset_def.go   |  4 ++++
 internal/index/tagset_table.go |  4 ++++
 internal/index/variant_def.go  |  4 ++++
 internal/index/variant_idx.go  |  4 ++++
 5 files changed, 26 insertions(+)

diff --git a/internal/index/constants.go b/internal/index/constants.go
index 343874f..3aed161 100644
--- a/internal/index/constants.go
+++ b/internal/index/constants.go
@@ -2,6 +2,16 @@ package index
 
 import (
 	"fmt"
+	"math"
+)
+
+// ErrTooLong indicates error when length of data being written does not fit its length prefix.
+var ErrTooLong = fmt.Errorf("%w: too long", Error)
+
+// Maximum lengths which length prefixes can represent.
+const (
+	maxLen8  = math.MaxUint8
+	maxLen16 = math.MaxUint16
 )
 
 // ErrNilWriter indicates error when nil writer specified to BinaryWriteTo.
diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..4b584ba 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -56,6 +56,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > maxLen8 {
+		return fmt.Errorf("%w: tagset: %d tags", ErrTooLong, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..0b16138 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -57,6 +57,10 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+	if tagSetTable.Len() > maxLen16 {
+		return fmt.Errorf("%w: tagset table: %d tagsets", ErrTooLong, tagSetTable.Len())
+	}
+
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..3ba1e92 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -27,6 +27,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > maxLen8 {
+		return fmt.Errorf("%w: collection: %d tagsets", ErrTooLong, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..152ed6a 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -14,6 +14,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > maxLen8 {
+		return fmt.Errorf("%w: variants index: %d tables", ErrTooLong, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
-- 
2.43.0


From d65437b589abb504f65a71b6f82dd622c92bcf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 10/25] fix: index: refuse tag sets which are empty, too long
 or too many; nodes without item do not crash

---
 internal/index/node.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..fce860e 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -2,6 +2,8 @@ package index
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/amarin/gomorphy/pkg/dag"
 )
@@ -30,7 +32,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	if item = node.index.getItem(node.id); item == nil {
+		return make([]dag.TagSet, 0) // root and unknown nodes have no tags
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -51,6 +56,20 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
+	}
+
+	if len(newTagSet) == 0 {
+		return fmt.Errorf("%w: add tag set: no tags", Error)
+	}
+
+	if len(newTagSet) > maxLen8 {
+		return fmt.Errorf("%w: add tag set: %d tags", ErrTooLong, len(newTagSet))
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
@@ -59,8 +78,16 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 		}
 	}
 
-	item := node.index.getItem(node.id)
-	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
+	tagSet.Sort()
+
+	collection := node.index.collectionIdx.Get(item.Variants)
+	if collection.Len() >= maxLen8 {
+		if tagSetID, known := node.index.tagSets.Find(tagSet); !known || !collection.Has(tagSetID) {
+			return fmt.Errorf("%w: add tag set: already %d tag sets", ErrTooLong, collection.Len())
+		}
+	}
+
+	collection = collection.Add(node.index.tagSets.Index(tagSet))
 	if item.Variants == 0 {
 		node.index.wordsCount++
 	}
@@ -91,9 +118,14 @@ func (node *Node) Word() string {
 // String returns string representation of node. Implements fmt.Stringer.
 func (node *Node) String() string {
 	item := node.index.getItem(node.id)
-	w := node.Word()
+	if item == nil {
+		return "Node(" + strconv.Itoa(int(node.id)) + ")"
+	}
+
+	letter := string(item.Letter)
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	return "Node(" + strings.TrimSuffix(node.Word(), letter) + "[" + letter + "]" +
+		strings.TrimPrefix(item.String(), letter) + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From 204fdc6c8ed18ffe058aa94f9a002ffacceeec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 11/25] fix: index: tables keep their own copy of indexed data
 and refuse data having no free ID

---
 internal/index/tagset_table.go  | 7 ++++++-
 internal/index/variant_idx.go   | 3 ---
 internal/index/variant_table.go | 7 ++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 0b16138..bcb6c87 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -97,12 +97,17 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		panic("empty set")
 	}
 
-	item.Sort() // sort item before find or adding to index.
+	item = append(make(TagSet, 0, len(item)), item...) // never change or keep callers data
+	item.Sort()                                        // sort item before find or adding to index.
 
 	if storageIdx, found = tagSetTable.Find(item); found {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > maxLen16 { // all possible TagSetSubID values are taken
+		panic("table is full")
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
 	*tagSetTable = append(*tagSetTable, item)
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 152ed6a..8f8a939 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,7 +2,6 @@ package index
 
 import (
 	"fmt"
-	"sort"
 
 	"github.com/amarin/binutils"
 )
@@ -79,8 +78,6 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 		return 0
 	}
 
-	sort.Sort(item)
-
 	tableNumber := CollectionTableNumber(len(item) - 1)
 	if int(tableNumber) >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..97296f8 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -69,12 +69,17 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return 0 // zero index means no data
 	}
 
-	sort.Sort(item) // sort item before find or adding to index to compare and search easy.
+	item = append(make(TagSetIDCollection, 0, len(item)), item...) // never change or keep callers data
+	sort.Sort(item)                                                // sort item before find or adding to index to compare and search easy.
 
 	if storageIdx, found = variantsTable.Find(item); found {
 		return storageIdx
 	}
 
+	if len(*variantsTable) > maxLen16 { // all possible VariantSubID values are taken
+		panic("table is full")
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
 	*variantsTable = append(*variantsTable, item)
-- 
2.43.0


From 86804ebc7dfc4466fad0f481f721c474135558b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 12/25] fix: index: unknown variants are reported instead of
 crashing

---
 internal/index/idx.go           | 9 +++++++--
 internal/index/variant_idx.go   | 8 +++++++-
 internal/index/variant_table.go | 5 +++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index f040de8..7843fcf 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -582,7 +582,12 @@ func (index *Index) Optimize() {
 	logger.Infof("has %d possible tag sets", len(knownTagSets))
 }
 
-// Variants returns TagSet collection
+// Variants returns TagSet collection or error if no such collection known.
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	tagSetCollection = index.collectionIdx.Get(id)
+	if id != 0 && len(tagSetCollection) == 0 {
+		return tagSetCollection, fmt.Errorf("%w: no such variants: %d", Error, id)
+	}
+
+	return tagSetCollection, nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 8f8a939..0a5b4da 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -93,6 +93,7 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 }
 
 // Get returns set by index.
+// If no such set found returns empty TagSetIDCollection.
 func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 	if storageIdx == 0 {
 		return make(TagSetIDCollection, 0)
@@ -103,11 +104,16 @@ func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 		return make(TagSetIDCollection, 0)
 	}
 
-	return tagSetIndex[tableNumber.Add(-1)].Get(storageIdx.CollectionTableID())
+	return tagSetIndex.Table(tableNumber).Get(storageIdx.CollectionTableID())
 }
 
 // Table returns internal CollectionTable by its index.
+// If no such table found returns empty table.
 func (tagSetIndex VariantsIndex) Table(tableID CollectionTableNumber) VariantsTable {
+	if tableID < 1 || int(tableID) > len(tagSetIndex) {
+		return make(VariantsTable, 0)
+	}
+
 	return tagSetIndex[tableID.Add(-1)]
 }
 
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 97296f8..d3d7797 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -88,7 +88,12 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 }
 
 // Get returns TagSetIDCollection by its VariantSubID.
+// If no such variants set found returns empty TagSetIDCollection.
 func (variantsTable VariantsTable) Get(storageIdx VariantSubID) TagSetIDCollection {
+	if int(storageIdx) >= len(variantsTable) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return variantsTable[storageIdx]
 }
 
-- 
2.43.0


From af2e3c7aaad7efd25d8cd47fd1326f4bc5f00669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 13/25] fix: index: TagSetIndex.TableIDs lists IDs which can be
 looked up

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..ec78978 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -128,7 +128,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From d9aa1f0573f44159c42ee6e66a04825e8cbb6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 14/25] fix: index: lookups do not modify index

---
 internal/index/idx.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 7843fcf..f329332 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -207,14 +207,14 @@ func (index *Index) rebuildChildrenIndex() {
 	index.childrenMap = make(map[dag.ID]dag.IdMap) // forget everything known before reading
 	index.wordsCount = 0
 
-	index.GetChildrenIDMap(0)
+	index.makeChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
 		if nodeID == 0 {
 			continue // root is nobody's child
 		}
-		index.GetChildrenIDMap(item.Parent)
-		index.GetChildrenIDMap(nodeID)
+		index.makeChildrenIDMap(item.Parent)
+		index.makeChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
 		if item.Variants != 0 {
 			index.wordsCount++
@@ -319,14 +319,27 @@ func (index *Index) rootNode(letter rune) (root dag.Node) {
 // 	return index.GetItem(newItem.ID), nil
 // }
 
-// GetChildrenIDMap generates children nodes for Node specified by its ID.
+// GetChildrenIDMap returns children node IDs for Node specified by its ID.
 func (index *Index) GetChildrenIDMap(id dag.ID) (res dag.IdMap) {
 	var ok bool
 
 	if res, ok = index.childrenMap[id]; !ok {
-		index.childrenMap[id] = make(dag.IdMap)
+		return make(dag.IdMap)
 	}
-	return index.childrenMap[id]
+
+	return res
+}
+
+// makeChildrenIDMap returns children node IDs map for Node specified by its ID. Adds empty map if there were none.
+func (index *Index) makeChildrenIDMap(id dag.ID) (res dag.IdMap) {
+	var ok bool
+
+	if res, ok = index.childrenMap[id]; !ok {
+		res = make(dag.IdMap)
+		index.childrenMap[id] = res
+	}
+
+	return res
 }
 
 func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, error) {
@@ -344,7 +357,7 @@ func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, e
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.childrenMap[currentParentID] // lookup never changes index
 		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
 			node = index.GetItem(currentParentID)
 			if node == nil {
@@ -377,7 +390,7 @@ func (index *Index) FetchFromItem(parentID dag.ID, runes []rune) (dag.Node, erro
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.childrenMap[currentParentID] // lookup never changes index
 		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
 			node := index.GetItem(currentParentID)
 			if node == nil {
@@ -416,7 +429,7 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 		}
 
 		rootLetter := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.makeChildrenIDMap(currentParentID)
 		if nextItemID, ok = childrenIDMap[rootLetter]; !ok {
 			newRootItem := index.items.NewChild(currentParentID, rootLetter)
 			nextItemID = newRootItem.ID
-- 
2.43.0


From 8161bacf072e5b67a3d7ed75f068b07730c6e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 15/25] fix: index: allocation of a node is not lost when
 storage is extended concurrently

---
 internal/index/items.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..9c2bb58 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -72,7 +72,8 @@ func (items *Items) Extend(count int) {
 }
 
 func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
-	items.mu.Lock() // lock items to ensure nextID will not be taken by another goroutine
+	items.mu.Lock() // lock items to ensure nextID will not be taken and list will not be extended by another goroutine
+	defer items.mu.Unlock()
 
 	nextID := items.NextID()
 	currentLen := len(items.items)
@@ -94,7 +95,6 @@ func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
 	}
 
 	items.nextID += 1
-	items.mu.Unlock() // free items as nextID successfully acquired and list extended
 
 	items.items[nextID].ID = nextID
 	items.items[nextID].Parent = parentID
-- 
2.43.0


From 11bb3a1de86ed2b4f43dd0a5ea07581877583cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 16/25] fix: index: refuse to load inconsistent items, allocate
 no more than there is to read

---
 internal/index/idx.go           | 23 +++++++++++++++++++++++
 internal/index/items.go         | 12 ++++++++++--
 internal/index/tagset_index.go  |  8 ++++++--
 internal/index/variant_table.go |  8 ++++++--
 4 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index f329332..777e62d 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -243,11 +243,34 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
+	if err = index.checkItems(); err != nil {
+		return err
+	}
+
 	index.rebuildChildrenIndex()
 
 	return nil
 }
 
+// checkItems returns error if items read are not those which could be written.
+func (index *Index) checkItems() error {
+	for idx, item := range index.items.items {
+		if int(item.ID) != idx {
+			return fmt.Errorf("%w: read: item %d has ID %d", Error, idx, item.ID)
+		}
+
+		if idx > 0 && item.Parent >= item.ID { // also prevents loops
+			return fmt.Errorf("%w: read: item %d has parent %d", Error, idx, item.Parent)
+		}
+
+		if _, err := index.Variants(item.Variants); err != nil {
+			return fmt.Errorf("%w: read: item %d: %v", Error, idx, err)
+		}
+	}
+
+	return nil
+}
+
 // AddRunes adds runes sequence into container.
 // Returns final node filled with node data or error if add caused error.
 func (index *Index) AddRunes(runes []rune) (dag.Node, error) {
diff --git a/internal/index/items.go b/internal/index/items.go
index 9c2bb58..c68568c 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -33,12 +33,20 @@ func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
+	if itemListLen == 0 {
+		return fmt.Errorf("%w: items: no root item", Error)
+	}
+
 	items.nextID = dag.ID(itemListLen)
-	items.items = make([]Item, int(itemListLen))
+	items.items = make([]Item, 0) // length is not trusted until all items are read
 	for idx := 0; idx < int(itemListLen); idx++ {
-		if err = items.items[idx].BinaryReadFrom(reader); err != nil {
+		var item Item
+
+		if err = item.BinaryReadFrom(reader); err != nil {
 			return err
 		}
+
+		items.items = append(items.items, item)
 	}
 
 	return nil
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index ec78978..bd24345 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -71,11 +71,15 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*tagSetIndex = make(TagSetIndex, tagSetIndexLen)
+	*tagSetIndex = make(TagSetIndex, 0) // length is not trusted until all tables are read
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if err = (*tagSetIndex)[idx].BinaryReadFrom(reader); err != nil {
+		var table TagSetTable
+
+		if err = table.BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
+
+		*tagSetIndex = append(*tagSetIndex, table)
 	}
 
 	return nil
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index d3d7797..96b78be 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -37,11 +37,15 @@ func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*variantsTable = make(VariantsTable, tagSetIndexLen)
+	*variantsTable = make(VariantsTable, 0) // length is not trusted until all collections are read
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if err = (*variantsTable)[idx].BinaryReadFrom(reader); err != nil {
+		var collection TagSetIDCollection
+
+		if err = collection.BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
+
+		*variantsTable = append(*variantsTable, collection)
 	}
 
 	return nil
-- 
2.43.0


From 86bf012030f6c533c709e127819d87984355b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 17/25] fix: index: TagSet.ReadFrom does not take short reads
 for complete values

---
 internal/index/tagset_def.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 4b584ba..13b8c09 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -129,7 +130,7 @@ func (tagSet *TagSet) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r)) // do not accept short reads
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", Error, err)
 	}
-- 
2.43.0


From 93fc2a65a1054cbfb8f68fd7bc55f074ab0153ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 18/25] fix: opencorpora: inaccessible download is reported
 when checking for update

---
 pkg/opencorpora/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..b1dffaa 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -129,6 +129,12 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		loader.Warnf("file access: %v: %v", expectedFile, err)
+
+		return false, err
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
-- 
2.43.0


From 91faebd4e07649e228e0d09ac5da98dcff7ca5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 19/25] fix: opencorpora: failed download is reported and not
 left in place of a complete one

---
 pkg/opencorpora/loader.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index b1dffaa..b831a6b 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -190,19 +190,28 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
+	if response.StatusCode != http.StatusOK {
+		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
+		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
+	}
+
 	// Create a empty file
 	file, err := os.Create(loader.downloadedFilePath())
 	if err != nil {
 		return false, err
 	}
 
-	defer func() {
-		if file != nil {
-			_ = file.Close()
+	_, err = io.Copy(file, response.Body)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err != nil {
+		// never leave incomplete download as it looks newer than remote
+		if removeErr := os.Remove(loader.downloadedFilePath()); removeErr != nil {
+			loader.Warnf("remove incomplete download: %v", removeErr)
 		}
-	}()
 
-	if _, err = io.Copy(file, response.Body); err != nil {
 		return false, err
 	}
 
-- 
2.43.0


From f05359a35d412fdf32de5e55f43a5e37223964fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 20/25] fix: opencorpora: failed unpacking is reported and
 leaves no incomplete file

---
 pkg/opencorpora/loader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index b831a6b..8362271 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -241,9 +241,16 @@ func (loader Loader) UnpackUpdate() (err error) {
 		return err
 	}
 
-	defer func() { _ = target.Close() }()
+	_, err = io.Copy(target, bzipSource) // nolint:gosec
+	if closeErr := target.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err != nil {
+		if removeErr := os.Remove(loader.unpackedFilePath()); removeErr != nil {
+			loader.Warnf("remove incomplete unpacked file: %v", removeErr)
+		}
 
-	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
 		return err
 	}
 
-- 
2.43.0


From 9e95f197433f4e6503fc1d29e94e7b9a70f4a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 21/25] fix: opencorpora: failure to close saved index is
 reported

---
 pkg/opencorpora/loader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 8362271..ba0ac7d 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -269,7 +269,7 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 
 	defer func() {
 		loader.Debugf("loading finished %v", fromFile)
-		if closeErr := reader.Close(); err != nil {
+		if closeErr := reader.Close(); closeErr != nil {
 			loader.Warnf("close index: %v", closeErr)
 		}
 
@@ -302,8 +302,12 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 
 	defer func() {
 		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); err != nil {
+		if closeErr := writer.Close(); closeErr != nil {
 			loader.Warnf("close index: %v", closeErr)
+
+			if err == nil {
+				err = fmt.Errorf("%w: close index: %v", Error, closeErr)
+			}
 		}
 
 		if err != nil {
-- 
2.43.0


From c1c595377ecd40eabe7cca6ede3ca9b4b7674613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 22/25] fix: opencorpora: make directory of the data path which
 is used

---
 pkg/opencorpora/loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index ba0ac7d..abad7af 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -174,7 +174,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -225,7 +225,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 		target     io.WriteCloser
 	)
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 4f85f18163ee76c8c53c699ec06b077ec853ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 23/25] fix: opencorpora: update completes previous update
 which failed after download

---
 pkg/opencorpora/loader.go | 46 +++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index abad7af..5ad3479 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -353,6 +353,42 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
+// isMadeFrom returns true if target file exists and was not made before its source.
+func (loader Loader) isMadeFrom(target string, source string) bool {
+	targetStat, err := os.Stat(target)
+	if err != nil {
+		return false
+	}
+
+	sourceStat, err := os.Stat(source)
+
+	return err == nil && !targetStat.ModTime().Before(sourceStat.ModTime())
+}
+
+// refresh unpacks and compiles existing download if it was not done yet, i.e. previous update was not completed.
+// Always compiles if forceRecompile required.
+func (loader Loader) refresh(forceRecompile bool) error {
+	if !loader.isMadeFrom(loader.unpackedFilePath(), loader.downloadedFilePath()) {
+		loader.Info("downloaded file is not unpacked, unpacking")
+
+		if err := loader.UnpackUpdate(); err != nil {
+			loader.Errorf("unpack: %v", err)
+			return err
+		}
+	}
+
+	if !forceRecompile && loader.isMadeFrom(loader.compiledFilePath(), loader.unpackedFilePath()) {
+		return nil
+	}
+
+	if err := loader.ParseUpdate(loader.unpackedFilePath(), loader.compiledFilePath()); err != nil {
+		loader.Errorf("compile: %v", err)
+		return err
+	}
+
+	return nil
+}
+
 func (loader Loader) Update(forceRecompile bool) (err error) {
 	var updated, updateRequired, downloadedExists, unpackedExists bool
 
@@ -375,12 +411,7 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	case !updateRequired:
 		loader.Info("lemmata up to date")
 
-		if forceRecompile {
-			loader.Info("do recompile as force update required")
-			goto compile
-		}
-
-		return nil
+		return loader.refresh(forceRecompile)
 
 	default:
 		loader.Info("update required, downloading")
@@ -394,7 +425,8 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 		return err
 	case !updated:
 		loader.Warn("files not updated, no errors")
-		return nil
+
+		return loader.refresh(forceRecompile)
 	default:
 		loader.Info("downloaded, unpacking")
 	}
-- 
2.43.0


From 02d6e6355705d825e425f7722548de20848c1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 24/25] fix: opencorpora: grammeme name split by comments is
 taken as a whole

---
 pkg/opencorpora/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index b1f917a..58c7a57 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -216,7 +216,7 @@ func (parser *Parser) onGrammemeName() *elementProcessor {
 	return &elementProcessor{
 		processStart: ignoreElementStart,
 		processData: func(data string) error {
-			parser.currentGrammeme.Name = dag.TagName(data)
+			parser.currentGrammeme.Name += dag.TagName(data) // data could be split by comments
 			return nil
 		},
 		processEnd: ignoreElementEnd,
-- 
2.43.0


From d18fcfc43c9d789648946df25b529063f107c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 25/25] fix: opencorpora: interrupted update leaves no
 incomplete file which looks complete

---
 pkg/opencorpora/loader.go | 108 ++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 58 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 5ad3479..6ac0eb3 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -19,6 +19,9 @@ import (
 	"github.com/amarin/gomorphy/pkg/common"
 )
 
+// partialFileSuffix is added to names of files which are not completely written yet.
+const partialFileSuffix = ".part"
+
 // Loader provides OpenCorpora dictionary parsing utilities.
 type Loader struct {
 	logging.Logger
@@ -195,35 +198,47 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
 	}
 
-	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
-	if err != nil {
+	// never leave incomplete download as it looks newer than remote
+	if err = loader.saveFile(loader.downloadedFilePath(), response.Body); err != nil {
 		return false, err
 	}
 
-	_, err = io.Copy(file, response.Body)
+	return true, nil
+}
+
+// saveFile saves data to file. Incomplete data never appears under the name of file even if program is interrupted.
+func (loader Loader) saveFile(toFile string, data io.Reader) (err error) {
+	var file *os.File
+
+	if file, err = os.Create(toFile + partialFileSuffix); err != nil {
+		return err
+	}
+
+	_, err = io.Copy(file, data) // nolint:gosec
 	if closeErr := file.Close(); err == nil {
 		err = closeErr
 	}
 
+	return loader.finishFile(toFile, err)
+}
+
+// finishFile gives completely written file its name, or removes it if there was an error writing it.
+func (loader Loader) finishFile(toFile string, err error) error {
+	if err == nil {
+		err = os.Rename(toFile+partialFileSuffix, toFile)
+	}
+
 	if err != nil {
-		// never leave incomplete download as it looks newer than remote
-		if removeErr := os.Remove(loader.downloadedFilePath()); removeErr != nil {
-			loader.Warnf("remove incomplete download: %v", removeErr)
+		if removeErr := os.Remove(toFile + partialFileSuffix); removeErr != nil {
+			loader.Warnf("remove incomplete file: %v", removeErr)
 		}
-
-		return false, err
 	}
 
-	return true, nil
+	return err
 }
 
 func (loader Loader) UnpackUpdate() (err error) {
-	var (
-		source     io.ReadCloser
-		bzipSource io.Reader
-		target     io.WriteCloser
-	)
+	var source io.ReadCloser
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
@@ -235,26 +250,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	defer func() { _ = source.Close() }()
 
-	bzipSource = bzip2.NewReader(source)
-
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
-		return err
-	}
-
-	_, err = io.Copy(target, bzipSource) // nolint:gosec
-	if closeErr := target.Close(); err == nil {
-		err = closeErr
-	}
-
-	if err != nil {
-		if removeErr := os.Remove(loader.unpackedFilePath()); removeErr != nil {
-			loader.Warnf("remove incomplete unpacked file: %v", removeErr)
-		}
-
-		return err
-	}
-
-	return nil
+	return loader.saveFile(loader.unpackedFilePath(), bzip2.NewReader(source))
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
@@ -296,39 +292,35 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
+	if writer, err = binutils.CreateFile(toFile + partialFileSuffix); err != nil {
 		return fmt.Errorf("%w: create index: %v", Error, err)
 	}
 
-	defer func() {
-		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); closeErr != nil {
-			loader.Warnf("close index: %v", closeErr)
-
-			if err == nil {
-				err = fmt.Errorf("%w: close index: %v", Error, closeErr)
-			}
-		}
-
-		if err != nil {
-			loader.Error(err.Error())
-
-			if removeErr := os.Remove(toFile); removeErr != nil {
-				loader.Warnf("remove incomplete index: %v", removeErr)
-			}
-		} else {
-			loader.Infof("compiled index saved at %v", toFile)
-		}
-	}()
-
 	loader.Debugf("indexed %d words %d nodes", mainIndex.WordsCount(), mainIndex.NodesCount())
 	loader.Info("optimize index")
 	mainIndex.Optimize()
 	loader.Info("saving index")
 	if err = mainIndex.BinaryWriteTo(writer); err != nil {
-		return fmt.Errorf("%w: save index: %v", Error, err)
+		err = fmt.Errorf("%w: save index: %v", Error, err)
+	}
+
+	loader.Debugf("finishing %v", toFile)
+	if closeErr := writer.Close(); closeErr != nil {
+		loader.Warnf("close index: %v", closeErr)
+
+		if err == nil {
+			err = fmt.Errorf("%w: close index: %v", Error, closeErr)
+		}
+	}
+
+	if err = loader.finishFile(toFile, err); err != nil {
+		loader.Error(err.Error())
+
+		return err
 	}
 
+	loader.Infof("compiled index saved at %v", toFile)
+
 	return nil
 }
 
-- 
2.43.0

