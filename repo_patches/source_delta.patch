From 5e7ab74b925e49860b9bc6d566debb5e6602f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 01/41] fix: keep pipelined requests in the query buffer

reset() threw away everything after the current request, so all but the
first of several requests arriving in one read were silently dropped.
---
 server/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..1b8055d 100644
--- a/server/client.go
+++ b/server/client.go
@@ -196,8 +196,11 @@ func (c *Client) free() {
 }
 
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
+	// bytes of the following (pipelined) requests stay in the buffer
+	if c.queryLen == 0 {
+		c.queryBuf = nil
+	}
+
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From a409e6cdb059b9226a6a6f2d99f3f5c2c06163d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 02/41] fix: parse bulk strings that are empty or split at any
 byte

A length of 0 was taken for 'no length line read yet', the final CRLF was
assumed to have arrived with the payload, and converting an empty slice
with byteutils.B2S panics.
---
 server/client.go |  8 ++++----
 server/resp.go   | 24 +++++++++++-------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/server/client.go b/server/client.go
index 1b8055d..365f6f3 100644
--- a/server/client.go
+++ b/server/client.go
@@ -7,7 +7,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/ae"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -33,7 +32,7 @@ type Client struct {
 	cmdType       CommandType
 	args          []string
 	multiBulkLen  int
-	bulkLen       int
+	bulkLen       int        // -1 when the length line has not been read yet
 	replayHead    *list.List // string
 	sentLen       int
 	authenticated bool // when server requirPassword is not empty, client must auth first
@@ -45,6 +44,7 @@ func NewClient(srv *Server, fd socket.FD) *Client {
 		db:         srv.dbs[0],
 		fd:         fd,
 		queryBuf:   make([]byte, maxBulk),
+		bulkLen:    -1,
 		replayHead: list.New(),
 	}
 }
@@ -54,7 +54,7 @@ func (c *Client) getCRLFIndexFromQueryBuffer() int {
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
-	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
+	return strconv.Atoi(string(c.queryBuf[1:indexCRLF]))
 }
 
 func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
@@ -204,5 +204,5 @@ func (c *Client) reset() {
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-	c.bulkLen = 0
+	c.bulkLen = -1
 }
diff --git a/server/resp.go b/server/resp.go
index c781c6f..ace0fa4 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -3,7 +3,6 @@ package server
 import (
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/pkg/errors"
 )
 
@@ -67,7 +66,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
+	subs := strings.Split(string(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
 
@@ -77,7 +76,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 }
 
 func processBulkBuffer(client *Client) (bool, error) {
-	if client.bulkLen == 0 {
+	if client.bulkLen < 0 {
 		index := client.getCRLFIndexFromQueryBuffer()
 		if index == -1 {
 			if client.queryLen > MaxInlineSize {
@@ -94,10 +93,6 @@ func processBulkBuffer(client *Client) (bool, error) {
 
 		client.moveToNextLineInQueryBuffer(index)
 
-		if num == 0 {
-			return true, nil
-		}
-
 		client.bulkLen = num
 	}
 
@@ -105,10 +100,13 @@ func processBulkBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+	if client.bulkLen > 0 {
+		client.args = append(client.args, string(client.queryBuf[0:client.bulkLen]))
+	}
+
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
-	client.bulkLen = 0
+	client.bulkLen = -1
 
 	return true, nil
 }
@@ -140,7 +138,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if client.bulkLen < 0 {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -163,7 +161,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
@@ -172,8 +170,8 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
-		client.bulkLen = 0
+		client.args[len(client.args)-client.multiBulkLen] = string(client.queryBuf[:index])
+		client.bulkLen = -1
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From f45e23586416c431fdb40c0980051521ef4739f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 03/41] fix: refuse malformed request lengths and empty inline
 requests without panicking

Negative or absurd lengths panicked in make or in slicing, and an empty
line panicked as well: any client could bring the server down.
---
 server/resp.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index ace0fa4..81db03a 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -8,6 +8,11 @@ import (
 
 const MaxInlineSize = 1024 * 64
 
+const (
+	maxMultiBulkLen = 1024 * 1024       // arguments of one request
+	maxBulkLen      = 512 * 1024 * 1024 // bytes of one argument
+)
+
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
 	for client.queryLen > 0 {
@@ -66,6 +71,12 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
+	if index == 0 { // an empty line is an empty request
+		client.moveToNextLineInQueryBuffer(index)
+
+		return true, nil
+	}
+
 	subs := strings.Split(string(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
@@ -91,6 +102,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get bulk length")
 		}
 
+		if num < 0 || num > maxBulkLen {
+			return false, errors.New("invalid bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		client.bulkLen = num
@@ -127,9 +142,13 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get multi bulk length")
 		}
 
+		if num > maxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
-		if num == 0 {
+		if num <= 0 {
 			return true, nil
 		}
 
@@ -157,6 +176,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > maxBulkLen {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
 			client.moveToNextLineInQueryBuffer(index)
 		}
-- 
2.43.0


From 0d68e7893bad0483fe4f5a8c87cd7638fe91e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 04/41] fix: address the back half of a paged list correctly

A shadowed variable made every access to the back half of a list of several
pages hit the wrong element or panic, and Insert searched with a length that
counted the new element already.
---
 datastruct/quicklist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..a7d2836 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -118,9 +118,9 @@ func (q *Quicklist) Insert(index int, v any) bool {
 		return true
 	}
 
+	iter := q.get(index)
 	q.length++
 
-	iter := q.get(index)
 	page := iter.page()
 	// if the page is not full, just insert the value
 	if len(page) < pageSize {
@@ -253,7 +253,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From d04cd5574718b4b784fc0a28f64d4f7927f71872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 05/41] fix: clamp list ranges and accept negative list indexes

LRANGE with a start before the head answered null, a huge stop made the
server panic in makeslice, and LINDEX ignored negative indexes.
---
 datastruct/quicklist.go | 11 ++++++++++-
 server/commandlist.go   |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index a7d2836..1475852 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -197,7 +197,16 @@ func (q *Quicklist) Range(start, stop int) []any {
 		stop = q.length + stop
 	}
 
-	if start < 0 || stop < 0 || start > stop || start >= q.length {
+	// bounds outside the list are clamped
+	if start < 0 {
+		start = 0
+	}
+
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
+	if stop < 0 || start > stop {
 		return nil
 	}
 
diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..0e7a870 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -113,6 +113,10 @@ func lIndexCommand(client *Client) error {
 		return client.addReplyErrorf("invalid index: %s, error: %v", client.args[2], err)
 	}
 
+	if index < 0 {
+		index += list.Len()
+	}
+
 	v := list.Get(index)
 	if v == nil {
 		return client.addReplyNull()
-- 
2.43.0


From 578d4b04475b45ad2ad0b9ff9f5cf246c1c9d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 06/41] fix: report skip list elements that are absent as
 absent

Delete returned the neighbour of a missing element, GetRank confused the
empty member with the head and ignored the score, and rank 0 gave the head.
---
 datastruct/skiplist.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..3ee7f1c 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -120,9 +120,11 @@ func (s *Skiplist) Delete(score float64, member string) *SkiplistNode {
 	x = x.Levels[0].Forward
 	if x != nil && score == x.Score && member == x.Member {
 		s.deleteNode(x, update)
+
+		return x
 	}
 
-	return x
+	return nil
 }
 
 // DeleteRangeByScore deletes all the elements with score between min and max (inclusive).
@@ -200,7 +202,7 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 			x = x.Levels[i].Forward
 		}
 
-		if member == x.Member {
+		if x != s.Head && score == x.Score && member == x.Member {
 			return rank
 		}
 	}
@@ -210,6 +212,10 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 
 // GetElementByRank returns the element at the given rank. The rank is 1-based.
 func (s *Skiplist) GetElementByRank(rank int64) *SkiplistNode {
+	if rank < 1 {
+		return nil
+	}
+
 	var traversed int64
 
 	x := s.Head
-- 
2.43.0


From e2c23f69b139bb2a9bf8a955cc33f8ff05632349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 07/41] fix: count ranks across levels when deleting by rank

The rank was reset on every level, so ZREMRANGEBYRANK removed other elements
than the addressed ones and corrupted the spans.
---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 3ee7f1c..8d758d9 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -163,8 +163,8 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
 
+	rank := int64(0)
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From 89c997d8d1a012f9b8b8d7b8b7dfb3d328c55a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 08/41] fix: accept negative and oversized ranks of sorted sets

ZRANGE key 0 -1 was empty and a huge stop panicked in makeslice.
---
 datastruct/skiplist.go |  8 ++++++++
 datastruct/zset.go     | 21 +++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 8d758d9..f7a59e1 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -253,6 +253,14 @@ func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
 		}
 	}
 
+	if end > s.Length {
+		end = s.Length
+	}
+
+	if start > end {
+		return nil
+	}
+
 	rangeLen := end - start + 1
 	elements := make([]*SkiplistNode, 0, rangeLen)
 	for i := int64(0); i < rangeLen && node != nil; i++ {
diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..767ecdd 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -65,8 +65,9 @@ func (z *Zset) Delete(member string) bool {
 }
 
 // DeleteRangeByRank removes all elements with rank between start and end.
-// Note that rank is 0-based.
+// Note that rank is 0-based. Negative ranks count from the end.
 func (z *Zset) DeleteRangeByRank(start, end int64) []*ZsetElement {
+	start, end = z.absoluteRanks(start, end)
 	if end == math.MaxInt64 {
 		end = z.skiplist.Length - 1
 	}
@@ -113,8 +114,9 @@ func (z *Zset) GetRank(member string, reverse bool) int64 {
 }
 
 // RangeByRank returns a slice of elements with rank between start and end.
-// The rank is 0-based.
+// The rank is 0-based. Negative ranks count from the end.
 func (z *Zset) RangeByRank(start, end int64, reverse bool) []*ZsetElement {
+	start, end = z.absoluteRanks(start, end)
 	if end == math.MaxInt64 {
 		end = z.skiplist.Length - 1
 	}
@@ -139,6 +141,21 @@ func (z *Zset) RangeByScore(min, max float64, limit int64, reverse bool) []*Zset
 	return elements
 }
 
+// absoluteRanks converts ranks that count from the end to ranks that count from the start.
+func (z *Zset) absoluteRanks(start, end int64) (int64, int64) {
+	if start < 0 {
+		if start += z.skiplist.Length; start < 0 {
+			start = 0
+		}
+	}
+
+	if end < 0 {
+		end += z.skiplist.Length
+	}
+
+	return start, end
+}
+
 // Size returns the number of elements in the zset.
 func (z *Zset) Size() int64 {
 	return z.skiplist.Length
-- 
2.43.0


From b449d44f3fb8d75871303d5831c470f3fc79f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 09/41] fix: remove the old skip list entry when a score
 changes

The element was searched under its new score, so the old entry stayed and the
member was listed twice.
---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 767ecdd..c40e2bd 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,8 +27,8 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
+			element.Score = score
 			z.skiplist.Insert(score, member)
 		}
 
-- 
2.43.0


From b9f7627c8978a4eb8e70dd1516aaaf9edfe8a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 10/41] fix: release only iterators that have started

Releasing an unused iterator dropped the protection of another running one,
which then missed entries moved by rehashing.
---
 datastruct/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..c58f46a 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -63,7 +63,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 }
 
 func (di *DictIterator) Release() {
-	if di.index != -1 || di.dict.iterators != 0 {
+	if di.index != -1 {
 		di.dict.iterators--
 	}
 }
-- 
2.43.0


From 96d3339f722597e63bf13220ef2eddcc8e3cf265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 11/41] fix: start afresh when writing to an expired key

HSET, SADD, ZADD, LPUSH and RPUSH added to the dead value, and the result was
lost to the old expiry.
---
 server/commandhash.go | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..a517ee0 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// an expired value must not be written to
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandlist.go b/server/commandlist.go
index 0e7a870..f14368b 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -161,6 +161,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// an expired value must not be written to
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..140d26a 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -203,6 +203,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// an expired value must not be written to
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..2749040 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -237,6 +237,11 @@ func zRemRangeByScoreCommand(client *Client) error {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// an expired value must not be written to
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From 0a33fc3e46619874f9dd227321829b2da6ede430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 12/41] fix: report expired keys as missing in TTL

---
 server/commandkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..b0c02da 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -40,6 +40,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
-- 
2.43.0


From 8ac9a65f6fc07e3cbe4671d9eae360dfe1900350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 13/41] fix: keep no expiry for keys that do not exist

EXPIRE and EXPIREAT on a missing or expired key left an expiry behind that a
later key of that name inherited; expiries beyond the clock range wrapped around.
---
 server/commandkey.go    | 30 ++++++++++++++++++++++++------
 server/commandstring.go |  8 +++++++-
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index b0c02da..03a2f80 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
@@ -16,9 +17,25 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	when := time.Now().UnixMilli() + expireInt*1000
-	client.db.Expire.Set(key, when)
-	client.srv.dirty++
+	now := time.Now().UnixMilli()
+	if expireInt > (math.MaxInt64-now)/1000 || expireInt < math.MinInt64/1000 {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
+	return setExpire(client, key, now+expireInt*1000)
+}
+
+// setExpire sets the expire time of the key if the key exists.
+func setExpire(client *Client, key string, when int64) error {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
+	if client.db.Dict.Find(key) != nil {
+		client.db.Expire.Set(key, when)
+		client.srv.dirty++
+	}
 
 	return client.addReplyOK()
 }
@@ -31,10 +48,11 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	client.db.Expire.Set(key, expireInt*1000)
-	client.srv.dirty++
+	if expireInt > math.MaxInt64/1000 || expireInt < math.MinInt64/1000 {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
 
-	return client.addReplyOK()
+	return setExpire(client, key, expireInt*1000)
 }
 
 func ttlCommand(client *Client) error {
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..eff8d7d 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 	"time"
 
@@ -23,7 +24,12 @@ func setExCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	when := time.Now().UnixMilli() + expireInt*1000
+	now := time.Now().UnixMilli()
+	if expireInt > (math.MaxInt64-now)/1000 || expireInt < math.MinInt64/1000 {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
+	when := now + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.db.Dict.Set(key, value)
 	client.srv.dirty++
-- 
2.43.0


From a1a9b17f1075985cfd476f8c014a8ae71285fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 14/41] fix: remove collections together with their last
 element

Empty lists, hashes, sets and sorted sets stayed in the keyspace, were listed
by KEYS, kept their type and their expiry.
---
 server/command.go     | 8 ++++++++
 server/commandhash.go | 2 ++
 server/commandlist.go | 8 ++++++--
 server/commandset.go  | 3 +++
 server/commandzset.go | 4 ++++
 5 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/server/command.go b/server/command.go
index 207fddb..357308f 100644
--- a/server/command.go
+++ b/server/command.go
@@ -92,6 +92,14 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// removeIfEmpty removes the key of a collection that has lost its last element.
+func removeIfEmpty(client *Client, key string, size int64) {
+	if size == 0 {
+		_ = client.db.Dict.Delete(key)
+		_ = client.db.Expire.Delete(key)
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandhash.go b/server/commandhash.go
index a517ee0..66371fa 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -69,6 +69,8 @@ func hDelCommand(client *Client) error {
 		}
 	}
 
+	removeIfEmpty(client, key, hash.Size())
+
 	return client.addReplyInt(deleted)
 }
 
diff --git a/server/commandlist.go b/server/commandlist.go
index f14368b..8b6d197 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -56,8 +56,10 @@ func lPopCommand(client *Client) error {
 	}
 
 	client.srv.dirty++
+	value := list.PopFront().(string)
+	removeIfEmpty(client, key, int64(list.Len()))
 
-	return client.addReplyBulkString(list.PopFront().(string))
+	return client.addReplyBulkString(value)
 }
 
 func rPopCommand(client *Client) error {
@@ -77,8 +79,10 @@ func rPopCommand(client *Client) error {
 	}
 
 	client.srv.dirty++
+	value := list.PopBack().(string)
+	removeIfEmpty(client, key, int64(list.Len()))
 
-	return client.addReplyBulkString(list.PopBack().(string))
+	return client.addReplyBulkString(value)
 }
 
 func lLenCommand(client *Client) error {
diff --git a/server/commandset.go b/server/commandset.go
index 140d26a..7e84205 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -46,6 +46,8 @@ func sRemCommand(client *Client) error {
 		}
 	}
 
+	removeIfEmpty(client, key, set.Size())
+
 	return client.addReplyInt(deleted)
 }
 
@@ -71,6 +73,7 @@ func sPopCommand(client *Client) error {
 	}
 
 	client.srv.dirty++
+	removeIfEmpty(client, key, set.Size())
 
 	return client.addReplyBulkString(randomMember.(string))
 }
diff --git a/server/commandzset.go b/server/commandzset.go
index 2749040..7028d0e 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -177,6 +177,8 @@ func zRemCommand(client *Client) error {
 		}
 	}
 
+	removeIfEmpty(client, key, zset.Size())
+
 	return client.addReplyInt(int64(deleted))
 }
 
@@ -204,6 +206,7 @@ func zRemRangeByRankCommand(client *Client) error {
 
 	deletedElements := zset.DeleteRangeByRank(start, stop)
 	client.srv.dirty += int64(len(deletedElements))
+	removeIfEmpty(client, key, zset.Size())
 
 	return client.addReplyInt(int64(len(deletedElements)))
 }
@@ -232,6 +235,7 @@ func zRemRangeByScoreCommand(client *Client) error {
 
 	deletedElements := zset.DeleteRangeByScore(min, max)
 	client.srv.dirty += int64(len(deletedElements))
+	removeIfEmpty(client, key, zset.Size())
 
 	return client.addReplyInt(int64(len(deletedElements)))
 }
-- 
2.43.0


From 04dcaffb03ba80b76169923a16b2ee51c7287404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 15/41] fix: refuse negative database indexes

SELECT -1 panicked and took the server down.
---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From 8fa5b582b72d486db54595c256f7a5997c5f065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 16/41] fix: treat a missing first operand of SUNION as the
 empty set

---
 server/commandset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index 7e84205..d92ea3f 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -181,11 +181,11 @@ func sInterCommand(client *Client) error {
 
 func sUnionCommand(client *Client) error {
 	set, err := getSetIfExist(client, client.args[1])
-	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
-		}
+	if errors.Is(err, errNotExist) {
+		set, err = datastruct.NewSet(&database.DictType{}), nil
+	}
 
+	if err != nil {
 		return client.addReplyError(err.Error())
 	}
 
-- 
2.43.0


From 5b1b9625d4dd0813c098b5a8391105b9e52b6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 17/41] fix: make ZADD with a malformed score change nothing

The key was created and the scores before the malformed one were applied,
and NaN, which has no place in the order, was accepted.
---
 server/commandzset.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7028d0e..b3ec0eb 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -15,6 +16,21 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
+	// check all scores before anything is changed
+	scores := make([]float64, 0, len(client.args)/2)
+	for i := 2; i < len(client.args); i += 2 {
+		score, err := strconv.ParseFloat(client.args[i], 64)
+		if err != nil {
+			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
+		}
+
+		if math.IsNaN(score) {
+			return client.addReplyErrorf("invalid score: %s", client.args[i])
+		}
+
+		scores = append(scores, score)
+	}
+
 	zset, err := getZset(client, key)
 	if err != nil {
 		return client.addReplyError(err.Error())
@@ -22,11 +38,7 @@ func zAddCommand(client *Client) error {
 
 	var created int64
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
-		if err != nil {
-			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
-		}
-
+		score := scores[i/2-1]
 		member := client.args[i+1]
 		if zset.Add(score, member) {
 			created++
-- 
2.43.0


From 7e09bad5de52c1d5fdba0a23831feaa547bb4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 18/41] fix: log SELECT before the first write after a start

The writer assumed database 0, but the file may end in another database, so
writes after a restart were replayed into the wrong one.
---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 03d4f50..189ad49 100644
--- a/server/server.go
+++ b/server/server.go
@@ -79,6 +79,7 @@ func NewServer(config *config.Config) *Server {
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
+		aofSelectDBID:     -1, // unknown, so that the first write is preceded by SELECT
 	}
 
 	server.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
-- 
2.43.0


From d5fb4d49da79d4d9a7f9ef278265f9a82114d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 19/41] fix: log SPOP as the removal it made

Replaying SPOP removed another random member.
---
 server/commandset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index d92ea3f..e7d21a7 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -75,6 +75,9 @@ func sPopCommand(client *Client) error {
 	client.srv.dirty++
 	removeIfEmpty(client, key, set.Size())
 
+	// a replay must remove the same member
+	client.args = []string{"srem", key, randomMember.(string)}
+
 	return client.addReplyBulkString(randomMember.(string))
 }
 
-- 
2.43.0


From a48a3514fa0979c100aeaf5d5d7a5634077c948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 20/41] fix: log the removal of expired keys

A replay drops expired keys by its own clock, so commands logged before and
after the expiry of a key were applied to the wrong value of the key.
---
 server/command.go    | 21 +++++++++++++++++++--
 server/commandkey.go | 17 +++++++++++++++++
 server/server.go     |  3 +--
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/server/command.go b/server/command.go
index 357308f..507adb8 100644
--- a/server/command.go
+++ b/server/command.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/IfanTsai/metis/database"
 	"github.com/pkg/errors"
 )
 
@@ -29,6 +30,7 @@ var commandTable = []command{
 	{"expire", expireCommand, 3},
 	{"expireat", expireAtCommand, 3},
 	{"ttl", ttlCommand, 2},
+	{"del", delCommand, -2},
 	{"keys", keysCommand, 2},
 	// string
 	{"set", setCommand, -3},
@@ -82,8 +84,12 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 		}
 
 		if when < time.Now().UnixMilli() {
-			_ = client.db.Dict.Delete(key)
-			_ = client.db.Expire.Delete(key)
+			if client.fd < 0 {
+				// while the AOF file is replayed keys are removed by the logged deletions only
+				return false, nil
+			}
+
+			deleteExpiredKey(client.srv, client.db, key)
 
 			return true, nil
 		}
@@ -92,6 +98,17 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteExpiredKey removes a key that has expired and logs the removal, because a replay must
+// remove the key at the same point between the other commands.
+func deleteExpiredKey(srv *Server, db *database.Databse, key string) {
+	_ = db.Dict.Delete(key)
+	_ = db.Expire.Delete(key)
+
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &command{name: "del"}, db.ID, []string{"del", key})
+	}
+}
+
 // removeIfEmpty removes the key of a collection that has lost its last element.
 func removeIfEmpty(client *Client, key string, size int64) {
 	if size == 0 {
diff --git a/server/commandkey.go b/server/commandkey.go
index 03a2f80..0858495 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -55,6 +55,23 @@ func expireAtCommand(client *Client) error {
 	return setExpire(client, key, expireInt*1000)
 }
 
+func delCommand(client *Client) error {
+	var deleted int64
+	for _, key := range client.args[1:] {
+		if _, err := expireIfNeeded(client, key); err != nil {
+			return client.addReplyErrorf("expireIfNeeded error: %v", err)
+		}
+
+		if client.db.Dict.Delete(key) == nil {
+			_ = client.db.Expire.Delete(key)
+			deleted++
+			client.srv.dirty++
+		}
+	}
+
+	return client.addReplyInt(deleted)
+}
+
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
diff --git a/server/server.go b/server/server.go
index 189ad49..d767f43 100644
--- a/server/server.go
+++ b/server/server.go
@@ -289,8 +289,7 @@ func databasesCron(srv *Server) {
 			}
 
 			if when < time.Now().UnixMilli() {
-				db.Dict.Delete(entry.Key)
-				db.Expire.Delete(entry.Key)
+				deleteExpiredKey(srv, db, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From 733a7328e87d4e9872461e024244cad941057579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 21/41] fix: handle writable before readable events of a
 descriptor

With both ready, a request read in an iteration was answered in the same
iteration, before the before-sleep callback had written it to the AOF file.
---
 ae/ae.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..752dde6 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -224,7 +224,9 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 		fileEvents []*FileEvent
 	)
 
-	epollEventTypes := []uint32{syscall.EPOLLIN, syscall.EPOLLOUT}
+	// writable before readable: what a readable handler makes pending for the same descriptor
+	// is written after the next before-sleep callback only
+	epollEventTypes := []uint32{syscall.EPOLLOUT, syscall.EPOLLIN}
 	for i := 0; i < nReady; i++ {
 		ev := events[i]
 		for _, epollEventType := range epollEventTypes {
-- 
2.43.0


From 21133cf65feab1db2a7e677792cc043fa1d42f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 22/41] fix: do not run file event handlers that have been
 removed

A handler removed by an earlier handler of the same iteration still ran, for
example on a connection that had just been closed.
---
 ae/ae.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 752dde6..454fa6f 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -200,6 +200,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// an earlier handler of this iteration may have removed the event
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From 1d11aab158c773159c2a8a52b26be23e82517a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 23/41] fix: do not fire timers that have been removed

A timer removed by an earlier handler of the same iteration still fired, and a
one-shot timer removing itself made the loop drop its pending file events.
---
 ae/ae.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 454fa6f..d52cf5b 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -48,6 +48,7 @@ type TimeEvent struct {
 	interval   int64
 	proc       TimeProc
 	clientData any
+	removed    bool
 }
 
 type EventLoop struct {
@@ -152,6 +153,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 		te := e.Value.(*TimeEvent)
 		if te.id == id {
 			el.timeEventHead.Remove(e)
+			te.removed = true
 
 			return nil
 		}
@@ -188,8 +190,17 @@ func (el *EventLoop) Stop() {
 // processEvents processes time events and file events
 func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEvent) error {
 	for _, te := range timeEvents {
+		// an earlier handler of this iteration may have removed the event
+		if te.removed {
+			continue
+		}
+
 		te.proc(el, te.id, te.clientData)
 
+		if te.removed {
+			continue
+		}
+
 		if te.mask == TypeTimeEventOnce {
 			if err := el.RemoveTimeEvent(te.id); err != nil {
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
-- 
2.43.0


From 897918d8183da54f89c5cdda4fefe91e16e00897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 24/41] fix: bind and connect to the given IPv4 address

The first bytes of the 16-byte form were copied, which are zero, so every
address was widened to 0.0.0.0.
---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From dddfe7187f6f804f2b7e17978c8deeea3024ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 25/41] fix: load append-only files with incomplete last
 commands and long arguments

---
 server/aof.go | 114 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 46 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 7955918..119223e 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -10,7 +10,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/config"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -25,6 +24,8 @@ const (
 	AofRewriteItemsPerCommand = 64
 )
 
+var errInvalidAofFormat = errors.New("invalid aof file format")
+
 // feedAppendOnlyFile is used to feed the AOF file with the command that was just executed.
 func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 	var aofStr string
@@ -134,16 +135,6 @@ func aofFileSync(srv *Server) {
 
 // loadAppendOnlyFile replays the AOF file.
 func loadAppendOnlyFile(srv *Server) {
-	// readline is a helper function that reads a line from the AOF file.
-	readLine := func(reader *bufio.Reader) (string, error) {
-		buf, err := reader.ReadBytes('\n')
-		if err != nil {
-			return "", err
-		}
-
-		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
-	}
-
 	aofFile, err := os.Open(srv.aofFilename)
 	if err != nil {
 		log.Fatal("failed to open aof file", zap.Error(err))
@@ -154,8 +145,9 @@ func loadAppendOnlyFile(srv *Server) {
 	defer fakeClient.free()
 
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
+	validSize := int64(0) // size of the complete commands read so far
 	for {
-		buf, err := readLine(reader)
+		args, size, err := readAppendOnlyCommand(reader)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
 				break
@@ -164,54 +156,84 @@ func loadAppendOnlyFile(srv *Server) {
 			log.Panic("failed to read aof file", zap.Error(err))
 		}
 
-		if buf[0] != '*' {
-			log.Panic("invalid aof file format")
-		}
+		validSize += size
 
-		argc, err := strconv.Atoi(buf[1:])
-		if err != nil {
-			log.Panic("invalid aof file format", zap.Error(err))
+		cmd := lookupCommand(strings.ToLower(args[0]))
+		if cmd == nil {
+			log.Error("unknown command", zap.String("command", args[0]))
+			continue
 		}
 
-		args := make([]string, argc)
-		for i := 0; i < argc; i++ {
-			buf, err = readLine(reader)
-			if err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+		fakeClient.args = args
+		_ = cmd.proc(fakeClient)
+	}
 
-			if buf[0] != '$' {
-				log.Panic("invalid aof file format")
-			}
+	// the last command may be incomplete after a crash, it is dropped so that
+	// further commands are appended to complete ones.
+	if fileInfo, err := aofFile.Stat(); err == nil && fileInfo.Size() > validSize {
+		log.Warn("truncate incomplete command at the end of aof file", zap.Int64("size", validSize))
 
-			argLen, err := strconv.Atoi(buf[1:])
-			if err != nil {
-				log.Panic("invalid aof file format", zap.Error(err))
-			}
+		if err := os.Truncate(srv.aofFilename, validSize); err != nil {
+			log.Fatal("failed to truncate aof file", zap.Error(err))
+		}
 
-			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+		srv.aofCurrentSize = uint(validSize)
+	}
+}
 
-			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+// readAppendOnlyCommand reads a command from the AOF file, and returns its arguments and its size in the file.
+// io.EOF is returned if there is no further complete command.
+func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
+	argc, size, err := readAppendOnlyLength(reader, '*')
+	if err != nil {
+		return nil, 0, err
+	}
 
-			args[i] = byteutils.B2S(arg)
+	if argc == 0 {
+		return nil, 0, errInvalidAofFormat
+	}
+
+	args := make([]string, 0)
+	for i := 0; i < argc; i++ {
+		argLen, lineSize, err := readAppendOnlyLength(reader, '$')
+		if err != nil {
+			return nil, 0, err
 		}
 
-		cmd := lookupCommand(strings.ToLower(args[0]))
-		if cmd == nil {
-			log.Error("unknown command", zap.String("command", args[0]))
-			continue
+		var arg bytes.Buffer
+		if _, err := io.CopyN(&arg, reader, int64(argLen)+2); err != nil {
+			return nil, 0, err
 		}
 
-		fakeClient.args = args
-		_ = cmd.proc(fakeClient)
+		if string(arg.Bytes()[argLen:]) != "\r\n" {
+			return nil, 0, errInvalidAofFormat
+		}
+
+		args = append(args, string(arg.Bytes()[:argLen]))
+		size += lineSize + int64(arg.Len())
+	}
+
+	return args, size, nil
+}
+
+// readAppendOnlyLength reads a line of the AOF file that consists of the given type and a length,
+// and returns the length and the size of the line in the file.
+func readAppendOnlyLength(reader *bufio.Reader, lineType byte) (int, int64, error) {
+	line, err := reader.ReadString('\n')
+	if err != nil {
+		return 0, 0, err
+	}
+
+	if line[0] != lineType {
+		return 0, 0, errInvalidAofFormat
+	}
+
+	length, err := strconv.Atoi(strings.TrimRight(line[1:], "\r\n"))
+	if err != nil || length < 0 {
+		return 0, 0, errInvalidAofFormat
 	}
 
+	return length, int64(len(line)), nil
 }
 
 // rewriteAppendOnlyFileBackground rewrites the AOF file in background.
-- 
2.43.0


From 6de1b802370296eb6712e923953659d83ff14f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 26/41] fix: log SETEX as a single command

---
 server/aof.go           | 23 +++++++++++++----------
 server/commandstring.go | 15 ++++++++++++++-
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 119223e..35522bc 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -40,9 +40,9 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 		// translate EXPIRE to EXPIREAT
 		aofStr += catAppendOnlyExpireCommand(args)
 	case "setex":
-		// translate SETEX to SET and EXPIREAT
-		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3]})
-		aofStr += catAppendOnlyExpireCommand([]string{"expireat", args[1], args[2]})
+		// translate SETEX to SET with EXAT, a single command that cannot be logged by half
+		aofStr += catAppendOnlyGenericCommand(
+			[]string{"set", args[1], args[3], "exat", absoluteExpire(args[2])})
 	default:
 		aofStr += catAppendOnlyGenericCommand(args)
 	}
@@ -60,17 +60,20 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 // catAppendOnlyExpireCommand is used to create the string representation of a EXPIRE command.
 // It is translated to EXPIREAT.
 func catAppendOnlyExpireCommand(args []string) string {
-	expireInt, err := strconv.ParseInt(args[2], 10, 64)
+	args[0] = "expireat"
+	args[2] = absoluteExpire(args[2])
+
+	return catAppendOnlyGenericCommand(args)
+}
+
+// absoluteExpire converts an expire time relative to now to an absolute one.
+func absoluteExpire(expire string) string {
+	expireInt, err := strconv.ParseInt(expire, 10, 64)
 	if err != nil {
 		log.Fatal("failed to parse expire time", zap.Error(err))
 	}
 
-	when := time.Now().Unix() + expireInt
-
-	args[0] = "expireat"
-	args[2] = strconv.FormatInt(when, 10)
-
-	return catAppendOnlyGenericCommand(args)
+	return strconv.FormatInt(time.Now().Unix()+expireInt, 10)
 }
 
 // catAppendOnlyGenericCommand is used to create the string representation of a command
diff --git a/server/commandstring.go b/server/commandstring.go
index eff8d7d..f7e944b 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -3,6 +3,7 @@ package server
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -10,7 +11,19 @@ import (
 
 func setCommand(client *Client) error {
 	key, value := client.args[1], client.args[2]
-	_ = client.db.Expire.Delete(key)
+
+	// SET key value EXAT seconds
+	if len(client.args) == 5 && strings.EqualFold(client.args[3], "exat") {
+		expireInt, err := strconv.ParseInt(client.args[4], 10, 64)
+		if err != nil || expireInt > math.MaxInt64/1000 || expireInt < math.MinInt64/1000 {
+			return client.addReplyErrorf("invalid expire: %s", client.args[4])
+		}
+
+		client.db.Expire.Set(key, expireInt*1000)
+	} else {
+		_ = client.db.Expire.Delete(key)
+	}
+
 	client.db.Dict.Set(key, value)
 	client.srv.dirty++
 
-- 
2.43.0


From 053276e54743fbc95754c4694f7ea60bf7c27c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 27/41] fix: keep the order of lists in AOF rewrites

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 35522bc..6f0245a 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -326,7 +326,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From 047b7cdcd445bd750f527f6ecf8df70ebf5a355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 28/41] fix: select the database of the first command logged
 during an AOF rewrite

---
 server/aof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 6f0245a..23c2f2d 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -250,6 +250,9 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		tmpDBs[i] = db.DeepCopy()
 	}
 
+	// the commands logged from now on are also appended to the new file, whose selected DB is another one
+	srv.aofSelectDBID = -1
+
 	go rewriteAppendOnlyFile(tmpDBs, srv)
 }
 
-- 
2.43.0


From 6d191429e3bae2608eb2242d43e24133d6bbd401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 29/41] fix: copy the values for an AOF rewrite, not only the
 references to them

---
 database/database.go    | 24 +++++++++++++++++++++++-
 datastruct/quicklist.go | 12 ++++++++++++
 datastruct/set.go       |  4 ++++
 datastruct/zset.go      | 10 ++++++++++
 4 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/database/database.go b/database/database.go
index 3ef0058..798499a 100644
--- a/database/database.go
+++ b/database/database.go
@@ -20,8 +20,30 @@ func NewDatabase(id int) *Databse {
 
 func (db *Databse) DeepCopy() *Databse {
 	newDB := NewDatabase(db.ID)
-	newDB.Dict = db.Dict.DeepCopy()
 	newDB.Expire = db.Expire.DeepCopy()
 
+	iter := datastruct.NewDictIterator(db.Dict)
+	defer iter.Release()
+
+	for entry := iter.Next(); entry != nil; entry = iter.Next() {
+		newDB.Dict.Set(entry.Key, deepCopyValue(entry.Value))
+	}
+
 	return newDB
 }
+
+// deepCopyValue copies a value which may be modified in place.
+func deepCopyValue(value any) any {
+	switch value := value.(type) {
+	case *datastruct.Quicklist:
+		return value.DeepCopy()
+	case *datastruct.Dict:
+		return value.DeepCopy()
+	case *datastruct.Set:
+		return value.DeepCopy()
+	case *datastruct.Zset:
+		return value.DeepCopy()
+	default:
+		return value
+	}
+}
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 1475852..ddcd24e 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -236,6 +236,18 @@ func (q *Quicklist) Get(index int) any {
 	return iter.value()
 }
 
+func (q *Quicklist) DeepCopy() *Quicklist {
+	quicklist := NewQuicklist()
+	quicklist.length = q.length
+
+	for node := q.data.Front(); node != nil; node = node.Next() {
+		page := make(quicklistPage, 0, pageSize)
+		quicklist.data.PushBack(append(page, node.Value.(quicklistPage)...))
+	}
+
+	return quicklist
+}
+
 func (q *Quicklist) Len() int {
 	return q.length
 }
diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..2340569 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -36,6 +36,10 @@ func (s *Set) GetRandom() any {
 	return s.dict.GetRandomKey().Key
 }
 
+func (s *Set) DeepCopy() *Set {
+	return &Set{dict: s.dict.DeepCopy()}
+}
+
 func (s *Set) Contains(member any) bool {
 	return s.dict.Find(member) != nil
 }
diff --git a/datastruct/zset.go b/datastruct/zset.go
index c40e2bd..c7c534d 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -141,6 +141,16 @@ func (z *Zset) RangeByScore(min, max float64, limit int64, reverse bool) []*Zset
 	return elements
 }
 
+// DeepCopy returns a copy of the zset that shares nothing with it.
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
+
 // absoluteRanks converts ranks that count from the end to ranks that count from the start.
 func (z *Zset) absoluteRanks(start, end int64) (int64, int64) {
 	if start < 0 {
-- 
2.43.0


From fca135b5f5b4dac3d33a7d36797ecb576eec3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 30/41] fix: replace the AOF file only by a complete and
 durable rewrite

---
 server/aof.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 23c2f2d..9f9be3b 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"io"
 	"os"
-	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -257,7 +257,8 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	// same directory as the AOF file, so that it can be replaced by an atomic rename
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
@@ -397,25 +398,15 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
-	if srv.aofFile != nil {
-		srv.aofFile.Close()
-	}
+	// the AOF buffer is part of the AOF rewrite buffer as well
+	flushAppendOnlyFile(srv)
 
 	tmpAofFilename := <-srv.aofRewriteDoneCh
-	defer os.Remove(tmpAofFilename)
 
-	// occurs error "invalid cross-device link" if use os.Rename
-	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
-		log.Panic("failed to mv",
-			zap.Error(err),
-			zap.String("from", tmpAofFilename),
-			zap.String("to", srv.aofFilename))
-	}
-
-	aofFile, err := os.OpenFile(srv.aofFilename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		log.Panic("failed to open file",
-			zap.Error(err), zap.String("filename", srv.aofFilename))
+			zap.Error(err), zap.String("filename", tmpAofFilename))
 	}
 
 	//  append AOF rewrite buffer to AOF file
@@ -427,6 +418,18 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	srv.aofRewriteBuf.Reset()
 
+	// the file must be complete and durable before it replaces the old one
+	if err := aofFile.Sync(); err != nil {
+		log.Panic("failed to fsync the AOF file", zap.Error(err))
+	}
+
+	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
+		log.Panic("failed to rename",
+			zap.Error(err),
+			zap.String("from", tmpAofFilename),
+			zap.String("to", srv.aofFilename))
+	}
+
 	fileInfo, err := aofFile.Stat()
 	if err != nil {
 		log.Panic("failed to stat file", zap.Error(err))
@@ -434,7 +437,11 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	srv.aofCurrentSize = uint(fileInfo.Size())
 	srv.aofRewriteBaseSize = srv.aofCurrentSize
-	srv.aofFile = aofFile
 
-	aofFileSync(srv)
+	if srv.aofFile != nil {
+		srv.aofFile.Close()
+	}
+
+	srv.aofFile = aofFile
+	srv.aofLastFsyncTime = time.Now()
 }
-- 
2.43.0


From 26ee9ca8900ce17c25b2fdc38d51463f34967c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 31/41] fix: fsync the last writes even if no further write
 follows

---
 server/aof.go    | 18 ++++++++++++++----
 server/server.go |  6 ++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 9f9be3b..a22dc2e 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -109,6 +109,7 @@ func flushAppendOnlyFile(srv *Server) {
 
 	srv.aofBuf.Reset()
 	srv.aofCurrentSize += uint(nWritten)
+	srv.aofUnsynced.Store(true)
 
 	// fsync if needed
 	aofFileSync(srv)
@@ -116,20 +117,28 @@ func flushAppendOnlyFile(srv *Server) {
 
 // aofFileSync syncs the AOF file if needed.
 func aofFileSync(srv *Server) {
+	if !srv.aofUnsynced.Load() {
+		return
+	}
+
 	now := time.Now()
 	if srv.aofFsync == config.TypeAppendFsyncAlways ||
 		(srv.aofFsync == config.TypeAppendFsyncEverySecond && now.Sub(srv.aofLastFsyncTime) > time.Second) {
+		srv.aofUnsynced.Store(false)
+
 		switch srv.aofFsync {
 		case config.TypeAppendFsyncAlways:
 			if err := srv.aofFile.Sync(); err != nil {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
-			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
-					log.Panic("failed to fsync the AOF file", zap.Error(err))
+			go func(aofFile *os.File) {
+				// a file that has been closed was replaced by an AOF rewrite
+				if err := aofFile.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
+					log.Error("failed to fsync the AOF file", zap.Error(err))
+					srv.aofUnsynced.Store(true)
 				}
-			}()
+			}(srv.aofFile)
 		}
 
 		srv.aofLastFsyncTime = now
@@ -444,4 +453,5 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	srv.aofFile = aofFile
 	srv.aofLastFsyncTime = time.Now()
+	srv.aofUnsynced.Store(false)
 }
diff --git a/server/server.go b/server/server.go
index d767f43..a96d0a3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -50,6 +50,7 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
+	aofUnsynced      atomic.Bool // written to aofFile since the last fsync
 	aofSelectDBID    int
 	aofFile          *os.File
 	aofBuf           strings.Builder
@@ -270,6 +271,11 @@ func serverCron(el *ae.EventLoop, id int64, clientData any) {
 	if len(srv.aofRewriteDoneCh) > 0 {
 		aofRewriteDoneCallback(srv)
 	}
+
+	// fsync what was written less than a second after the previous fsync
+	if srv.aofEnable {
+		aofFileSync(srv)
+	}
 }
 
 func databasesCron(srv *Server) {
-- 
2.43.0


From 5319fbdf6641851002b7eb83d5e6a2cb9ea22a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 32/41] fix: refuse BGREWRITEAOF if the append-only file is
 disabled

---
 server/commandserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..0f0d385 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -3,6 +3,10 @@ package server
 func bgRewriteAofCommand(client *Client) error {
 	srv := client.srv
 
+	if !srv.aofEnable {
+		return client.addReplyError("append only file is disabled")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
-- 
2.43.0


From ba1c4de8a1f9e577cd900ff479cbfb0bb6f732f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 33/41] fix: close connections that cannot be read

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index a96d0a3..7ddb80d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -193,6 +193,7 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 			nRead = 0
 		default:
 			log.Error("failed to read", zap.Error(err))
+			client.free()
 
 			return
 		}
-- 
2.43.0


From 9aeab1839f80f226b56f5bb12ecb1c19d7c38f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 34/41] fix: stop the server in an orderly way

---
 ae/ae.go         |  8 ++++----
 server/server.go | 35 +++++++++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/ae/ae.go b/ae/ae.go
index d52cf5b..1062fc5 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -3,6 +3,7 @@ package ae
 import (
 	"container/list"
 	"log"
+	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -57,7 +58,7 @@ type EventLoop struct {
 	timeEventNextID int64
 	beforeSleep     BeforeSleepProc
 	fileEventFd     int
-	stop            bool
+	stop            atomic.Bool
 }
 
 // NewEventLoop creates a new event loop
@@ -71,7 +72,6 @@ func NewEventLoop() (*EventLoop, error) {
 		fileEventMap:  make(map[int]*FileEvent),
 		timeEventHead: list.New(),
 		fileEventFd:   epFd,
-		stop:          false,
 	}, nil
 }
 
@@ -164,7 +164,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 
 // Main runs event loop
 func (el *EventLoop) Main() error {
-	for !el.stop {
+	for !el.stop.Load() {
 		if el.beforeSleep != nil {
 			el.beforeSleep(el)
 		}
@@ -184,7 +184,7 @@ func (el *EventLoop) Main() error {
 
 // Stop stops event loop
 func (el *EventLoop) Stop() {
-	el.stop = true
+	el.stop.Store(true)
 }
 
 // processEvents processes time events and file events
diff --git a/server/server.go b/server/server.go
index 7ddb80d..accf6c8 100644
--- a/server/server.go
+++ b/server/server.go
@@ -42,6 +42,9 @@ type Server struct {
 	dbs             []*database.Databse
 	requirePassword string
 	dirty           int64 // changes to DB from the last save
+	running         atomic.Bool
+	stopping        atomic.Bool
+	doneCh          chan struct{} // closed when the running server has ended
 
 	backgroundTaskTypeAtomic atomic.Uint32
 
@@ -80,6 +83,7 @@ func NewServer(config *config.Config) *Server {
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
+		doneCh:            make(chan struct{}),
 		aofSelectDBID:     -1, // unknown, so that the first write is preceded by SELECT
 	}
 
@@ -113,6 +117,7 @@ func (s *Server) Run() error {
 	if err != nil {
 		log.Fatal("failed to create tcp server", zap.Error(err))
 	}
+	defer close(s.doneCh)
 	defer listenFd.Close()
 
 	eventLoop, err := ae.NewEventLoop()
@@ -137,17 +142,35 @@ func (s *Server) Run() error {
 		loadAppendOnlyFile(s)
 	}
 
-	return eventLoop.Main()
-}
+	s.running.Store(true)
 
-func (s *Server) Stop() {
-	s.eventLoop.Stop()
-	s.fd.Close()
-	close(s.aofRewriteDoneCh)
+	if s.stopping.Load() {
+		eventLoop.Stop()
+	}
+
+	err = eventLoop.Main()
 
 	if s.aofFile != nil {
+		flushAppendOnlyFile(s)
+
+		if err := s.aofFile.Sync(); err != nil {
+			log.Error("failed to fsync the AOF file", zap.Error(err))
+		}
+
 		s.aofFile.Close()
 	}
+
+	return err
+}
+
+// Stop stops the server and waits until its event loop has ended.
+func (s *Server) Stop() {
+	s.stopping.Store(true)
+
+	if s.running.Load() {
+		s.eventLoop.Stop()
+		<-s.doneCh
+	}
 }
 
 func acceptTCPHandler(el *ae.EventLoop, fd socket.FD, extra any) {
-- 
2.43.0


From c11bf140a0f5a5f6d9ebf812506362a9f9b21026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 35/41] fix: refuse NaN as a bound of a score range

---
 server/commandzset.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index b3ec0eb..25ff812 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -9,6 +9,20 @@ import (
 	"github.com/pkg/errors"
 )
 
+// parseScore parses a score or a bound of a score range. NaN is refused, it cannot be ordered.
+func parseScore(arg string) (float64, error) {
+	score, err := strconv.ParseFloat(arg, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if math.IsNaN(score) {
+		return 0, errors.New("not a number")
+	}
+
+	return score, nil
+}
+
 func zAddCommand(client *Client) error {
 	if len(client.args)&1 != 0 {
 		return client.addReplyError("wrong number of arguments for 'zadd' command")
@@ -19,15 +33,11 @@ func zAddCommand(client *Client) error {
 	// check all scores before anything is changed
 	scores := make([]float64, 0, len(client.args)/2)
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
+		score, err := parseScore(client.args[i])
 		if err != nil {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
 
-		if math.IsNaN(score) {
-			return client.addReplyErrorf("invalid score: %s", client.args[i])
-		}
-
 		scores = append(scores, score)
 	}
 
@@ -91,12 +101,12 @@ func zScoreCommand(client *Client) error {
 func zCountCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid min: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid max: %s, error: %v", client.args[3], err)
 	}
@@ -145,12 +155,12 @@ func zRangeCommand(client *Client) error {
 func zRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
@@ -226,12 +236,12 @@ func zRemRangeByRankCommand(client *Client) error {
 func zRemRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
-- 
2.43.0


From 6ac643ff3b243f522d011f0889c1ed5cfddbb0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 36/41] fix: line breaks in the arguments do not split an error
 reply

---
 server/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/client.go b/server/client.go
index 365f6f3..5994ec6 100644
--- a/server/client.go
+++ b/server/client.go
@@ -94,8 +94,11 @@ func (c *Client) addReplyInt(num int64) error {
 	return c.addReplyStringf(":%d\r\n", num)
 }
 
+// errorLine keeps an error reply, which may quote what the client sent, on one line.
+var errorLine = strings.NewReplacer("\r", " ", "\n", " ")
+
 func (c *Client) addReplyError(err string) error {
-	return c.addReplyStringf("-ERR %s\r\n", err)
+	return c.addReplyStringf("-ERR %s\r\n", errorLine.Replace(err))
 }
 
 func (c *Client) addReplyErrorf(format string, args ...any) error {
-- 
2.43.0


From 809d32a008d43891af2035f7286fe999893db43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 37/41] fix: write scores before members in AOF rewrites

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index a22dc2e..406b69f 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -389,7 +389,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From 86decc6f5982a0c2c6874d5dcc8529babed04c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 38/41] fix: make the replacement of the AOF file durable

---
 server/aof.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 406b69f..e75b290 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -439,6 +439,11 @@ func aofRewriteDoneCallback(srv *Server) {
 			zap.String("to", srv.aofFilename))
 	}
 
+	// the replacement must be durable before the old file is given up
+	if err := syncDirectory(filepath.Dir(srv.aofFilename)); err != nil {
+		log.Error("failed to fsync the directory of the AOF file", zap.Error(err))
+	}
+
 	fileInfo, err := aofFile.Stat()
 	if err != nil {
 		log.Panic("failed to stat file", zap.Error(err))
@@ -455,3 +460,14 @@ func aofRewriteDoneCallback(srv *Server) {
 	srv.aofLastFsyncTime = time.Now()
 	srv.aofUnsynced.Store(false)
 }
+
+// syncDirectory makes the entries of a directory durable.
+func syncDirectory(name string) error {
+	dir, err := os.Open(name)
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+
+	return dir.Sync()
+}
-- 
2.43.0


From 9b32cb80b744ac73148062b55e18b579ac986941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 39/41] fix: shrink sparse dicts so that picking a key does not
 search emptied tables

---
 datastruct/dict.go | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index c58f46a..d95c697 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -14,6 +14,8 @@ const (
 	forceResizeRatio = 1
 	resizeRatio      = 2
 	rehashStepCount  = 1
+	minFillRatio     = 8   // a table with fewer than 1/8 of its slots used is shrunk
+	maxEmptyVisits   = 128 // number of empty slots one step of rehashing visits at most
 )
 
 var (
@@ -65,6 +67,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 func (di *DictIterator) Release() {
 	if di.index != -1 {
 		di.dict.iterators--
+		di.dict.shrinkIfNeeded()
 	}
 }
 
@@ -215,6 +218,7 @@ func (d *Dict) Delete(key any) error {
 				}
 
 				d.hashTables[table].used--
+				d.shrinkIfNeeded()
 
 				return nil
 			}
@@ -348,13 +352,37 @@ func (d *Dict) expand(size int64) error {
 		return nil
 	}
 
-	// Prepare a second hash table for incremental rehashing
-	d.hashTables[1] = table
-	d.rehashIndex = 0
+	d.startRehash(table)
 
 	return nil
 }
 
+// shrinkIfNeeded prepares a smaller table when few of the slots are used,
+// so that neither iterating nor picking a random key has to visit many empty slots.
+func (d *Dict) shrinkIfNeeded() {
+	if d.isRehashing() || d.iterators > 0 {
+		return
+	}
+
+	size := d.hashTables[0].size
+	if size <= tableInitialSize || d.hashTables[0].used*minFillRatio >= size {
+		return
+	}
+
+	realSize := GetNextPower(d.hashTables[0].used)
+	d.startRehash(&hashTable{
+		tables:   make([]*DictEntry, realSize),
+		size:     realSize,
+		sizeMask: realSize - 1,
+	})
+}
+
+// startRehash prepares a second hash table for incremental rehashing.
+func (d *Dict) startRehash(table *hashTable) {
+	d.hashTables[1] = table
+	d.rehashIndex = 0
+}
+
 func (d *Dict) rehashStep() {
 	if d.iterators == 0 {
 		d.rehash(rehashStepCount)
@@ -368,12 +396,17 @@ func (d *Dict) rehash(step int) {
 			// Free the old hash table and set the new one as main
 			d.hashTables[0], d.hashTables[1] = d.hashTables[1], nil
 			d.rehashIndex = -1
+			d.shrinkIfNeeded()
 
 			return
 		}
 
 		// Find non empty slot index
-		for d.hashTables[0].tables[d.rehashIndex] == nil {
+		for visits := 0; d.hashTables[0].tables[d.rehashIndex] == nil; visits++ {
+			if visits == maxEmptyVisits {
+				return
+			}
+
 			d.rehashIndex++
 		}
 
-- 
2.43.0


From 19778c79b2cbfc2ba1ac578c718fdbe84a0e3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 40/41] fix: keep running when the edited configuration file
 cannot be loaded

---
 config/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index ce472e3..66cc1c0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -64,7 +64,9 @@ func LoadConfig(configFile, configType string) *Config {
 
 		viper.OnConfigChange(func(e fsnotify.Event) {
 			if err := viper.Unmarshal(&config); err != nil {
-				log.Fatalln("failed to unmarshal from config:", err)
+				log.Println("failed to reload config:", err)
+
+				return
 			}
 
 			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
-- 
2.43.0


From b1796f24db17908b39e2959103d9cfad3c946310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:31 +0000
Subject: [PATCH 41/41] fix: run timers on a clock that setting the system time
 does not affect

---
 ae/ae.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ae/ae.go b/ae/ae.go
index 1062fc5..460ed1b 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -321,7 +321,10 @@ func getFileEventType(epollEventType uint32) TypeFileEvent {
 	}
 }
 
-// now returns current time in milliseconds
+// startTime is what now refers to
+var startTime = time.Now()
+
+// now returns current time in milliseconds, by a clock that is not affected by setting the system time
 func now() int64 {
-	return time.Now().UnixMilli()
+	return time.Since(startTime).Milliseconds()
 }
-- 
2.43.0

