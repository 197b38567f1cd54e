From 77cfd01786e5b3281437a298b0b90be3b64b028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 01/38] fix: keep the bytes of number-like strings

Set("007") read back as "7" and Set("1.10") as "1.1": store a number only when it formats back to the same text.
---
 cache/cachestring.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..5712d26 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -14,10 +14,10 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == value {
 		// try float
 		return f
 	}
@@ -289,6 +289,14 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		f := float64(val) + increment
 		c.dataDict.Store(key, f)
 		return f, nil
+	case string:
+		f, err := strconv.ParseFloat(val, 64)
+		if err != nil {
+			return 0, ErrWrongType
+		}
+		f += increment
+		c.dataDict.Store(key, f)
+		return f, nil
 	default:
 		return 0, ErrWrongType
 	}
-- 
2.43.0


From 48b033393e95b5d4758a281d9dfb16f8d30dab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 02/38] fix: overwriting a key drops its old deadline, expired
 keys count as absent

After SetEX ran out, Set stored a value that the stale deadline deleted on the next Get; SetNX and the increments saw the dead value.
---
 cache/cachestring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5712d26..44b5367 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -10,6 +10,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 	return OK, nil
 }
 
@@ -30,6 +31,7 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -104,6 +106,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -239,6 +242,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -275,6 +279,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return increment, nil
@@ -323,6 +328,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expires(k, 0)
 	}
 
 	return OK
@@ -335,6 +341,7 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	n := 0
 
 	for k, v := range kv {
+		c.expired(k)
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From 46bd0420a162c41b7c77b1ad16a2e296d75ebb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 03/38] fix: Exists ignores expired keys, Type recognises
 hashes

---
 cache/cachedb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..79b1c8f 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -23,7 +23,7 @@ func (c *Cache) Flush() {
 
 func (c *Cache) Exists(keys ...string) (n int){
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
@@ -38,7 +38,7 @@ func (c *Cache)Type(key string) string {
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From bf3a2067d6bcb3dc76db85d8b02d52c9504583f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:34 +0000
Subject: [PATCH 04/38] fix: the sweep walks the deadlines, not the values

Walking dataDict it found no time.Time and deleted every key each 2 seconds.
---
 cache/cachecron.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..ebf321e 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,7 +6,7 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
-- 
2.43.0


From 0ce74e2ef49be6eefdf8782f5d7fee2858c9fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 05/38] fix: GetSet leaves a key of the wrong type alone

---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 44b5367..5b3814f 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -104,6 +104,9 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	old, ok := c.get(key)
+	if _, err := fmtString(old); ok && err != nil {
+		return "", err
+	}
 
 	c.dataDict.Store(key, tryInt64(value))
 	c.expires(key, 0)
-- 
2.43.0


From ba2d44ee3aa19b5a234cd50b86e220fd06bbc89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 06/38] fix: increments refuse to overflow and depend only on
 the stored text

Incr past MaxInt64 wrapped around; IncrByFloat failed after Incr on a new key, and Incr failed on a 3 produced by IncrByFloat.
---
 cache/cache.go       |  2 ++
 cache/cachestring.go | 18 +++++++++++++-----
 cache/cacheutil.go   | 15 ++++++++++++++-
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..0acbed6 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -31,4 +31,6 @@ var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
+var ErrOverflow = errors.New("increment or decrement would overflow")
+
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5b3814f..102b52d 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -246,7 +247,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
 	c.expired(key)
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, int(increment))
 	if !ok {
 		return int(increment), nil
 	}
@@ -267,6 +268,9 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 		val = t + int32(increment)
 		n = int(t + int32(increment))
 	case int:
+		if addOverflows(t, int(increment)) {
+			return 0, ErrOverflow
+		}
 		val = t + int(increment)
 		n = t + int(increment)
 	default:
@@ -283,7 +287,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	defer c.lock.Unlock()
 
 	c.expired(key)
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, fmtFloat(increment))
 	if !ok {
 		return increment, nil
 	}
@@ -291,11 +295,11 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
-		c.dataDict.Store(key, val)
+		c.dataDict.Store(key, fmtFloat(val))
 		return val, nil
 	case int:
 		f := float64(val) + increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, fmtFloat(f))
 		return f, nil
 	case string:
 		f, err := strconv.ParseFloat(val, 64)
@@ -303,7 +307,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 			return 0, ErrWrongType
 		}
 		f += increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, fmtFloat(f))
 		return f, nil
 	default:
 		return 0, ErrWrongType
@@ -321,6 +325,10 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if decrement == math.MinInt64 {
+		return 0, ErrOverflow
+	}
+
 	return c.incrBy(key, -decrement)
 
 }
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..24915ad 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -1,6 +1,10 @@
 package cache
 
-import "time"
+import (
+	"math"
+	"strconv"
+	"time"
+)
 
 // if key is expired
 func (c *Cache) expired(key string) bool {
@@ -33,6 +37,15 @@ func (c *Cache) expires(key string, duration time.Duration) {
 	}
 }
 
+// a float is stored like the text it reads back as
+func fmtFloat(f float64) interface{} {
+	return tryInt64(strconv.FormatFloat(f, 'f', -1, 64))
+}
+
+func addOverflows(a, b int) bool {
+	return b > 0 && a > math.MaxInt64-b || b < 0 && a < math.MinInt64-b
+}
+
 func (c *Cache) get(key string) (value interface{},ok bool){
 	val, ok := c.dataDict.Load(key)
 	if !ok{
-- 
2.43.0


From f99605351e32fd9f1ac47c64f5d1333ed6ca614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 07/38] fix: GetRange does not count up from a far negative
 start

GetRange(key, math.MinInt64, -1) looped for centuries while holding the lock.
---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 102b52d..57c9fa8 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -215,6 +215,9 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	if start < 0 {
 		start = len(oldStr) + start
 	}
+	if start < 0 {
+		start = 0
+	}
 	if end < 0 {
 		end = len(oldStr) + end
 	}
-- 
2.43.0


From 784bc9741595d36a64105c9fd9c5e36074fbdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 08/38] fix: SetRange refuses offsets beyond 512MB like redis

SetRange(key, math.MaxInt64, "x") panicked in makeslice or ran out of memory.
---
 cache/cachestring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 57c9fa8..7a394c0 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -27,6 +27,9 @@ func tryInt64(value string) interface{} {
 	return value
 }
 
+// longest string value, as in redis
+const maxStringLength = 512 * 1024 * 1024
+
 // SET if Not eXists
 func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
@@ -159,7 +162,7 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	if pos < 0 {
+	if pos < 0 || pos > maxStringLength-len(replace) {
 		return 0, ErrOffsetOutOfRange
 	}
 
-- 
2.43.0


From c1c96dbfb4c26177866e7251ea05d4f7d7db9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 09/38] fix: HExists does not shrink HLen

---
 cache/cachehash.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..4df25e9 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -99,8 +99,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
-- 
2.43.0


From 380a02b8335203d9e1f25335698f3485c9c7d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 10/38] fix: hash increments store the sum and accept stored
 floats

HIncrBy(5) on a field holding 1 returned 6 and stored 5; HIncrByFloat refused fields holding 1.5; integers written by HSetNX could not be incremented.
---
 cache/cachehash.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 4df25e9..e1214ce 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -76,7 +76,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
@@ -180,6 +180,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 			err = ErrHashValueIsNotFloat
 		}
 	case int:
+		if addOverflows(val, increment) {
+			return 0, ErrOverflow
+		}
 		n = val + increment
 	case int32:
 		n = int(val) + increment
@@ -194,7 +197,7 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	}
 
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -223,9 +226,13 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
+		}else if f, err = strconv.ParseFloat(val, 64); err == nil{
+			f += increment
 		}else{
-			err = ErrHashValueIsNotFloat
+			f, err = 0, ErrHashValueIsNotFloat
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
@@ -241,7 +248,7 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From 93ee4781ac4e81ffa70541f817f28ed522d961fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 11/38] fix: HKeys, HVals and HGetAll return every field and
 survive a missing key

All three dereferenced nil on a missing key, HVals skipped numbers, HGetAll returned nothing.
---
 cache/cachehash.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index e1214ce..c28eef9 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -303,6 +303,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -320,8 +324,12 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil{
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
+		if field, err := fmtString(value); err == nil{
 			values = append(values, field)
 		}
 		return true
@@ -337,9 +345,14 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	kv = make(map[string]string)
+	if he == nil{
+		return kv, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From efe783a830823599e1b457357214bab80d4c54e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 12/38] fix: every command takes the cache lock

Hash commands, MSet, MSetNX, MGet, Exists and Type ran unlocked, so concurrent HSet/HIncrBy lost updates and corrupted HLen.
Reads lock exclusively because they delete expired keys: under RLock a second reader could load the value before
the first one deletes it and look for the deadline after, and return an expired value.
---
 cache/cachedb.go     |  6 ++++++
 cache/cachehash.go   | 42 ++++++++++++++++++++++++++++++++++++++++++
 cache/cachestring.go | 24 ++++++++++++------------
 3 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 79b1c8f..6cc081c 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	for _, key := range keys{
 		if _, ok := c.get(key); ok{
 			n++
@@ -32,6 +35,9 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
diff --git a/cache/cachehash.go b/cache/cachehash.go
index c28eef9..b85b141 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -104,6 +113,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -129,6 +141,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -143,6 +158,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -156,6 +174,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -206,6 +227,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -255,6 +279,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -274,6 +301,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -298,6 +328,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -319,6 +352,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -340,6 +376,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -364,6 +403,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 7a394c0..5e157e7 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -92,8 +92,8 @@ func fmtString(v interface{}) (str string, err error) {
 
 
 func (c *Cache) Get(key string) (string, error) {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	val, ok := c.get(key)
 	if !ok{
@@ -123,8 +123,8 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 }
 
 func (c *Cache) StrLen(key string) (int, error) {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	val, ok := c.dataDict.Load(key)
 	if !ok || c.expired(key) {
@@ -203,8 +203,8 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 }
 
 func (c *Cache) GetRange(key string, start, end int) (string, error) {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	old, ok := c.dataDict.Load(key)
 	if !ok || c.expired(key) {
@@ -340,8 +340,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -352,8 +352,8 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
@@ -368,8 +368,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From 473d1ecb508f76d229766ff3c786f5bc225f9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:07 +0000
Subject: [PATCH 13/38] fix: a replicated command cannot crash the process,
 hmset is applied

A short SET indexed out of range, any RPUSH (so any list in the snapshot) hit panic("implement me"), HMSET was accepted and dropped.
---
 cache/message.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index d915d1f..047fc4c 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -18,22 +18,25 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
-		_, err = cache.Set(messages[1].String(), messages[2].String())
-	case "rpush":
-		if len(messages) < 2 {
-			return errors.New("rpush command args error")
+		if len(messages) != 3 {
+			return errors.New("set command args error")
 		}
 
-		var values []string
-		for i := 2; i < len(messages); i++ {
-			values = append(values, messages[i].String())
-		}
-		_, err = cache.RPush(messages[1].String(), values...)
+		_, err = cache.Set(messages[1].String(), messages[2].String())
+	case "rpush":
+		// cache.RPush is not implemented, it panics
+		return errors.New("rpush command is not supported")
 	case "hmset":
-		if len(messages) < 2 {
+		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New("hmset command args error")
 		}
 
+		fv := make(map[string]string)
+		for i := 2; i < len(messages); i += 2 {
+			fv[messages[i].String()] = messages[i+1].String()
+		}
+		_, err = cache.HMSet(messages[1].String(), fv)
+
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
-- 
2.43.0


From 645507fdc53b9752dadb6cf6df582296c3747a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 14/38] fix: the client's cache is initialised

new(cache.Cache) has no dictionaries, so the first Get or replicated SET dereferenced nil.
---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..0c3a0c8 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From 3f3fa0197a97c795cd71e97678a05cbacc4e8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 15/38] fix: Get asks redis for keys the cache does not have,
 as the README says

---
 command.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index b33bdcd..6202982 100644
--- a/command.go
+++ b/command.go
@@ -1,6 +1,7 @@
 package xxcache
 
 import (
+	"github.com/liujiangwei/xxcache/cache"
 	"time"
 )
 
@@ -75,7 +76,12 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	val, err := client.cache.Get(key)
+	if err == cache.ErrKeyNil {
+		return client.redis.Get(key)
+	}
+
+	return val, err
 }
 
 func (client Client) Set(key string, value string) (string, error) {
-- 
2.43.0


From f196d561360a5d4b18dc5dd095275bea76d90ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 16/38] fix: the replication consumer neither blocks on its own
 channel nor spins

Two failing commands in a row filled repl.Err, which only this goroutine drains; a closed Messages channel made it loop on zero messages.
---
 xxcache.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xxcache.go b/xxcache.go
index 0c3a0c8..8d957fa 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -63,13 +63,16 @@ func New(option Option) (client Client, err error) {
 func (client *Client) handleReplication(repl redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-repl.Messages:
+			if !ok {
+				return
+			}
 			if message.Database != client.option.database {
 				continue
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("repl error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From fe28d0302ae9b754d4790c69d564856ca4844986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 17/38] fix: replies are read completely, however the stream is
 split

Reader.Read returned part of a bulk string that spans packets, ReadLine cut lines at 4096 bytes and accepted a line cut off by EOF.
---
 redis/conn.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..9c9e33a 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -2,6 +2,7 @@ package redis
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -96,9 +97,30 @@ func (c Conn) readBulkString(length int) string {
 }
 
 func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	eof := make([]byte, len(MessageEOF))
+	if _, err := io.ReadFull(c.Reader, eof); err != nil {
+		return err
+	}
+
+	if string(eof) != MessageEOF {
+		return errors.New("bulk string is not followed by " + strconv.Quote(MessageEOF))
+	}
+
+	return nil
+}
+
+// read a line of any length, without its ending
+func (c Conn) readLine() ([]byte, error) {
+	line, err := c.Reader.ReadBytes('\n')
+	if err != nil {
+		return nil, err
+	}
+
+	if !bytes.HasSuffix(line, []byte(MessageEOF)) {
+		return nil, errors.New("line does not end with " + strconv.Quote(MessageEOF))
+	}
 
-	return err
+	return line[:len(line)-len(MessageEOF)], nil
 }
 
 // save message content to io reader
@@ -116,7 +138,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
@@ -139,7 +161,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolBulkString, length, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolSimpleString, 0, err
 		}
@@ -147,21 +169,21 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolSimpleString, n, err
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolError, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolError, n, err
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolInt, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolInt, n, err
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolArray, 0, err
 		}
@@ -182,7 +204,7 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -198,7 +220,7 @@ func (c Conn) readMessage() (Message, error) {
 
 		// read data
 		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		if _, err := io.ReadFull(c.Reader, data); err != nil {
 			return nil, err
 		}
 
@@ -210,21 +232,21 @@ func (c Conn) readMessage() (Message, error) {
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -234,7 +256,7 @@ func (c Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e18a1227a150755eb2f28dfe11ae0073add3b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:12 +0000
Subject: [PATCH 18/38] fix: a bad length from the server is an error, not a
 panic

"$-5" panicked in makeslice, "*-1" read as an empty array.
---
 redis/conn.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 9c9e33a..4db8af7 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -195,6 +195,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	}
 }
 
+// proto-max-bulk-len of redis
+const maxBulkLength = 512 * 1024 * 1024
+
 func (c Conn) readMessage() (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
@@ -218,6 +221,10 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
+		if length < 0 || length > maxBulkLength {
+			return nil, errors.New("invalid bulk length " + strconv.Itoa(length))
+		}
+
 		// read data
 		var data = make([]byte, length)
 		if _, err := io.ReadFull(c.Reader, data); err != nil {
@@ -265,6 +272,14 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
+		if number == -1 {
+			return NilMessage{}, nil
+		}
+
+		if number < 0 {
+			return nil, errors.New("invalid array length " + strconv.Itoa(number))
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
 			if message, err := c.readMessage(); err != nil {
-- 
2.43.0


From fb7ebab2e4d00dac3c56f2979a3b52fbe50ea514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 19/38] fix: ReadWithWriter reports a failing writer and a
 negative length

The error of the final flush was dropped, so a snapshot cut short by a full disk looked complete.
---
 redis/conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 4db8af7..3462d8a 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -124,7 +124,7 @@ func (c Conn) readLine() ([]byte, error) {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
+func (c Conn) ReadWithWriter(writer io.Writer) (p Protocol, n int, err error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
@@ -133,7 +133,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-		_ = buf.Flush()
+		if e := buf.Flush(); err == nil {
+			err = e
+		}
 	}()
 
 	switch protocol {
@@ -149,6 +151,10 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			return ProtocolBulkString, 0, err
 		}
 
+		if length < 0 {
+			return ProtocolBulkString, 0, errors.New("invalid bulk length " + strconv.Itoa(length))
+		}
+
 		for i := 0; i < length; i++ {
 			b, err := c.Reader.ReadByte()
 			if err != nil {
-- 
2.43.0


From b524190f91e149a61ebd779a49ccbc519e418ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 20/38] fix: SetNX, SetEX, PSetEX and IncrBy send their own
 command

SetEX and PSetEX sent SETNX with three arguments, IncrBy sent INCR with two, and SetNX took its integer reply for an error.
---
 redis/redis.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..9f3f5d5 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -90,17 +90,17 @@ func (redis *Redis) Select(index int) (string, error) {
 	return rc.Result()
 }
 
-func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+func (redis *Redis) SetNX(key, value string) (int, error) {
+	rc := IntCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
-	return rc.Result()
+	return rc.Val, rc.Err
 }
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -108,7 +108,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -175,7 +175,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From 5531fbadf4935fed85aaa1b6b154309a5f92cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 21/38] fix: replies become results, unexpected replies become
 errors

IncrByFloat always returned 0 (inverted test), Set and MSet returned "" for OK, replies of the wrong type were ignored.
---
 redis/command.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..65ab83b 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -41,6 +41,11 @@ type StringCommand struct {
 }
 
 func (cmd *StringCommand) Parse(message Message) {
+	if _, ok := message.(ArrayMessage); ok {
+		cmd.Err = errors.New("failed to parse response")
+		return
+	}
+
 	cmd.Val = message.String()
 }
 
@@ -55,6 +60,8 @@ type FloatCommand struct {
 
 func (cmd *FloatCommand) Parse(message Message) {
 	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+		cmd.Err = err
+	} else {
 		cmd.Val = val
 	}
 }
@@ -71,6 +78,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
 
@@ -108,11 +117,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
@@ -135,5 +148,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
-- 
2.43.0


From 52d1c2a75adfc51244b6d86d463904dd7dab1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:17 +0000
Subject: [PATCH 22/38] fix: a failed dial does not leave the pool locked, a
 failed handshake no connection open

---
 redis/pool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..1658f7a 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -43,6 +43,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		if pool.size < pool.capacity {
 			conn, err := pool.create()
 			if err != nil {
+				pool.l.Unlock()
 				return nil, err
 			}
 			pool.size++
@@ -66,7 +67,8 @@ func (pool Pool) create() (conn *Conn, err error) {
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
-			return conn, err
+			_ = conn.Close()
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 1b10d5d7439cc8efe8dfe751183c59a29afab7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:41 +0000
Subject: [PATCH 23/38] fix: rdb lengths and binary doubles are decoded, a
 short read is an error

32 and 64 bit lengths and binary doubles were always 0, a length cut off after its first byte panicked.
---
 redis/rdb/rdb.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..bd61836 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -2,7 +2,6 @@ package rdb
 
 import (
 	"bufio"
-	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -10,6 +9,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -57,8 +57,6 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			//l := (buf[0] & 0x3F << 8) | buf[1]
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
-		} else {
-			panic("failed to load BitLen14")
 		}
 	default:
 		// compare first byte
@@ -66,21 +64,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
@@ -215,8 +207,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
-	return f, err
+	return math.Float64frombits(binary.LittleEndian.Uint64(buf)), nil
 }
 
 const (
-- 
2.43.0


From 1eeb99dd229c15da26153a56e611a1e8110175dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:42 +0000
Subject: [PATCH 24/38] fix: rdb integer strings are signed, a short one is an
 error

-1000 read back as 64536, and an EOF in a 32 bit integer ended the process.
---
 redis/rdb/rdb.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index bd61836..4066e64 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -8,7 +8,6 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
 	"math"
 	"strconv"
 	"unsafe"
@@ -111,17 +110,17 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New("failed to read 2 bytes for EncInt16")
 			}
 
-			num := binary.LittleEndian.Uint16(buf)
+			num := int16(binary.LittleEndian.Uint16(buf))
 			str = fmt.Sprintf("%d", num)
 		case EncInt32:
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-			num := binary.LittleEndian.Uint32(buf)
+			num := int32(binary.LittleEndian.Uint32(buf))
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
 			str = fmt.Sprintf("%d", num)
 		case EncLzf:
-- 
2.43.0


From c7d309e8a1f9b8ca288b57e265f1f63d7194bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 25/38] fix: rdb strings are read completely

A string that crossed the reader's buffer came back padded with zeros; a corrupt length panicked in makeslice; a compressed string that does not decompress came back compressed.
---
 redis/rdb/rdb.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 4066e64..c693705 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -86,6 +86,9 @@ const EncInt16 = 1
 const EncInt32 = 2
 const EncLzf = 3
 
+// longest string value, as in redis
+const maxStringLength = 512 * 1024 * 1024
+
 func LoadString(reader *bufio.Reader) (str string, err error) {
 	var length uint64
 	var encoded bool
@@ -137,6 +140,10 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
+			if n > maxStringLength || length > maxStringLength {
+				return str, errors.New("string longer than 512MB")
+			}
+
 			var c = make([]byte, n)
 			if n, err := io.ReadFull(reader, c); err != nil {
 				return str, err
@@ -145,6 +152,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			}
 
 			str = lzf.DeCompress(string(c), int(length))
+			if len(str) != int(length) {
+				return "", errors.New("failed to decompress string")
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
@@ -153,8 +163,12 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
+	if length > maxStringLength {
+		return str, errors.New("string longer than 512MB")
+	}
+
 	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
+	if _, err := io.ReadFull(reader, buf); err != nil {
 		return str, err
 	}
 	str = string(buf)
-- 
2.43.0


From 147685ea5e5da8cea95d17409b2ceac7dd84c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 26/38] fix: infinite rdb scores are infinite

+inf and nan loaded as 1, -inf as -1.
---
 redis/rdb/rdb.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index c693705..1704cd7 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -180,11 +180,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 //R_PosInf = 1.0/R_Zero;
 //RNegInf = -1.0/R_Zero;
 //RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
-- 
2.43.0


From 296f673064c88bd3ef37c20019588997d19e3663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 27/38] fix: an rdb record that cannot be read is an error

Streams, modules and unknown types ended the load as if it had succeeded, or let it go on in the middle of the record.
---
 redis/replication.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..a969fd6 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -180,7 +180,7 @@ func (repl *Replication) Load() (err error) {
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
 	// start to load rdb file
@@ -524,6 +524,12 @@ func (repl *Replication) Load() (err error) {
 				err = errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
 				err = errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				err = fmt.Errorf("unknown object type %d", opCode)
+			}
+
+			if err != nil {
+				return err
 			}
 
 			if expiresTime > 0 {
@@ -539,7 +545,7 @@ func (repl *Replication) Load() (err error) {
 		}
 	}
 
-	return nil
+	return err
 }
 
 type ReplicationMessage struct {
-- 
2.43.0


From bf0705b677f68682d6c17ec4f6134ed893727b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 28/38] fix: lists from an rdb keep their order

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index a969fd6..37df278 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -315,7 +315,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
-- 
2.43.0


From 57f7f3b3177e647b655fea32ec80b19a4dfefca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 29/38] fix: hashes from an rdb become hmset, not zadd

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 37df278..06ba1a0 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -398,7 +398,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
-- 
2.43.0


From 9aaf1cbb81232f4120e4b1df82aafa5b4afa5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 30/38] fix: zadd takes the score before the member

---
 redis/replication.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 06ba1a0..ca3438f 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -369,7 +369,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -382,7 +381,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -480,7 +479,7 @@ func (repl *Replication) Load() (err error) {
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From efb64b9701d5cafe469bc8341a158bc267289623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:51 +0000
Subject: [PATCH 31/38] fix: rdb deadlines are absolute

The unix time in milliseconds was sent as pexpire, a duration, and a deadline in seconds overflowed 32 bits.
---
 redis/replication.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index ca3438f..160ceff 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -199,7 +199,7 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
@@ -532,7 +532,7 @@ func (repl *Replication) Load() (err error) {
 			}
 
 			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
-- 
2.43.0


From b70b8953077d5cef6876de0b21e7ea606ecc7d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 32/38] fix: intset members are signed

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..16c3846 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -24,7 +24,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 2*i
 			end := 8 + 2*(i+1)
 
-			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
+			num := int16(binary.LittleEndian.Uint16([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt32:
@@ -32,7 +32,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 4*i
 			end := 8 + 4*(i+1)
 
-			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
+			num := int32(binary.LittleEndian.Uint32([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt64:
-- 
2.43.0


From cec0b9b03edb3e4129d1bb9ab9bba7f0672c17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:53 +0000
Subject: [PATCH 33/38] fix: zipmap entries follow each other without a gap

Only the first entry of a zipmap was read correctly; Set left out the free byte.
---
 redis/zipmap/zipmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..78323aa 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -66,6 +66,8 @@ func (zm *zipMap) Set(key string, value string) error {
 		} else {
 			buf.WriteByte(uint8(len(value)))
 		}
+		// free
+		buf.WriteByte(0)
 		//value
 		if n, err := buf.WriteString(value); err != nil {
 			return err
@@ -103,7 +105,7 @@ func (zm *zipMap) BlobLen() int {
 }
 
 func (zm *zipMap) Lookup(key string) (n int, ok bool) {
-	for i := 1; i < len(zm.value) && zm.value[i] != End; i++ {
+	for i := 1; i < len(zm.value) && zm.value[i] != End; {
 		// key length
 		kl := int(zm.value[i])
 		i++
@@ -159,7 +161,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; i < len(encoded)-1; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
-- 
2.43.0


From a1e7814888ad55d45b8f33037dc821f793ef5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 34/38] fix: ziplist entries longer than 63 bytes and integers
 are decoded

Long strings got the wrong length and started inside their header, integers came back as raw bytes.
---
 redis/ziplist/ziplist.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..1bf8097 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,14 +93,17 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = uint32(iterator.val[pos+1])<<24 | uint32(iterator.val[pos+2])<<16 | uint32(iterator.val[pos+3])<<8 | uint32(iterator.val[pos+4])
 		default:
 			panic("failed to decode zip list item")
 		}
+
+		start := iterator.pos + int(size)
+		str = iterator.val[start : start+int(length)]
 	} else {
 		size = 1
 		switch encoding {
@@ -113,7 +116,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -122,15 +125,26 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 				panic("failed to decode zip list item")
 			}
 		}
-	}
 
-	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		if length > 0 {
+			str = strconv.FormatInt(littleEndian(iterator.val[iterator.pos+1:iterator.pos+1+int(length)]), 10)
+		}
 	}
 
 	return length, size, str
 }
 
+// signed little endian integer of up to 8 bytes
+func littleEndian(bytes string) int64 {
+	var num uint64
+	for i := len(bytes) - 1; i >= 0; i-- {
+		num = num<<8 | uint64(bytes[i])
+	}
+
+	shift := uint(64 - 8*len(bytes))
+	return int64(num<<shift) >> shift
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
-- 
2.43.0


From 440b14a69a3261c2e94cf65f47631fcdd1c62e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 35/38] fix: every string survives Compress and DeCompress

Both panicked on the empty string, and a string left uncompressed was decompressed if it happened to look compressed.
---
 redis/lzf/lzf.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..a4b84a1 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -9,9 +9,14 @@ import (
 )
 
 func Compress(str string) string {
-	encoded := make([]byte, len(str))
+	if len(str) < 2 {
+		return str
+	}
+
+	// a result as long as str would not be told from one left as it is
+	encoded := make([]byte, len(str)-1)
 	input := []byte(str)
-	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
+	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(encoded)))
 	if length == 0 {
 		return str
 	}
@@ -20,10 +25,15 @@ func Compress(str string) string {
 }
 
 func DeCompress(str string, length int) string {
+	// Compress left it as it is
+	if len(str) == length || str == "" || length < 1 {
+		return str
+	}
+
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-	if dl == 0 {
+	if int(dl) != length {
 		return str
 	}
 	return string(decoded)
-- 
2.43.0


From e58cb029ac1351e07e914bc57e29b6723660e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 36/38] fix: replicated commands carry the database the master
 selected

SELECT was forwarded as a command and every message was tagged with database 0.
---
 redis/replication.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 160ceff..d6c23ea 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -74,6 +74,7 @@ func (repl *Replication) SyncWithRedis() error {
 }
 
 func (repl *Replication) WaitForMessage() {
+	var database int
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
@@ -87,8 +88,17 @@ func (repl *Replication) WaitForMessage() {
 			continue
 		}
 
+		if args, ok := message.(ArrayMessage); ok && len(args) == 2 && strings.ToLower(args[0].String()) == "select" {
+			if database, err = strconv.Atoi(args[1].String()); err != nil {
+				repl.Err <- err
+				close(repl.Messages)
+				return
+			}
+			continue
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: database,
 			Message:  message,
 			Offset:   0,
 		}
-- 
2.43.0


From ef46579dfea90dee3175c0dbdc65c6cf14f3ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 37/38] fix: an array is not a float reply

---
 redis/command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 65ab83b..6a43e39 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -59,6 +59,11 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
+	if _, ok := message.(ArrayMessage); ok {
+		cmd.Err = errors.New("failed to parse response")
+		return
+	}
+
 	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
 		cmd.Err = err
 	} else {
-- 
2.43.0


From a2d2b4887b62fb3307a23b4561eedd17eed35eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:11 +0000
Subject: [PATCH 38/38] fix: strings of 4 GB and more survive Compress and
 DeCompress

C.uint cut their length, 4294967396 bytes compressed to 9.
---
 redis/lzf/lzf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index a4b84a1..c90d913 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -5,11 +5,12 @@ package lzf
 */
 import "C"
 import (
+	"math"
 	"unsafe"
 )
 
 func Compress(str string) string {
-	if len(str) < 2 {
+	if len(str) < 2 || uint64(len(str)) > math.MaxUint32 {
 		return str
 	}
 
@@ -26,7 +27,7 @@ func Compress(str string) string {
 
 func DeCompress(str string, length int) string {
 	// Compress left it as it is
-	if len(str) == length || str == "" || length < 1 {
+	if len(str) == length || str == "" || length < 1 || uint64(len(str)) > math.MaxUint32 {
 		return str
 	}
 
-- 
2.43.0

