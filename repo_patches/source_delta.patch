From d707d858fc007f00c0d5d064292940cad1611177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 01/26] fix: SyncTokenBucket must not issue tokens for the time
 it was full

---
 ratelimiter/tokenbucket.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..4ec0bdd 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -83,10 +83,12 @@ func (t *SyncTokenBucket) Acquire() bool {
 }
 
 func (t *SyncTokenBucket) issueIfNecessary() {
+	now := t.nowFn().UnixNano()
 	if t.tokens >= t.capacity {
+		// no token is issued while the bucket is full, so the time spent full must not count later
+		t.lastIssueTimestamp = now
 		return
 	}
-	now := t.nowFn().UnixNano()
 
 	elapse := now - t.lastIssueTimestamp
 	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
-- 
2.43.0


From ff1be2b3788a11b2d4fe5fc167859b6eb70d5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 02/26] fix: AtomicTokenBucket must not issue the tokens of an
 interval twice, nor those of the time it was full

---
 ratelimiter/tokenbucket.go | 52 +++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 4ec0bdd..54b50fe 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -140,40 +140,40 @@ func (t *AtomicTokenBucket) Acquire() bool {
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
 	for {
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		if oldTokens >= int64(t.capacity) {
-			return
-		}
-
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
 		now := t.nowFn().UnixNano()
+		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
 
-		nowNano := now
-		elapse := nowNano - oldLit
-		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
-
-		if delta == 0 {
+		var delta int64
+		if atomic.LoadInt64(&t.tokens) < int64(t.capacity) {
+			elapse := now - oldLit
+			delta = elapse / int64(time.Second) * int64(t.issueRatePerSecond)
+			if delta <= 0 {
+				return
+			}
+		} else if now <= oldLit {
 			return
 		}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
-
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
+		// Whoever moves the timestamp forward issues the tokens of the elapsed time, so that they are issued only once.
+		// No token is issued while the bucket is full, so the time spent full must not count later.
+		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {
 			continue
 		}
+		t.issue(delta)
+		return
+	}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
-			}
-			continue
-		}
+}
 
-		break
+func (t *AtomicTokenBucket) issue(delta int64) {
+	for {
+		oldTokens := atomic.LoadInt64(&t.tokens)
+		newTokens := oldTokens + delta
+		if newTokens > int64(t.capacity) {
+			newTokens = int64(t.capacity)
+		}
+		if newTokens <= oldTokens || atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+			return
+		}
 	}
-
 }
-- 
2.43.0


From e981f53199b8bfdba38e4bf8ae7b968753b96ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 03/26] fix: SyncFixedWindow must compute window ends exactly

---
 ratelimiter/fixedwindow.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..34d3de3 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,11 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	// round up in integers, a float64 cannot represent timestamps in nanoseconds
+	n := (ts - s.until) / s.windowSize
+	if (ts-s.until)%s.windowSize != 0 {
+		n++
+	}
+	s.until += n * s.windowSize
 	s.count = 0
 }
-- 
2.43.0


From 7b37e9e559c0bd70d9b609d9cd0ab0d8f26c7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 04/26] fix: SyncSlidingWindow must read the clock under the
 lock

---
 ratelimiter/slidingwindow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/slidingwindow.go b/ratelimiter/slidingwindow.go
index beea9e9..3d734d7 100644
--- a/ratelimiter/slidingwindow.go
+++ b/ratelimiter/slidingwindow.go
@@ -60,8 +60,6 @@ type SyncSlidingWindow struct {
 }
 
 func (s *SyncSlidingWindow) Acquire() bool {
-	now := s.nowFn().UnixNano()
-
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
@@ -69,6 +67,9 @@ func (s *SyncSlidingWindow) Acquire() bool {
 		return true
 	}
 
+	// read the clock under the lock, so that records are in order and not newer than now
+	now := s.nowFn().UnixNano()
+
 	if s.records.Len() < s.capacity {
 		// 未到容量，可以通过
 		s.records.PushBack(now)
-- 
2.43.0


From 73cde517afe0501a5b50af04c085ac7d7fc82e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:01 +0000
Subject: [PATCH 05/26] fix: Receiver.Close must close its own channel once,
 also when closed before or replaced under its name

---
 event/bus.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..25b4715 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -87,6 +87,7 @@ func (b *FanOutBus) Close() {
 	close(b.ch)
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
+		recv.closed = true
 		close(recv.ch)
 		delete(b.recvMap, name)
 	}
@@ -103,11 +104,18 @@ func (b *FanOutBus) doDispatch() {
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+func (b *FanOutBus) deregisterRecv(r *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
-	b.recvMapLock.Unlock()
+	defer b.recvMapLock.Unlock()
+	if r.closed {
+		return
+	}
+	r.closed = true
+	close(r.ch)
+	// the name may have been taken over by another receiver
+	if b.recvMap[r.name] == r {
+		delete(b.recvMap, r.name)
+	}
 }
 
 // Strategy for when Receiver.C is full
@@ -127,11 +135,12 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+	closed   bool // whether ch is closed, guarded by bus.recvMapLock
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
 }
 
 // Drain drains Receiver.C until it's empty
-- 
2.43.0


From ba99ac857e34e6e4aec28156c7668691e91ac246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:02 +0000
Subject: [PATCH 06/26] fix: CollectTimeout must not collect nils from a closed
 receiver

---
 event/bus.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index 25b4715..58ae76e 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -168,7 +168,11 @@ func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				timer.Stop()
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From a6e9f3809f87df2518c938e02ff510ffb7b54340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:03 +0000
Subject: [PATCH 07/26] fix: closing a blocking receiver must not deadlock with
 a dispatch blocked on it

---
 event/bus.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index 58ae76e..8d8e968 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -68,6 +68,7 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 		name:     name,
 		bus:      b,
 		strategy: fullStrategy,
+		closing:  make(chan struct{}),
 	}
 
 	b.recvMapLock.Lock()
@@ -135,11 +136,14 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+	closing  chan struct{} // closed when Close is called, releases a dispatch blocked on ch
+	once     sync.Once
 	closed   bool // whether ch is closed, guarded by bus.recvMapLock
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
+	r.once.Do(func() { close(r.closing) })
 	r.bus.deregisterRecv(r)
 }
 
@@ -190,6 +194,9 @@ func (r *Receiver) onEvent(v interface{}) {
 			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
 		}
 	case Block:
-		r.ch <- v
+		select {
+		case r.ch <- v:
+		case <-r.closing:
+		}
 	}
 }
-- 
2.43.0


From c93c1921d54cb84299e43eb8d3024d58937a4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:03 +0000
Subject: [PATCH 08/26] fix: closing the event bus again must not panic

---
 event/bus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index 8d8e968..fa41d45 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -29,6 +29,7 @@ type FanOutBus struct {
 	ch          chan interface{}   // internal channel(bidirectional), C is backed by this
 	recvMapLock sync.RWMutex
 	recvMap     map[string]*Receiver
+	closeOnce   sync.Once
 }
 
 // NewFanOutBus make a new FanOutBus
@@ -85,7 +86,7 @@ func (b *FanOutBus) GoDispatch() {
 
 // Close FanOutBus.C, close all Receiver.C, deregister Receivers
 func (b *FanOutBus) Close() {
-	close(b.ch)
+	b.closeOnce.Do(func() { close(b.ch) })
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
 		recv.closed = true
-- 
2.43.0


From e84ac4b594bfc31d8842f602959a59bd2f295b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 09/26] fix: TTL limiter: IsBlocked looked up the block key
 without the hash tag in cluster mode

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..8601ef1 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,6 +163,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From 90ec887ec361b7900fd639603033645a2d7d2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 10/26] fix: TTL limiter: passed requests were forgotten before
 the end of a window longer than twice the timeout

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8601ef1..7a8b44f 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -75,7 +75,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
   return {0, 0, 0, ''}
 end
 
@@ -93,7 +93,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
   return {0, 0, 0, ''}
 end
 
@@ -102,7 +102,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From ca9fc1baf688bb484d8d24470b3021ef203670f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 11/26] fix: TTL limiter: blocked requests were told a
 remaining time of 0 in the last half second of a block

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 7a8b44f..7f5ade7 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -66,7 +66,7 @@ end
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
@@ -115,7 +115,7 @@ return {1, 1, exp, msg}
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
-- 
2.43.0


From 4731fc75e2138b6f1ca07e13bea3d16dcbee58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 12/26] fix: Store.Update must persist accepted values, not
 rejected ones, and report rejections when persisting fails

---
 confstore/store.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..1274ffa 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -125,14 +125,14 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
-	if err != nil {
-		err2 := m.persister.Save(key, value)
-		if err2 != nil {
-			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-			return nil
-		}
+	if err != nil || key == "" {
+		return err
 	}
-	return err
+	err2 := m.persister.Save(key, value)
+	if err2 != nil {
+		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]: %v\n", key, value, err2)
+	}
+	return nil
 }
 
 func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
-- 
2.43.0


From 17c4d162cbc4227fb955bdfdf964dfe49b12da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 13/26] fix: Store.BatchUpdate must persist every accepted
 entry, also when another one with its key was rejected, and none without key

---
 confstore/store.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 1274ffa..90cd3f4 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,25 +100,17 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+		} else if kvStr.Key != "" {
+			okKvStrs = append(okKvStrs, kvStr)
 		}
 	}
 
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
-			continue
-		}
-		okKvStrs = append(okKvStrs, kvStr)
-	}
+	// batch persist the accepted kvStrs
 	m.persister.BatchSave(okKvStrs)
 	return errors
 }
-- 
2.43.0


From 33b1955eaddd78c6d4125151e51728e36d3e2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 14/26] fix: Store: an update racing with DeregisterKey must
 not bring the key's value back

---
 confstore/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 90cd3f4..727e1f8 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -132,10 +132,11 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is set, otherwise the key may be deregistered in between
 	m.kvProcessorLock.RLock()
-	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
+	defer m.kvProcessorLock.RUnlock()
 
+	p, hit := m.kvProcessor[key]
 	if !hit {
 		return &KVError{
 			Key:   key,
-- 
2.43.0


From cfb9c5cbd0476e808e8de442a63678194eb21a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:58 +0000
Subject: [PATCH 15/26] fix: CssColorHex accepts only # and six hex digits, not
 texts that contain them

---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From ca855177dfe7ac3dca15aaaf05482f03c454cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:58 +0000
Subject: [PATCH 16/26] fix: reading a public key that is not RSA returns an
 error instead of panicking

---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..fd0bc9f 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, fmt.Errorf("expected RSA PUBLIC KEY, got: %T", pub)
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From 7a967f4f99bdef4529469a67f8652f85bb16c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 17/26] fix: loading ignores fields of defined types instead of
 panicking

---
 conf/reflect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..fbf0cb1 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -19,6 +19,7 @@ package conf
 
 import (
 	"reflect"
+	"time"
 )
 
 // Initialize p's field. If field is exported and is a pointer,
@@ -125,7 +126,10 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 
 	case reflect.Bool, reflect.Float64, reflect.Int,
 		reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
-		fn(path, f, v)
+		// defined types other than time.Duration are not supported
+		if t := v.Type(); t.PkgPath() == "" || t == reflect.TypeOf(time.Nanosecond) {
+			fn(path, f, v)
+		}
 
 	case reflect.Struct:
 		for i := 0; i < v.NumField(); i++ {
-- 
2.43.0


From 49200015af34d67d73bb08d9628aa2c638dd8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 18/26] fix: a null in the YAML file no longer cuts fields off
 from environment and flags

---
 conf/yaml.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/conf/yaml.go b/conf/yaml.go
index ad2c073..78a1db5 100644
--- a/conf/yaml.go
+++ b/conf/yaml.go
@@ -20,6 +20,7 @@ package conf
 import (
 	"gopkg.in/yaml.v3"
 	"io/ioutil"
+	"reflect"
 )
 
 type yamlFileResolver struct {
@@ -32,10 +33,47 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 		return err
 	}
 
+	// a null must not detach the fields that environment variables and flags are bound to
+	restore := keepPointers(reflect.ValueOf(p))
 	err = yaml.Unmarshal(bytes, p)
+	restore()
 	if err != nil {
 		return err
 	}
 	return nil
 
 }
+
+// Remembers the pointers reachable from v through exported fields,
+// the returned function puts back those which became nil.
+func keepPointers(v reflect.Value) (restore func()) {
+	var ptrs, olds []reflect.Value
+	var walk func(v reflect.Value)
+	walk = func(v reflect.Value) {
+		switch v.Kind() {
+		case reflect.Ptr:
+			if v.IsNil() {
+				return
+			}
+			if v.CanSet() {
+				ptrs = append(ptrs, v)
+				olds = append(olds, reflect.ValueOf(v.Interface()))
+			}
+			walk(v.Elem())
+		case reflect.Struct:
+			for i := 0; i < v.NumField(); i++ {
+				if f := v.Field(i); f.CanSet() {
+					walk(f)
+				}
+			}
+		}
+	}
+	walk(v)
+	return func() {
+		for i, p := range ptrs {
+			if p.IsNil() {
+				p.Set(olds[i])
+			}
+		}
+	}
+}
-- 
2.43.0


From 1b825f2e5c67821aa0bae22b0797401f2efa6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 19/26] fix: fasthttp pprof: accept passwords with colons,
 demand the Basic scheme

---
 confs/pprof.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..55bff27 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -89,25 +89,19 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			ctx.SetStatusCode(fasthttp.StatusUnauthorized)
 		}
 
-		auth := strings.TrimPrefix(string(ctx.Request.Header.Peek("Authorization")), "Basic ")
-		if auth == "" {
+		auth := string(ctx.Request.Header.Peek("Authorization"))
+		if !strings.HasPrefix(auth, "Basic ") {
 			refuse(ctx)
 			return nil
 		}
 
-		b, err := base64.StdEncoding.DecodeString(auth)
+		b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(auth, "Basic "))
 		if err != nil {
 			refuse(ctx)
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
-		if len(user_pass) != 2 {
-			refuse(ctx)
-			return nil
-		}
-
-		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {
+		if string(b) != conf.Username+":"+conf.Password {
 			refuse(ctx)
 			return nil
 		}
-- 
2.43.0


From 64e035bc268c8f170975f41baad80b2a598c3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:37 +0000
Subject: [PATCH 20/26] fix: custom TLS trust is in force without a client
 certificate and without certificate files

---
 confs/fasthttpclient.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..3adfc3e 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -91,12 +91,16 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 		tlsConfigured = true
 	}
 
-	if hcConf.SslTrustMode == "CUSTOM" && hcConf.SslTrustCerts != "" {
+	if hcConf.SslTrustMode == "CUSTOM" {
+		// without certificates nothing is trusted, rather than the host root CA set
 		certPool := x509.NewCertPool()
-		for _, cert := range strings.Split(hcConf.SslTrustCerts, ",") {
-			appendCertPool(certPool, cert)
+		if hcConf.SslTrustCerts != "" {
+			for _, cert := range strings.Split(hcConf.SslTrustCerts, ",") {
+				appendCertPool(certPool, cert)
+			}
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From 0758b9dc507677a1a73d699ad69dad442c67d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 21/26] fix: tracing middleware passes on the error of the
 handlers after it

---
 skywalking/fasthttp-routing/middleware.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..d57ab14 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -79,10 +79,10 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
-		err = rCtx.Next()
-		if err != nil {
+		nextErr := rCtx.Next()
+		if nextErr != nil {
 			if options.logError {
-				span.Error(time.Now(), err.Error())
+				span.Error(time.Now(), nextErr.Error())
 			} else {
 				span.Error(time.Now())
 			}
@@ -101,7 +101,7 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 		}
 		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
 		span.End()
-		return nil
+		return nextErr
 	}
 
 }
-- 
2.43.0


From ee836f3ab9151e00be60e96943aac353c3fc1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 22/26] fix: redis tracing hook without a tracer or with a
 failing one leaves commands alone and ends only its own span

---
 skywalking/redis/hook.go | 41 ++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..7f2b4c2 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -68,8 +68,34 @@ func noopInjector(headerKey, headerValue string) error {
 	return nil
 }
 
+// spanKey is the context key of the span a hook has created for an operation
+type spanKey struct {
+	hook *tracerHook
+}
+
+// createSpan creates the span of an operation, it returns a nil span if that is not possible
+func (h *tracerHook) createSpan(ctx context.Context, operationName string) (go2sky.Span, context.Context) {
+	if h.tracer == nil {
+		return nil, ctx
+	}
+	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, operationName, h.opts.peer, noopInjector)
+	if err != nil {
+		return nil, context.WithValue(ctx, spanKey{h}, nil)
+	}
+	return span, context.WithValue(nCtx, spanKey{h}, span)
+}
+
+// operationSpan returns the span created by createSpan
+func (h *tracerHook) operationSpan(ctx context.Context) go2sky.Span {
+	span, _ := ctx.Value(spanKey{h}).(go2sky.Span)
+	return span
+}
+
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
-	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	span, nCtx := h.createSpan(ctx, cmd.Name())
+	if span == nil {
+		return nCtx, nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,11 +107,11 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return nCtx, nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := h.operationSpan(ctx)
 	if span == nil {
 		return nil
 	}
@@ -108,7 +134,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 		return obj.Name()
 	})
 
-	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	span, nCtx := h.createSpan(ctx, opName)
+	if span == nil {
+		return nCtx, nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,7 +151,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return nCtx, nil
 
 }
 
@@ -140,7 +169,7 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := h.operationSpan(ctx)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From cbc74a8e7d3649ccdff55599954332d8a73e8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:48 +0000
Subject: [PATCH 23/26] fix: printing a connection configuration by value masks
 its credentials too

---
 confs/es.go         | 2 +-
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 confs/pprof.go      | 2 +-
 confs/redis.go      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..0c62d85 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -18,7 +18,7 @@ type EsConf struct {
 	MaxIdleConnsPerHost int
 }
 
-func (m *EsConf) String() string {
+func (m EsConf) String() string {
 	return fmt.Sprintf("{Addrs: %s, Username: ***, Password: ***, MaxConnsPerHost: %v, MaxIdleConnsPerHost: %v}",
 		m.Addrs, m.MaxConnsPerHost, m.MaxIdleConnsPerHost)
 }
diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..eef4581 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -83,7 +83,7 @@ type MysqlConf struct {
 	Params string
 }
 
-func (m *MysqlConf) String() string {
+func (m MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
 		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..f0ef7dc 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -58,7 +58,7 @@ type OracleConf struct {
 	ConnMaxLifetime time.Duration
 }
 
-func (c *OracleConf) String() string {
+func (c OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
 		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..f02bc49 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -56,7 +56,7 @@ type PostgresqlConf struct {
 	ConnMaxLifetime time.Duration
 }
 
-func (c *PostgresqlConf) String() string {
+func (c PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
 		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
diff --git a/confs/pprof.go b/confs/pprof.go
index 55bff27..7bb32e3 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -36,7 +36,7 @@ type PprofConf struct {
 	MutexProfileFraction int
 }
 
-func (p *PprofConf) String() string {
+func (p PprofConf) String() string {
 	return fmt.Sprintf("{Username: ***, Password: ***, BlockProfileRate: %d, MutexProfileFraction: %d}",
 		p.BlockProfileRate, p.MutexProfileFraction)
 }
diff --git a/confs/redis.go b/confs/redis.go
index 0ae8462..ea8013b 100644
--- a/confs/redis.go
+++ b/confs/redis.go
@@ -60,7 +60,7 @@ func NewRedisClient(rc *RedisConf, customizer RedisOptionCustomizer) *redis.Clie
 
 }
 
-func (r *RedisConf) String() string {
+func (r RedisConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Password: ***, Pool: %d, MinIdle: %d}",
 		r.Host, r.Port, r.Pool, r.MinIdle)
 }
-- 
2.43.0


From 1af1355cf3859d7a51faf985d108a69d99bfa921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 24/26] fix: postgresql: escape user, password and database in
 the DSN, keep option values with commas whole

---
 confs/postgresql.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index f02bc49..2209699 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,16 +88,18 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	query := url.Values{}
 	for key, val := range options {
-		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		query.Set(key, val)
+	}
+	dsn := url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(conf.Username, conf.Password),
+		Host:     fmt.Sprintf("%s:%d", conf.Host, conf.Port),
+		Path:     "/" + conf.Database,
+		RawQuery: query.Encode(),
 	}
-	ret = strings.TrimRight(ret, "&")
-	return ret
+	return dsn.String()
 }
 
 func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
-- 
2.43.0


From 09ad77afb72708cb48f9054ca6ffc76407efbb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:57 +0000
Subject: [PATCH 25/26] fix: es: MaxConnsPerHost limits connections,
 MaxIdleConnsPerHost idle connections per host

---
 confs/es.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index 0c62d85..4cc6748 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,9 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
+	transport.MaxIdleConns = 0 // limited per host
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From 62b5ad0c94892101427b8b93289ca1e4b7591e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:58 +0000
Subject: [PATCH 26/26] fix: mysql, oracle, postgresql: print MaxOpenConns
 instead of MaxIdleConns twice

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index eef4581..3c6e1d2 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index f0ef7dc..e7b7b13 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index 2209699..f7b384f 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0

