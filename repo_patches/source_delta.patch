From 86e3c15634c13745720d3a9f2dd5a8c70f92279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 01/31] fix: cache: create shards under a lock

Set created the shard of a key without any lock, so two first stores into one
shard could each create it and one of the stores was lost (a data race).
---
 cache/cache.go |  5 +++++
 cache/find.go  |  2 +-
 cache/get.go   |  2 +-
 cache/set.go   |  4 ++--
 cache/shard.go | 16 ++++++++++++++++
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 705ad49..a1fdea6 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,6 +14,10 @@
 
 package cache
 
+import (
+	"sync"
+)
+
 const (
 
 	// defaultShards is the amount of shards in SpearCache
@@ -32,6 +36,7 @@ const (
 // but appended instead. When the ring is full, the oldest entries are automatically overwritten.
 // A cache get will retrieve the newest appended entry to the queue, if it exist and is not yet expired.
 type SpearCache struct {
+	mu     sync.RWMutex
 	shards [defaultShards]*shard
 }
 
diff --git a/cache/find.go b/cache/find.go
index febe2e6..9671bbb 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -34,7 +34,7 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	now := uint64(time.Now().UnixNano())
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
-	if c.shards[id] == nil {
+	if !c.hasShard(id) {
 		return false, nil, 0
 	}
 
diff --git a/cache/get.go b/cache/get.go
index 091760e..d25bfa5 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -33,7 +33,7 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	now := uint64(time.Now().UnixNano())
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
-	if c.shards[id] == nil {
+	if !c.hasShard(id) {
 		return false, nil
 	}
 
diff --git a/cache/set.go b/cache/set.go
index ef527de..7dc69ee 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -29,8 +29,8 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	id := keyHash & (defaultShards - 1)
 
 	// We make sure the shard exists, if it doesn't we create one
-	if c.shards[id] == nil {
-		c.shards[id] = newShard()
+	if !c.hasShard(id) {
+		c.makeShard(id)
 	}
 
 	// Lock the shard for concurrency safety. We don't use defer to unlock the shard (on purpose)
diff --git a/cache/shard.go b/cache/shard.go
index c872b53..63066fb 100644
--- a/cache/shard.go
+++ b/cache/shard.go
@@ -37,3 +37,19 @@ type item struct {
 func newShard() *shard {
 	return &shard{}
 }
+
+// hasShard tells whether the shard with the given id exists
+func (c *SpearCache) hasShard(id uint64) bool {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	return c.shards[id] != nil
+}
+
+// makeShard creates the shard with the given id, unless another go routine already did
+func (c *SpearCache) makeShard(id uint64) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.shards[id] == nil {
+		c.shards[id] = newShard()
+	}
+}
-- 
2.43.0


From 5d52c501b5d71248d413e54d93991f3981c1f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 02/31] fix: cache: find keys stored behind expired items and
 report the right age

Get started its scan at the cursor (the oldest item of a full shard), stopped
at the first expired item although Set updates up to eight items in place, and
returned expired items beyond the eighth. Find computed the age and the value
after appendKey could have overwritten the item it had found.
---
 cache/find.go | 24 +++++++++++-------------
 cache/get.go  | 37 ++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index 9671bbb..f0f62d9 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -30,9 +30,6 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if !c.hasShard(id) {
 		return false, nil, 0
@@ -41,19 +38,19 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
+
+	rangeEnd := c.shards[id].cursor - defaultItems
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	// We range over the ring queue, from the newest to the oldest item
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,16 +59,17 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 			continue
 		}
 
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search.
 		if key == keyHash {
+			value := c.shards[id].items[itemID].value
+			age := now - c.shards[id].items[itemID].modTime
 
 			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value, now - c.shards[id].items[itemID].modTime
+			return true, value, age
 		}
 	}
 
diff --git a/cache/get.go b/cache/get.go
index d25bfa5..0478fca 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -29,9 +29,6 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if !c.hasShard(id) {
 		return false, nil
@@ -40,20 +37,19 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
-	var itemsParsed int
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
+
+	rangeEnd := c.shards[id].cursor - defaultItems
+	var itemsExpired int
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
-		itemsParsed++
+	// We range over the ring queue, from the newest to the oldest item
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,20 +58,27 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			continue
 		}
 
-		if now-c.shards[id].items[itemID].modTime > maxAge && itemsParsed < defaultNoClutter {
-			break
+		// We test if the item is within the maxAge range. Items can be updated up to
+		// defaultNoClutter places behind newer items, so we only break when that many
+		// items were expired.
+		if now-c.shards[id].items[itemID].modTime > maxAge {
+			itemsExpired++
+			if itemsExpired > defaultNoClutter {
+				break
+			}
+			continue
 		}
 
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search.
 		if key == keyHash {
+			value := c.shards[id].items[itemID].value
 
 			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value
+			return true, value
 		}
 	}
 
-- 
2.43.0


From f6b2a32fb5256de5d79c55de0a2ce65a4b41281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 03/31] fix: limiter: keep address and User-Agent apart in the
 client key

Address 10.0.0.1 with User-Agent 1 and address 10.0.0.11 without User-Agent
had the same key, so that one client used up the allowance of the other.
---
 guard/limiter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fd679b..15d5183 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -56,7 +56,8 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 
 		remoteAddr := router.StripHostPort(r.RemoteAddr)
 		if !l.FilterOnIP {
-			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
+			// The new line keeps address and User-Agent apart, neither of them can contain one
+			remoteAddr = remoteAddr + "\n" + r.Header.Get("User-Agent")
 		}
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
-- 
2.43.0


From e65e6097e6f6da8310d2b00c444f67d8b028b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 04/31] fix: limiter: look up or create the bucket of a client
 in one step

Simultaneous first requests of a client each created their own bucket, so that
more requests than the burst allows were passed on.
---
 guard/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/guard/limiter.go b/guard/limiter.go
index 15d5183..3292a82 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -16,6 +16,7 @@ package guard
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/redmaner/MaguroHTTP/cache"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -24,6 +25,7 @@ import (
 
 // Limiter is a type containing a MaguroHTTP Guard limiter
 type Limiter struct {
+	mu           sync.Mutex
 	cache        *cache.SpearCache
 	RatePerSec   rate.Limit
 	RateBurst    int
@@ -59,6 +61,9 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 			// The new line keeps address and User-Agent apart, neither of them can contain one
 			remoteAddr = remoteAddr + "\n" + r.Header.Get("User-Agent")
 		}
+
+		// The lookup and creation of the bucket of a client must be one step
+		l.mu.Lock()
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
 		switch {
@@ -71,6 +76,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		}
 
 		l.cache.Set(remoteAddr, limit)
+		l.mu.Unlock()
 
 		if !limit.Allow() {
 			l.ErrorHandler(w, r, 429)
-- 
2.43.0


From 7002db47af01311abcae9184c67135ae5bc4c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 05/31] fix: firewall: BlockHTTP decided uncovered requests the
 wrong way round

When blacklisting, requests that no rule covers were answered 403, and when
whitelisting they were passed on. BlockProxy already had it right.
---
 guard/firewall.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 0aacede..dba8473 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -82,10 +82,11 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		}
 
 		if f.Blacklisting {
-			f.ErrorHandler(w, r, 403)
+			handler.ServeHTTP(w, r)
 			return
 		}
-		handler.ServeHTTP(w, r)
+
+		f.ErrorHandler(w, r, 403)
 		return
 	}
 }
-- 
2.43.0


From 25f6bf95fe58ebb8e66fdcbd4f55a681c7b8c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 06/31] fix: firewall: do not loop forever on paths without a
 leading slash

---
 guard/firewall.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index dba8473..fb9a21b 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -50,7 +50,7 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
 			if val, ok := f.Rules[pt]; ok {
 				for _, v := range val {
 					if v == host || v == "*" {
@@ -98,7 +98,7 @@ func (f *Firewall) BlockProxy(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
 			if val, ok := f.Rules[pt]; ok {
 				for _, v := range val {
 					if v == host || v == "*" {
-- 
2.43.0


From 4d7f7794e1e5d99d569103d2dbee3f6396d44d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 07/31] fix: basicauth: refuse empty credentials unless they
 are configured

The credentials of an unknown user were compared with the zero AuthUser, so an
empty user name with an empty password was always accepted.
---
 guard/basicauth.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 7ff36ba..0298a04 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -126,11 +126,12 @@ func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool
 	// Equalize lengths of supplied and required credentials by hashing them
 	givenUser := sha256.Sum256([]byte(user))
 	givenPass := sha256.Sum256([]byte(pass))
-	requiredUser := sha256.Sum256([]byte(b.Users[user].User))
-	requiredPass := sha256.Sum256([]byte(b.Users[user].Password))
+	required, known := b.Users[user]
+	requiredUser := sha256.Sum256([]byte(required.User))
+	requiredPass := sha256.Sum256([]byte(required.Password))
 
 	// Compare the supplied credentials to those set in our options
-	if subtle.ConstantTimeCompare(givenUser[:], requiredUser[:]) == 1 &&
+	if known && subtle.ConstantTimeCompare(givenUser[:], requiredUser[:]) == 1 &&
 		subtle.ConstantTimeCompare(givenPass[:], requiredPass[:]) == 1 {
 		return true
 	}
-- 
2.43.0


From e794b40fc78ee5265485604314f116b519cd6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 08/31] fix: basicauth: answer 401 by default and do not write
 shared fields per request

The default handler ignored code 401, so refused requests were answered 200, and
the defaults were set during requests, which is a data race.
---
 guard/basicauth.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 0298a04..b938678 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -48,17 +48,20 @@ type AuthUser struct {
 
 // Authenticate is a middleware function that adds HTTP BasicAuth to a http handler
 func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
-	return func(w http.ResponseWriter, r *http.Request) {
 
-		// Check if we have a user-provided error handler, else set a default
-		if b.UnauthorizedHandler == nil {
-			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
-				switch code {
-				case 403:
-					http.Error(w, "Forbidden", 403)
-				}
-			})
-		}
+	// Check if we have a user-provided error handler, else set a default
+	if b.UnauthorizedHandler == nil {
+		b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
+			switch code {
+			case 401:
+				http.Error(w, "Unauthorized", 401)
+			case 403:
+				http.Error(w, "Forbidden", 403)
+			}
+		})
+	}
+
+	return func(w http.ResponseWriter, r *http.Request) {
 
 		// Check that the provided details match
 		if !b.authenticate(r) {
@@ -112,11 +115,12 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 	givenPass := string(creds[1])
 
 	// Default to Simple mode if no AuthFunc is defined.
-	if b.AuthFunc == nil {
-		b.AuthFunc = b.simpleBasicAuthFunc
+	authFunc := b.AuthFunc
+	if authFunc == nil {
+		authFunc = b.simpleBasicAuthFunc
 	}
 
-	return b.AuthFunc(givenUser, givenPass, r)
+	return authFunc(givenUser, givenPass, r)
 }
 
 // simpleBasicAuthFunc authenticates the supplied username and password against
-- 
2.43.0


From 2c23e076873a27558d61691d75dc307d6dc33095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 09/31] fix: serve files under their own name and never list
 directories

---
 tuna/handledownload.go |  5 +++--
 tuna/handleserve.go    | 11 +++++++++--
 tuna/utils.go          | 25 +++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a075b39..3ebc920 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -107,11 +107,12 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			// If the request path is not the index, and the file does exist in ServeDir
 			// the file is served and forced to be downloaded by the recipient.
 			// If the file doesn't exist, a 404 error is returned.
-		} else if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		} else if file, err := openRegular(cfg.Serve.ServeDir + path); err == nil {
+			defer file.Close()
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
+			http.ServeContent(w, r, path, file.modTime, file)
 			s.LogNetwork(200, r)
 		} else {
 
diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 2aee95e..275b02f 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -16,6 +16,7 @@ package tuna
 
 import (
 	"net/http"
+	"net/url"
 	"os"
 
 	"github.com/redmaner/MaguroHTTP/router"
@@ -47,10 +48,16 @@ func (s *Server) handleServe() http.HandlerFunc {
 
 		// Serve the file that is requested by path if it esists in ServeDir.
 		// If the requested path doesn't exist, return a 404 error
-		if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		if fi, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && fi.IsDir() && path == r.URL.Path {
+			s.setHeaders(w, cfg.Serve.Headers, false)
+			location := url.URL{Path: path + "/", RawQuery: r.URL.RawQuery}
+			http.Redirect(w, r, location.String(), http.StatusMovedPermanently)
+			s.LogNetwork(200, r)
+		} else if file, err := openRegular(cfg.Serve.ServeDir + path); err == nil {
+			defer file.Close()
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
+			http.ServeContent(w, r, path, file.modTime, file)
 			s.LogNetwork(200, r)
 		} else {
 
diff --git a/tuna/utils.go b/tuna/utils.go
index 1d24871..4354d15 100644
--- a/tuna/utils.go
+++ b/tuna/utils.go
@@ -18,7 +18,9 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"os"
 	"path/filepath"
+	"time"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 )
@@ -111,6 +113,29 @@ func getMIMEType(p string, cts MIMETypes) string {
 	return "application/octet-stream"
 }
 
+// regularFile is an opened regular file
+type regularFile struct {
+	*os.File
+	modTime time.Time
+}
+
+// openRegular opens the file with the given name. It is used instead of
+// http.ServeFile, which lists directories and redirects explicit index pages.
+func openRegular(name string) (*regularFile, error) {
+	fi, err := os.Stat(name)
+	if err != nil {
+		return nil, err
+	}
+	if !fi.Mode().IsRegular() {
+		return nil, fmt.Errorf("%s is not a regular file", name)
+	}
+	file, err := os.Open(name)
+	if err != nil {
+		return nil, err
+	}
+	return &regularFile{file, fi.ModTime()}, nil
+}
+
 // Copy HTTP header to an existing HTTP header
 func copyHeader(dst, src http.Header) {
 	for k, vv := range src {
-- 
2.43.0


From 561bc187c093947d0d011e947b5294bc4550eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 10/31] fix: download index: working, escaped links and no
 crash on missing files

---
 tuna/config.go         |  1 +
 tuna/handledownload.go | 26 ++++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/tuna/config.go b/tuna/config.go
index 204a1fb..1802f2c 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -94,6 +94,7 @@ type download struct {
 // FileInfo to gather information about files
 type fileInfo struct {
 	Name    string
+	Link    string
 	Size    int64
 	ModTime time.Time
 }
diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 3ebc920..9a7c286 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"html/template"
 	"net/http"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -48,7 +49,17 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		// Collect downloadable files
 		if cfg.Serve.Download.Enabled {
 			for _, v := range cfg.Serve.Download.Exts {
-				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, _ error) error {
+				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, err error) error {
+
+					// Without a readable ServeDir there is no index. What disappears while
+					// the files are collected is left out.
+					if err != nil {
+						if path == cfg.Serve.ServeDir {
+							return err
+						}
+						return nil
+					}
+
 					if f.IsDir() {
 						return nil
 					}
@@ -57,8 +68,15 @@ func (s *Server) handleDownload() http.HandlerFunc {
 						return nil
 					}
 
+					rel, err := filepath.Rel(cfg.Serve.ServeDir, path)
+					if err != nil {
+						return err
+					}
+					link := url.URL{Path: "/" + filepath.ToSlash(rel)}
+
 					dlurls = append(dlurls, fileInfo{
-						Name:    f.Name(),
+						Name:    template.HTMLEscapeString(f.Name()),
+						Link:    template.HTMLEscapeString(link.EscapedPath()),
 						Size:    f.Size(),
 						ModTime: f.ModTime(),
 					})
@@ -74,7 +92,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		path := r.URL.Path
 
 		// Correct path to ServeIndex when path is root
-		if path == "/" {
+		if path == "/" || path == "/"+cfg.Serve.ServeIndex {
 			path = cfg.Serve.ServeIndex
 		}
 
@@ -88,7 +106,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
-				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, v.Name, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
+				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="`, v.Link, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
 
-- 
2.43.0


From c35a35ac73ebf0e444c82867ad2c4a41a5368aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 11/31] fix: answer errors with custom pages under their true
 status

---
 tuna/handleerror.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 5a960d3..a69071d 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -18,8 +18,10 @@ import (
 	"bytes"
 	"fmt"
 	"html/template"
+	"io/ioutil"
+	"mime"
 	"net/http"
-	"os"
+	"path/filepath"
 	"strconv"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,8 +47,15 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// Custom error pages can be set in the configuration.
 	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {
-		if _, err := os.Stat(val); err == nil {
-			http.ServeFile(w, r, val)
+		if page, err := ioutil.ReadFile(val); err == nil {
+			contentType := mime.TypeByExtension(filepath.Ext(val))
+			if contentType == "" {
+				contentType = http.DetectContentType(page)
+			}
+			w.Header().Set("Content-Type", contentType)
+			w.WriteHeader(errorCode)
+			_, err = w.Write(page)
+			s.Log(debug.LogError, err)
 			return
 		}
 	}
@@ -55,8 +64,8 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
-	w.WriteHeader(errorCode)
 	w.Header().Set("Content-Type", "text/html")
+	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
-- 
2.43.0


From e5d59b5bd5a0b98cbe548948eeb8e47593556bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 12/31] fix: router: a host with a slash never matches another
 host's path

---
 router/route.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/router/route.go b/router/route.go
index 130c39e..e29d74f 100644
--- a/router/route.go
+++ b/router/route.go
@@ -134,6 +134,12 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 	var exactMatch bool
 	var match bool
 
+	// A host is never part of a path. With a slash in it, it could be mistaken for
+	// another host and the first part of a path registered for that host.
+	if strings.IndexByte(host, '/') > -1 {
+		return match, exactMatch, pathRouteMatch
+	}
+
 	for {
 
 		// Search for an exact host+path match
-- 
2.43.0


From a898f00c605efebf9a969671ca6569d12b56a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 13/31] fix: a virtual host's proxy rules do not take over
 other hosts

---
 tuna/routes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tuna/routes.go b/tuna/routes.go
index f893962..e901cac 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -48,6 +48,12 @@ func (s *Server) addRoutesFromConfig() {
 			// Start with proxy
 			if s.Vhosts[vhost].Proxy.Enabled {
 				for host := range s.Vhosts[vhost].Proxy.Rules {
+
+					// A virtual host only answers requests for itself
+					if host != vhost {
+						continue
+					}
+
 					for _, mtd := range s.Vhosts[vhost].Proxy.Methods {
 						s.Router.AddRoute(host, "/", true, mtd, "*", s.handleProxy())
 					}
-- 
2.43.0


From 44545cd8e643820971d7539b7ecd1abd7ba0be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 14/31] fix: log and count the status that was answered

---
 tuna/handledownload.go |  5 +++--
 tuna/handleserve.go    |  7 ++++---
 tuna/utils.go          | 12 ++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 9a7c286..13b449b 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -130,8 +130,9 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-			http.ServeContent(w, r, path, file.modTime, file)
-			s.LogNetwork(200, r)
+			sw := &statusWriter{w, 200}
+			http.ServeContent(sw, r, path, file.modTime, file)
+			s.LogNetwork(sw.status, r)
 		} else {
 
 			// Path wasn't found, so we return a 404 not found error.
diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 275b02f..31c37b8 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -52,13 +52,14 @@ func (s *Server) handleServe() http.HandlerFunc {
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			location := url.URL{Path: path + "/", RawQuery: r.URL.RawQuery}
 			http.Redirect(w, r, location.String(), http.StatusMovedPermanently)
-			s.LogNetwork(200, r)
+			s.LogNetwork(http.StatusMovedPermanently, r)
 		} else if file, err := openRegular(cfg.Serve.ServeDir + path); err == nil {
 			defer file.Close()
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
-			http.ServeContent(w, r, path, file.modTime, file)
-			s.LogNetwork(200, r)
+			sw := &statusWriter{w, 200}
+			http.ServeContent(sw, r, path, file.modTime, file)
+			s.LogNetwork(sw.status, r)
 		} else {
 
 			// Path wasn't found, so we return a 404 not found error
diff --git a/tuna/utils.go b/tuna/utils.go
index 4354d15..68d5a6b 100644
--- a/tuna/utils.go
+++ b/tuna/utils.go
@@ -113,6 +113,18 @@ func getMIMEType(p string, cts MIMETypes) string {
 	return "application/octet-stream"
 }
 
+// statusWriter is a http.ResponseWriter that remembers the status code
+type statusWriter struct {
+	http.ResponseWriter
+	status int
+}
+
+// WriteHeader implements http.ResponseWriter
+func (sw *statusWriter) WriteHeader(statusCode int) {
+	sw.status = statusCode
+	sw.ResponseWriter.WriteHeader(statusCode)
+}
+
 // regularFile is an opened regular file
 type regularFile struct {
 	*os.File
-- 
2.43.0


From 51c5ee341b7df6d105a57f1a48be4ab0a1aa5c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 15/31] fix: load metrics before serving and save them
 periodically from the first run

The metrics were loaded by a goroutine that ran while requests were already
counted: a data race that lost the first counts. Without an earlier metrics
file the goroutine ended right away, so nothing was saved every 20 minutes.
A metrics file saved while metrics were inactive holds no paths at all.
---
 tuna/metrics.go | 16 ++++++++++++----
 tuna/server.go  |  4 +++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7ba3bbd..b9171c4 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -98,15 +98,15 @@ func (s *Server) handleMetrics() http.HandlerFunc {
 	}
 }
 
-// Metrics Daemon
-func (s *Server) metricsDaemon() {
+// loadMetrics initialises the metrics and reports whether they are active
+func (s *Server) loadMetrics() bool {
 
 	// Initially load metrics if they are present
 	if !s.Cfg.Core.Metrics.Enabled || !s.Cfg.Core.TLS.Enabled {
 		s.metrics = metricsData{
 			enabled: false,
 		}
-		return
+		return false
 	}
 
 	// We check if the file exists. If it doesn't we create an empty metricsData
@@ -115,7 +115,7 @@ func (s *Server) metricsDaemon() {
 			enabled: s.Cfg.Core.Metrics.Enabled,
 			Paths:   make(map[int]map[string]int),
 		}
-		return
+		return true
 	}
 
 	// Load metrics from the file
@@ -137,10 +137,18 @@ func (s *Server) metricsDaemon() {
 
 	s.metrics.TotalRequests = md.TotalRequests
 	s.metrics.Paths = md.Paths
+	if s.metrics.Paths == nil {
+		s.metrics.Paths = make(map[int]map[string]int)
+	}
 	s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
 
 	err = file.Close()
 	s.Log(debug.LogError, err)
+	return true
+}
+
+// Metrics Daemon
+func (s *Server) metricsDaemon() {
 
 	// Occasionally flush metrics to disk
 	for {
diff --git a/tuna/server.go b/tuna/server.go
index e38e907..6c1a4f2 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -187,7 +187,9 @@ func NewInstanceFromConfig(p string) *Server {
 	s.addRoutesFromConfig()
 
 	// Handle metrics
-	go s.metricsDaemon()
+	if s.loadMetrics() {
+		go s.metricsDaemon()
+	}
 
 	// Define http transport
 	s.Transport = &http.Transport{
-- 
2.43.0


From 50d38b01d5a1f3fb6d7e52fc387fcd2a82d76901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 16/31] fix: save metrics atomically and only while they are
 active

The file was truncated before the counters were written, so a crash or a
failed write in between lost all saved metrics and kept the server from
starting again. A run with inactive metrics replaced them by nothing.
---
 tuna/metrics.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index b9171c4..5011fd9 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -162,18 +162,38 @@ func (s *Server) flushMetrics() {
 	var mdout *os.File
 	var err error
 
-	mdout, err = os.Create(s.Cfg.Core.Metrics.Out)
-	s.Log(debug.LogError, err)
+	// Inactive metrics have nothing to save and must not replace saved metrics
+	if !s.metrics.enabled {
+		return
+	}
 
-	mdout, err = os.OpenFile(s.Cfg.Core.Metrics.Out, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
-	s.Log(debug.LogError, err)
+	// Only one flush can happen at a time
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	s.metrics.mu.Lock()
-	bs, err := json.MarshalIndent(s.metrics, "", "  ")
-	s.Log(debug.LogError, err)
+	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
 	s.metrics.mu.Unlock()
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
 
-	s.WriteString(mdout, string(bs))
-	err = mdout.Close()
+	// The metrics are completely written to a temporary file first, so that there
+	// is a complete metrics file at any time
+	tmp := s.Cfg.Core.Metrics.Out + ".tmp"
+	mdout, err = os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
+
+	_, err = mdout.Write(bs)
+	if errClose := mdout.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(tmp, s.Cfg.Core.Metrics.Out)
+	}
 	s.Log(debug.LogError, err)
 }
-- 
2.43.0


From a8ae4cfe29a38da37955f9397012f8f957c7a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 17/31] fix: a failing or slow receiver of the metrics page
 does not block counting

The lock of the metrics was held while the page was written to the client
and was never released when that failed.
---
 tuna/metrics.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 5011fd9..64c842e 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -62,26 +63,30 @@ func (md *metricsData) concat(e int, p string) {
 
 // Function to display metrics data
 func (md *metricsData) display(o io.Writer) error {
-	md.mu.Lock()
+	var buf bytes.Buffer
 
-	if _, err := io.WriteString(o, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
+	// The page is composed first, as the receiver can be slow or fail
+	md.mu.Lock()
+	if _, err := io.WriteString(&buf, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
 		return err
 	}
 	for k, v := range md.Paths {
-		if _, err := io.WriteString(o, fmt.Sprintf("<br><b>%d</b><ul>", k)); err != nil {
+		if _, err := io.WriteString(&buf, fmt.Sprintf("<br><b>%d</b><ul>", k)); err != nil {
 			return err
 		}
 		for p, a := range v {
-			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
+			if _, err := io.WriteString(&buf, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
 				return err
 			}
 		}
-		if _, err := io.WriteString(o, fmt.Sprintf("</ul>")); err != nil {
+		if _, err := io.WriteString(&buf, fmt.Sprintf("</ul>")); err != nil {
 			return err
 		}
 	}
 	md.mu.Unlock()
-	return nil
+
+	_, err := buf.WriteTo(o)
+	return err
 }
 
 func (s *Server) handleMetrics() http.HandlerFunc {
-- 
2.43.0


From fc6c7a65541079f520482198dacf4b3b15479bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 18/31] fix: escape requested paths on the metrics page

---
 tuna/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 64c842e..0edc65f 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"html/template"
 	"io"
 	"net/http"
 	"os"
@@ -75,7 +76,7 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 		for p, a := range v {
-			if _, err := io.WriteString(&buf, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
+			if _, err := io.WriteString(&buf, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, template.HTMLEscapeString(p))); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From aa020887067922f8fa87e1816cc160d7885a38d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 19/31] fix: keep metrics of paths with invalid UTF-8 apart
 when they are saved

---
 tuna/metrics.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 0edc65f..45a980c 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -21,9 +21,12 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"os"
+	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/html"
@@ -45,6 +48,12 @@ type metricsData struct {
 // * The responses for requests based on HTTP status codes
 func (md *metricsData) concat(e int, p string) {
 	if md.enabled {
+
+		// JSON replaces invalid UTF-8, which would make different paths the same
+		if !utf8.ValidString(p) || strings.IndexByte(p, '%') > -1 {
+			p = (&url.URL{Path: p}).EscapedPath()
+		}
+
 		md.mu.Lock()
 		if _, ok := md.Paths[e]; ok {
 			if _, ok := md.Paths[e][p]; ok {
-- 
2.43.0


From 286401076a8f0d3471fabae32f05e6d1405c9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 20/31] fix: escape the path in access lines, so that a request
 cannot forge log entries

---
 tuna/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/log.go b/tuna/log.go
index df49263..825a124 100644
--- a/tuna/log.go
+++ b/tuna/log.go
@@ -31,5 +31,5 @@ func (s *Server) Log(logLevel int, err error) {
 func (s *Server) LogNetwork(statusCode int, r *http.Request) {
 	host := router.StripHostPort(r.Host)
 	s.metrics.concat(statusCode, host+r.URL.Path)
-	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.Path, r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
+	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.EscapedPath(), r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
 }
-- 
2.43.0


From 2574113cbfdc7013bdfefaf23f16e3c39855a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 21/31] fix: proxy only the path and query of a request target

The request target was put behind the configured host as it was, so that a
target without a leading slash, like x.other.host:80, was sent to another
host, and everything behind a # was dropped.
---
 tuna/handleproxy.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f33bcf8..ffd98fc 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -19,6 +19,8 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"net/url"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -55,7 +57,7 @@ func (s *Server) handleProxy() http.HandlerFunc {
 
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
-			req, err := http.NewRequest(r.Method, val+r.RequestURI, bytes.NewBuffer(bodyData))
+			req, err := http.NewRequest(r.Method, val+requestURI(r), bytes.NewBuffer(bodyData))
 			if err != nil {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
@@ -97,3 +99,21 @@ func (s *Server) handleProxy() http.HandlerFunc {
 		}
 	}
 }
+
+// requestURI returns the path and query of a request as the client sent them.
+// The request target can be anything, so it cannot be put behind a host as is.
+func requestURI(r *http.Request) string {
+	u, err := url.ParseRequestURI(r.RequestURI)
+	if err != nil {
+		u = r.URL
+	}
+
+	uri := u.EscapedPath()
+	if uri == "" || uri[0] != '/' {
+		uri = "/" + uri
+	}
+	if u.ForceQuery || u.RawQuery != "" {
+		uri += "?" + strings.Replace(u.RawQuery, "#", "%23", -1)
+	}
+	return uri
+}
-- 
2.43.0


From a2fedcfabbbed04198803e85a1533f88ac8164bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 22/31] fix: do not end a broken off upstream response like a
 complete one

---
 tuna/handleproxy.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index ffd98fc..7260825 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -85,13 +85,18 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				w.WriteHeader(resp.StatusCode)
 
 				// Copy back the response body to the ResponseWriter
-				_, err = io.Copy(w, resp.Body)
-				s.Log(debug.LogError, err)
+				_, errCopy := io.Copy(w, resp.Body)
+				s.Log(debug.LogError, errCopy)
 
 				// Properly close response body
 				err = resp.Body.Close()
 				s.Log(debug.LogError, err)
 				s.LogNetwork(resp.StatusCode, r)
+
+				// A response that broke off cannot end like a complete one
+				if errCopy != nil {
+					panic(http.ErrAbortHandler)
+				}
 			} else {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From db9ff7800adbb974c330396e452023b4a1d2f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 23/31] fix: a stop signal lets requests in progress finish and
 counts them

Serve panicked as soon as the shutdown began, which ended the process before
the requests in progress were answered, and metrics were saved before them.
---
 tuna/serve.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index c5aa8cf..1681b57 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -47,7 +47,7 @@ func (s *Server) Serve() {
 
 	go func() {
 		// Gracefully stop the server in case of a signal
-		sig := make(chan os.Signal)
+		sig := make(chan os.Signal, 1)
 		signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 		for {
 			select {
@@ -57,15 +57,16 @@ func (s *Server) Serve() {
 				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
 				defer cancel()
 
-				// Flush metrics on server stop
-				if s.Cfg.Core.Metrics.Enabled {
-					s.flushMetrics()
-				}
-
 				server.SetKeepAlivesEnabled(false)
 				if err := server.Shutdown(ctx); err != nil {
 					s.Log(debug.LogNone, fmt.Errorf("could not gracefully shutdown the server: %v", err))
 				}
+
+				// Flush metrics on server stop, when all requests are answered
+				if s.Cfg.Core.Metrics.Enabled {
+					s.flushMetrics()
+				}
+
 				close(sig)
 				os.Exit(1)
 			}
@@ -94,7 +95,7 @@ func (s *Server) Serve() {
 		server.TLSConfig = tlsc
 
 		err := server.ListenAndServeTLS(tlsCert, tlsKey)
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 
@@ -102,8 +103,11 @@ func (s *Server) Serve() {
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
 		err := server.ListenAndServe()
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 	}
+
+	// The server is stopping, which ends the process when it is done
+	select {}
 }
-- 
2.43.0


From 3d5b8ab440e03e6c15da66fad0edb413d73db5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 24/31] fix: do not serve plaintext when TLS is enabled but
 cannot be used

---
 tuna/serve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/serve.go b/tuna/serve.go
index 1681b57..d59f3a0 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -99,6 +99,11 @@ func (s *Server) Serve() {
 			panic(err)
 		}
 
+	// TLS is enabled but cannot be used, never fall back to HTTP
+	case s.Cfg.Core.TLS.Enabled:
+		s.Log(debug.LogNone, fmt.Errorf("TLS is enabled but the certificate or the key is missing"))
+		os.Exit(1)
+
 	// if TLS is not enabled HTTP will be served
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
-- 
2.43.0


From 0c67169b2bc77adc0902c9672ef5a62aabda04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 25/31] fix: check and complete the document root of every
 served directory

---
 tuna/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tuna/config.go b/tuna/config.go
index 1802f2c..ba33a26 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -18,6 +18,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path"
 	"time"
 
 	"github.com/hashicorp/hcl"
@@ -218,7 +219,7 @@ func (c *Config) Validate(p string, isVhost bool) {
 		}
 
 		// FileDir must be defined
-		if c.Core.FileDir == "" || c.Core.FileDir == "/" {
+		if c.Core.FileDir == "" || path.Clean(c.Core.FileDir) == "/" {
 			log.Fatalf("%s: FileDir is not defined or is pointing to root", p)
 		}
 
@@ -269,7 +270,7 @@ func (c *Config) Validate(p string, isVhost bool) {
 	}
 
 	// Test serve
-	if !c.Proxy.Enabled && c.Serve.Download.Enabled {
+	if !c.Proxy.Enabled && (c.Serve.Download.Enabled || len(c.Serve.Methods) > 0) {
 		if c.Serve.ServeDir == "" || c.Serve.ServeIndex == "" {
 			log.Fatalf("%s: The server configuration has missing elements: check ServeDir and ServeIndex", p)
 		}
-- 
2.43.0


From 9f9d07e0cfea2d9358b0dd2e4efc4a27dd311810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 26/31] fix: compare cache keys by a cryptographic hash

Keys contain data chosen by clients, like the User-Agent in the rate limiter.
xxhash is easily inverted: two keys with the same hash were mistaken for each
other, and a key that hashes to zero could never be found.
---
 cache/find.go  |  9 +++------
 cache/get.go   |  9 +++------
 cache/set.go   |  9 +++------
 cache/shard.go | 14 +++++++++++++-
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index f0f62d9..c1d3edb 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -16,8 +16,6 @@ package cache
 
 import (
 	"time"
-
-	"github.com/cespare/xxhash"
 )
 
 // Find is used to find a key in the cache. It doesn't require a max age as parameter,
@@ -26,9 +24,8 @@ import (
 // If the key is not found, false, nil and zero are returned.
 func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 
-	// hash the key with xxhash and make the id
-	keyHash := xxhash.Sum64([]byte(key))
-	id := keyHash & (defaultShards - 1)
+	// hash the key and make the id
+	keyHash, id := hashKey(key)
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if !c.hasShard(id) {
@@ -55,7 +52,7 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 		key := c.shards[id].items[itemID].key
 
 		// If the key is empty we continue, this is when the queue is empty at the start
-		if key == 0 {
+		if key == (itemKey{}) {
 			continue
 		}
 
diff --git a/cache/get.go b/cache/get.go
index 0478fca..36138e1 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -16,8 +16,6 @@ package cache
 
 import (
 	"time"
-
-	"github.com/cespare/xxhash"
 )
 
 // Get is used to retrieve a key from the cache. Get requires the key and the max age
@@ -25,9 +23,8 @@ import (
 // If the key is not found or is expired, false and nil are returned
 func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 
-	// hash the key with xxhash and make the id
-	keyHash := xxhash.Sum64([]byte(key))
-	id := keyHash & (defaultShards - 1)
+	// hash the key and make the id
+	keyHash, id := hashKey(key)
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if !c.hasShard(id) {
@@ -54,7 +51,7 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 		key := c.shards[id].items[itemID].key
 
 		// If the key is empty we continue, this is when the queue is empty at the start
-		if key == 0 {
+		if key == (itemKey{}) {
 			continue
 		}
 
diff --git a/cache/set.go b/cache/set.go
index 7dc69ee..1ec8b8c 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -16,17 +16,14 @@ package cache
 
 import (
 	"time"
-
-	"github.com/cespare/xxhash"
 )
 
 // Set is used to set a key value pair into SpearCache
 // The key should always be a string. The value can be everything.
 func (c *SpearCache) Set(key string, value interface{}) {
 
-	// hash the key with xxhash and make the id
-	keyHash := xxhash.Sum64([]byte(key))
-	id := keyHash & (defaultShards - 1)
+	// hash the key and make the id
+	keyHash, id := hashKey(key)
 
 	// We make sure the shard exists, if it doesn't we create one
 	if !c.hasShard(id) {
@@ -68,7 +65,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 
 // appendKey is used to append a key to the cache. This is called by both
 // set and get commands. This should only be called when a shard is already unlocked.
-func (c *SpearCache) appendKey(keyHash uint64, id uint64, value interface{}) {
+func (c *SpearCache) appendKey(keyHash itemKey, id uint64, value interface{}) {
 
 	// if the cursor of the queue is longer than defaultItems - 1, the cursor is reset to zero
 	if c.shards[id].cursor > defaultItems-1 {
diff --git a/cache/shard.go b/cache/shard.go
index 63066fb..fdb3a7e 100644
--- a/cache/shard.go
+++ b/cache/shard.go
@@ -15,7 +15,10 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"sync"
+
+	"github.com/cespare/xxhash"
 )
 
 // SpearCache is divided into shards. This allows multiple go routines to access,
@@ -29,10 +32,19 @@ type shard struct {
 // Each shard contains an array (yes array not slice) of item.
 type item struct {
 	modTime uint64
-	key     uint64
+	key     itemKey
 	value   interface{}
 }
 
+// itemKey identifies a key within a shard. Keys can be chosen by clients, a cryptographic
+// hash makes sure that two different keys are never mistaken for each other.
+type itemKey [sha256.Size]byte
+
+// hashKey returns the itemKey of a key and the id of the shard it is stored in
+func hashKey(key string) (itemKey, uint64) {
+	return sha256.Sum256([]byte(key)), xxhash.Sum64([]byte(key)) & (defaultShards - 1)
+}
+
 // newShard returns an empty pointer to a shard
 func newShard() *shard {
 	return &shard{}
-- 
2.43.0


From f40cbb38cee91ca699e9abc5b1a70a35d91dfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 27/31] fix: create page templates in one step

---
 tuna/templates.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/tuna/templates.go b/tuna/templates.go
index b0737b7..c00aa86 100644
--- a/tuna/templates.go
+++ b/tuna/templates.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"fmt"
 	"os"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,14 +46,7 @@ func (s *Server) generateTemplates() {
 
 	// Create error template when it doesn't exist yet
 	if _, err := os.Stat(tplDir + "error.html"); err != nil {
-		of, err := os.Create(tplDir + "error.html")
-		s.Log(debug.LogError, err)
-
-		s.WriteString(of, html.PageTemplateStart)
-		s.WriteString(of, templateError)
-		s.WriteString(of, html.PageTemplateEnd)
-
-		err = of.Close()
+		err := createTemplate(tplDir+"error.html", templateError)
 		s.Log(debug.LogError, err)
 	}
 
@@ -62,14 +56,7 @@ func (s *Server) generateTemplates() {
 
 	// Create download template when it doesn't exist yet
 	if _, err := os.Stat(tplDir + "download.html"); err != nil {
-		of, err := os.Create(tplDir + "download.html")
-		s.Log(debug.LogError, err)
-
-		s.WriteString(of, html.PageTemplateStart)
-		s.WriteString(of, templateDownload)
-		s.WriteString(of, html.PageTemplateEnd)
-
-		err = of.Close()
+		err := createTemplate(tplDir+"download.html", templateDownload)
 		s.Log(debug.LogError, err)
 	}
 
@@ -78,3 +65,25 @@ func (s *Server) generateTemplates() {
 	s.templates.download.Init()
 
 }
+
+// createTemplate creates a template with the given body. It is written to a temporary file
+// first, so that there never is an incomplete template.
+func createTemplate(name, body string) error {
+
+	tmp := fmt.Sprintf("%s.%d.tmp", name, os.Getpid())
+	of, err := os.Create(tmp)
+	if err != nil {
+		return err
+	}
+
+	_, err = of.WriteString(html.PageTemplateStart + body + html.PageTemplateEnd)
+	if cerr := of.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		os.Remove(tmp)
+		return err
+	}
+
+	return os.Rename(tmp, name)
+}
-- 
2.43.0


From 6a31a011fb71b7763b2ff725edb412bded5703a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 28/31] fix: answer 502 to upstream responses with an invalid
 status code

---
 tuna/handleproxy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 7260825..e164ae0 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -16,6 +16,7 @@ package tuna
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"io/ioutil"
 	"net/http"
@@ -75,6 +76,15 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// the new request is executed with a http.RoundTripper.
 			if resp, err := s.Transport.RoundTrip(req); err == nil {
 
+				// A status code that cannot be passed on makes the response invalid
+				if resp.StatusCode < 100 {
+					s.Log(debug.LogError, fmt.Errorf("invalid status code %d from %s", resp.StatusCode, val))
+					err = resp.Body.Close()
+					s.Log(debug.LogError, err)
+					s.HandleError(w, r, 502)
+					return
+				}
+
 				// Proxy back all response headers
 				copyHeader(w.Header(), resp.Header)
 
-- 
2.43.0


From 2991e19b5c8159a83b3c6e794950672648a34b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 29/31] fix: do not ask upstreams for compression on behalf of
 clients

---
 tuna/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tuna/server.go b/tuna/server.go
index 6c1a4f2..2344fa2 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -111,6 +111,9 @@ func NewInstance(c CoreConfig) *Server {
 		TLSHandshakeTimeout:   8 * time.Second,
 		ExpectContinueTimeout: 1 * time.Second,
 		ResponseHeaderTimeout: time.Duration(s.Cfg.Core.ReadHeaderTimeout) * time.Second,
+
+		// Whether responses are compressed is a matter of client and upstream
+		DisableCompression: true,
 	}
 
 	return &s
@@ -204,6 +207,9 @@ func NewInstanceFromConfig(p string) *Server {
 		TLSHandshakeTimeout:   8 * time.Second,
 		ExpectContinueTimeout: 1 * time.Second,
 		ResponseHeaderTimeout: time.Duration(s.Cfg.Core.ReadHeaderTimeout) * time.Second,
+
+		// Whether responses are compressed is a matter of client and upstream
+		DisableCompression: true,
 	}
 
 	return &s
-- 
2.43.0


From f2af154776aac5e9a192e30304dd6a8fb7bd7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 30/31] fix: do not add a User-Agent to proxied requests

---
 tuna/handleproxy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index e164ae0..7cd2f7a 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -70,6 +70,11 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// We clone the header of the original request
 			req.Header = cloneHeader(r.Header)
 
+			// Without this a User-Agent is added to requests that have none
+			if _, ok := req.Header["User-Agent"]; !ok {
+				req.Header["User-Agent"] = []string{""}
+			}
+
 			// For proxy purposes we keep the original remote address in the request
 			req.RemoteAddr = r.RemoteAddr
 
-- 
2.43.0


From 0b7f50f12fc2d7d9b9b52d27319a721ab20ec280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 31/31] fix: do not guess a Content-Type for proxied responses

---
 tuna/handleproxy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 7cd2f7a..c3a36d4 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -93,6 +93,11 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				// Proxy back all response headers
 				copyHeader(w.Header(), resp.Header)
 
+				// Without this a Content-Type is guessed for responses that have none
+				if _, ok := resp.Header["Content-Type"]; !ok {
+					w.Header()["Content-Type"] = nil
+				}
+
 				// Set custom headers
 				s.setHeaders(w, cfg.Proxy.Headers, true)
 
-- 
2.43.0

