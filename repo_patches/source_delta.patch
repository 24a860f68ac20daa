From d4e5b9b4e932d802023697f8bd0cd00a73f0d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 01/52] fix: idle modifier: do not convert duration like 5ms as
 human number

---
 trx/trx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 8a67e6f..ad0ab5c 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -180,7 +180,10 @@ func (f *File) line(line string) error {
 			if line == "-- EOF" {
 				return ErrEOF
 			}
-			mod, err := config.Vars(strings.TrimSpace(strings.TrimPrefix(line, "--")), f.params, true)
+			mod := strings.TrimSpace(strings.TrimPrefix(line, "--"))
+			// Human numbers like 1k in all modifiers except idle, which is a
+			// duration: 5ms is not 5 million seconds
+			mod, err := config.Vars(mod, f.params, !strings.HasPrefix(mod, "idle"))
 			if err != nil {
 				return fmt.Errorf("parsing modifier '%s' on line %d: %s", line, f.lb.n, err)
 			}
-- 
2.43.0


From b4f1f9e9290e469d9a3c27b1a79770cd9242f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 02/52] fix: trx file that starts with an idle statement: count
 the trx before sleeping

---
 client/client.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 5cfe61e..c90a5f7 100644
--- a/client/client.go
+++ b/client/client.go
@@ -238,12 +238,6 @@ ITER:
 		trxActive = false
 
 		for i := range c.Statements {
-			// Idle time
-			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
-				continue
-			}
-
 			// Is this query the start of a new (finch) trx file? This is not
 			// a MySQL trx (either BEGIN or implicit). It marks finch trx scope
 			// "trx" is a trx file in the config assigned to this client.
@@ -255,6 +249,12 @@ ITER:
 				trxActive = false
 			}
 
+			// Idle time
+			if c.Statements[i].Idle != 0 {
+				time.Sleep(c.Statements[i].Idle)
+				continue
+			}
+
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
 				<-c.TPS
-- 
2.43.0


From a0787c3b7361769ed0855b85664214bde3d1ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 03/52] fix: roll back when the last statement of a trx fails

---
 client/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index c90a5f7..08c19e7 100644
--- a/client/client.go
+++ b/client/client.go
@@ -245,8 +245,6 @@ ITER:
 				rc[data.TRX] += 1
 				trxNo += 1
 				trxActive = true
-			} else if c.Data[i].TrxBoundary&trx.END != 0 {
-				trxActive = false
 			}
 
 			// Idle time
@@ -342,6 +340,9 @@ ITER:
 					c.Data[i].InsertId.Scan(id)
 				}
 			} // execute
+			if c.Data[i].TrxBoundary&trx.END != 0 {
+				trxActive = false // only once its last statement has succeeded
+			}
 			continue // next query
 
 		ERROR:
-- 
2.43.0


From c648739d6088155822e8be3298d65896f45b2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 04/52] fix: handle errors that occur while rows are read

---
 client/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 08c19e7..931392a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -300,7 +300,14 @@ ITER:
 						}
 					}
 				}
-				rows.Close()
+				// Error while reading rows, like lost connection or query killed
+				if err = rows.Err(); err != nil {
+					rows.Close()
+					goto ERROR
+				}
+				if err = rows.Close(); err != nil {
+					goto ERROR
+				}
 			} else {
 				//
 				// Write or query without result set (e.g. BEGIN, SET, etc.)
-- 
2.43.0


From 19b2fabc45a462bf804fa4d62e1d47c4ebed5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 05/52] fix: disconnect from MySQL on reconnect, and prepare
 statements again

---
 client/client.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/client/client.go b/client/client.go
index 931392a..499a025 100644
--- a/client/client.go
+++ b/client/client.go
@@ -5,6 +5,7 @@ package client
 import (
 	"context"
 	"database/sql"
+	"database/sql/driver"
 	"errors"
 	"fmt"
 	"log"
@@ -115,8 +116,7 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
-		c.conn.Close()
-		c.conn = nil
+		c.disconnect()
 		time.Sleep(ConnectRetryWait)
 	}
 
@@ -170,6 +170,24 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	return nil
 }
 
+// disconnect closes the current connection and all statements prepared on it.
+// sql.Conn.Close only returns the connection to the pool, from which this or
+// another client would get it again with all its session state (like an open
+// transaction), so make the pool discard it by marking it bad.
+func (c *Client) disconnect() {
+	for i := range c.ps {
+		if c.ps[i] != nil {
+			c.ps[i].Close()
+			c.ps[i] = nil
+		}
+	}
+	if c.conn != nil {
+		c.conn.Raw(func(interface{}) error { return driver.ErrBadConn })
+		c.conn.Close()
+		c.conn = nil
+	}
+}
+
 func (c *Client) Run(ctxExec context.Context) {
 	finch.Debug("run client %s: %d stmts, iter %d/%d/%d", c.RunLevel.ClientId(), len(c.Statements), c.IterExecGroup, c.IterClients, c.Iter)
 	var err error
@@ -179,15 +197,7 @@ func (c *Client) Run(ctxExec context.Context) {
 			n := runtime.Stack(b, false)
 			err = fmt.Errorf("PANIC: %v\n%s", r, string(b[0:n]))
 		}
-		for i := range c.ps {
-			if c.ps[i] == nil {
-				continue
-			}
-			c.ps[i].Close()
-		}
-		if c.conn != nil {
-			c.conn.Close()
-		}
+		c.disconnect()
 		// Context cancellation is not an error it's runtime elapsing or CTRL-C
 		if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
 			c.Error.Err = err
-- 
2.43.0


From 255594690e67e393e5f21606365f9d2b57398579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 06/52] fix: stage and global scope: generate the value once,
 not never

---
 data/scope.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 4969e47..0ebd4a3 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -152,6 +152,7 @@ type ScopedGenerator struct {
 	vals         []interface{}          //   last value
 	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
 	oneTime      bool                   // One time scopes: STAGE and GLOBAL
+	mux          *sync.Mutex            //   guards vals because all clients share it
 	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
 	cgIter       map[uint]uint          //   last client iter
 	cgVals       map[uint][]interface{} //   last client value
@@ -180,6 +181,7 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
+		s.mux = &sync.Mutex{}
 	} else {
 		panic("invalid scope: " + id.Scope)
 	}
@@ -210,6 +212,12 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		s.cgMux.Unlock()
 		return v
 	}
+	if s.oneTime {
+		s.mux.Lock()
+		defer s.mux.Unlock()
+		s.vals = s.g.Values(cnt)
+		return s.vals
+	}
 	s.last[s.sno] = cnt[s.sno] // save last run counter value
 	s.vals = s.g.Values(cnt)   // generate new data value
 	return s.vals
@@ -247,9 +255,10 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// One time scopes: STAGE and GLOBAL
 	if s.oneTime {
-		// @todo guard with mux
-		if s.vals != nil {
-			return s.Call(cnt)
+		s.mux.Lock()
+		defer s.mux.Unlock()
+		if s.vals == nil { // first call by any client
+			s.vals = s.g.Values(cnt)
 		}
 		return s.vals
 	}
-- 
2.43.0


From c0bbd3e87295a638ecf38327a861de55be32c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 07/52] fix: exec-group and workload scope: clients with the
 same number in different groups are different clients

---
 data/scope.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 0ebd4a3..5165c80 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -145,17 +145,25 @@ func (s *Scope) Reset() {
 // care which--to handle either scoped value generator or explicit calls like
 // @d().
 type ScopedGenerator struct {
-	id           Id                     // identify this copy of the real Generator for debugging
-	g            Generator              // real Generator:
-	sno          byte                   //   scope number in RunCount (if singleClient == true)
-	last         RunCount               //   last time value was generated
-	vals         []interface{}          //   last value
-	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                   // One time scopes: STAGE and GLOBAL
-	mux          *sync.Mutex            //   guards vals because all clients share it
-	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
-	cgIter       map[uint]uint          //   last client iter
-	cgVals       map[uint][]interface{} //   last client value
+	id           Id                         // identify this copy of the real Generator for debugging
+	g            Generator                  // real Generator:
+	sno          byte                       //   scope number in RunCount (if singleClient == true)
+	last         RunCount                   //   last time value was generated
+	vals         []interface{}              //   last value
+	singleClient bool                       // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
+	oneTime      bool                       // One time scopes: STAGE and GLOBAL
+	mux          *sync.Mutex                //   guards vals because all clients share it
+	cgMux        *sync.RWMutex              // Multi client: client-group, exec-group, workload
+	cgIter       map[cgClient]uint          //   last client iter
+	cgVals       map[cgClient][]interface{} //   last client value
+}
+
+// cgClient identifies a client in multi client scopes. Client numbers are unique
+// only within a client group, and client group numbers only within an exec group.
+type cgClient struct {
+	execGroup   uint
+	clientGroup uint
+	client      uint
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -176,8 +184,8 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_WORKLOAD) {
 		// Multi client scopes: iter = each <client, iter>
 		s.cgMux = &sync.RWMutex{}
-		s.cgIter = map[uint]uint{}
-		s.cgVals = map[uint][]interface{}{}
+		s.cgIter = map[cgClient]uint{}
+		s.cgVals = map[cgClient][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
@@ -204,7 +212,7 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		Don't debug or call anything slow/superfluous.
 	*/
 	if s.cgMux != nil { // multi client
-		clientNo := cnt[CLIENT]
+		clientNo := cgClient{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
 		v := s.g.Values(cnt)
 		s.cgMux.Lock()
 		s.cgIter[clientNo] = cnt[ITER]
@@ -241,7 +249,7 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// Multi client scopes: CLIENT_GROUP, EXEC_GROUP, WORKLOAD
 	if s.cgMux != nil {
-		clientNo := cnt[CLIENT]
+		clientNo := cgClient{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
 		s.cgMux.RLock()
 		prevIter, ok := s.cgIter[clientNo]
 		if !ok || cnt[ITER] > prevIter {
-- 
2.43.0


From 6e270776e299dc1d6cb4fb78449db052a1c68c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 08/52] fix: stage scope: do not reuse the data key of an
 earlier stage

---
 compute/server.go | 2 +-
 data/scope.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute/server.go b/compute/server.go
index 8a253d5..55c1854 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -100,7 +100,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		}
 	}
 
-	s.gds.Reset() // keep data global and stage data, delete the rest
+	s.gds.Reset() // keep data from globally-scoped generators; delete the rest
 
 	// Create and boot local instance first because if this doesn't work,
 	// then remotes shouldn't work either because they all boot with the
diff --git a/data/scope.go b/data/scope.go
index 5165c80..1320271 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -124,7 +124,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 
 func (s *Scope) Reset() {
 	for keyName, k := range s.Keys {
-		if k.Scope == finch.SCOPE_STAGE || k.Scope == finch.SCOPE_GLOBAL {
+		if k.Scope == finch.SCOPE_GLOBAL {
 			continue
 		}
 		finch.Debug("delete %s (scope: %s)", keyName, k.Scope)
-- 
2.43.0


From f7cd4317eae32c1e8769d2bcc7b1c871269d5f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 09/52] fix: data keys that start with the name of another data
 key

---
 trx/trx.go | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index ad0ab5c..6247714 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -504,16 +504,10 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 	}
 
-	replacements := make([]string, len(dataFormats)*2) // *2 because key + value
-	i := 0
-	for k, v := range dataFormats {
-		replacements[i] = k
-		replacements[i+1] = v
-		i += 2
-	}
-	finch.Debug("replacements: %v", replacements)
-	r := strings.NewReplacer(replacements...)
-	s.Query = r.Replace(query)
+	// Replace whole data keys only: @id must not match in @id2
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(name string) string {
+		return dataFormats[strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)]
+	})
 
 	// Caller debug prints full Statement
 	return []*Statement{s}, nil
@@ -589,22 +583,17 @@ func Calls(dataKeys []string) []byte {
 // makes @d row scoped because each row will call @d again. This is called
 // when the /*!csv N template */ is being processed (see reCSV).
 func RowScope(keys map[string]bool, csvTemplate string) string {
-	csvDataKeys := DataKeyPattern.FindAllString(csvTemplate, -1)
-KEY:
-	for dataKey := range keys { // row scoped keys
-		for _, k := range csvDataKeys { // all keys in csvTemplate
-			if !strings.HasPrefix(k, dataKey) {
-				continue // not the row scoped key we're looking for
-			}
-			// This is first occurrence of row scoped key in csvTemplate.
-			// Add () suffix if not already set.
-			if !strings.HasSuffix(k, EXPLICIT_CALL_SUFFIX) {
-				csvTemplate = strings.Replace(csvTemplate, k, k+EXPLICIT_CALL_SUFFIX, 1) // 1=only first occurrence
-			}
-			continue KEY // only check/change first occurrence, so this row scoped key is done
+	seen := map[string]bool{}
+	return DataKeyPattern.ReplaceAllStringFunc(csvTemplate, func(k string) string {
+		dataKey := strings.TrimSuffix(k, EXPLICIT_CALL_SUFFIX)
+		if !keys[dataKey] || seen[dataKey] {
+			return k // not row scoped, or not first occurrence
 		}
-	}
-	return csvTemplate
+		// This is first occurrence of row scoped key in csvTemplate.
+		// Add () suffix if not already set.
+		seen[dataKey] = true
+		return dataKey + EXPLICIT_CALL_SUFFIX
+	})
 }
 
 func cfgKey(s string) string {
-- 
2.43.0


From b6417c768f61714be0bff8276673e7b1ca7dc989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 10/52] fix: saved columns: use the newest saved value in
 scopes larger than one save

---
 data/scope.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 1320271..3bc14a8 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -197,10 +197,16 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	return s
 }
 
-func (s *ScopedGenerator) Name() string               { return s.g.Name() }
-func (s *ScopedGenerator) Id() Id                     { return s.id }
-func (s *ScopedGenerator) Format() (uint, string)     { return s.g.Format() }
-func (s *ScopedGenerator) Scan(any interface{}) error { return s.g.Scan(any) }
+func (s *ScopedGenerator) Name() string           { return s.g.Name() }
+func (s *ScopedGenerator) Id() Id                 { return s.id }
+func (s *ScopedGenerator) Format() (uint, string) { return s.g.Format() }
+
+// Scan saves a value (column or insert ID). The next call to Values returns it
+// even if the scope iteration does not change.
+func (s *ScopedGenerator) Scan(any interface{}) error {
+	s.last = RunCount{}
+	return s.g.Scan(any)
+}
 
 func (s *ScopedGenerator) Copy() Generator {
 	panic("cannot copy ScopedGenerator") // only real Generator is copied
-- 
2.43.0


From 076e7f41c1afda174a3d99530f6b566b74b04c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 11/52] fix: global scope: create the data generator, not none

---
 data/scope.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 3bc14a8..d6ddd1d 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -106,8 +106,10 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 		finch.Debug("%s: defaults to %s scope", k.Name, k.Scope)
 	}
 
-	prev := s.CopiedAt[keyName] // last time we saw this @d
-	if rl.GreaterThan(prev, k.Scope) {
+	// First time we see this @d, or its scope has changed since last time. Global
+	// scope never changes, so it's copied only the first time.
+	prev, ok := s.CopiedAt[keyName] // last time we saw this @d
+	if !ok || rl.GreaterThan(prev, k.Scope) {
 		s.CopyCount[keyName] += 1
 		id := Id{
 			RunLevel: rl,
-- 
2.43.0


From f2aeb0220b88f2c61d086d838a612404daaccba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 12/52] fix: stop waiting for rate limits and idle time when
 the runtime elapses or on CTRL-C

---
 client/client.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 499a025..239bc11 100644
--- a/client/client.go
+++ b/client/client.go
@@ -259,18 +259,35 @@ ITER:
 
 			// Idle time
 			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
+				idle := time.NewTimer(c.Statements[i].Idle)
+				select {
+				case <-idle.C:
+				case <-ctxExec.Done():
+					idle.Stop()
+					err = ctxExec.Err()
+					return // runtime elapsed or CTRL-C
+				}
 				continue
 			}
 
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
-				<-c.TPS
+				select {
+				case <-c.TPS:
+				case <-ctxExec.Done():
+					err = ctxExec.Err()
+					return // runtime elapsed or CTRL-C
+				}
 			}
 
 			// If query, check QPS
 			if c.QPS != nil {
-				<-c.QPS
+				select {
+				case <-c.QPS:
+				case <-ctxExec.Done():
+					err = ctxExec.Err()
+					return // runtime elapsed or CTRL-C
+				}
 			}
 
 			// Generate new data values for this query. A single data generator
-- 
2.43.0


From 45018630da94e6641fad8d914f57cfae349e4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:22 +0000
Subject: [PATCH 13/52] fix: combined rate limits: do not take and drop the
 permits of a shared limit

---
 limit/rate.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/limit/rate.go b/limit/rate.go
index 0df3de7..d770135 100644
--- a/limit/rate.go
+++ b/limit/rate.go
@@ -100,7 +100,7 @@ func And(a, b Rate) Rate {
 	lm := &and{
 		a: a,
 		b: b,
-		c: make(chan bool, 1),
+		c: make(chan bool), // not buffered: hold at most one permit, see run
 	}
 	go lm.run()
 	return lm
@@ -133,23 +133,12 @@ func (lm *and) Stop() {
 }
 
 func (lm *and) run() {
-	a := false
-	b := false
+	// Take only what can be used because a and b can be shared by other limiters:
+	// taking (and dropping) more from one while waiting for the other would steal
+	// from the clients that share it.
 	for {
-		select {
-		case <-lm.a.Allow():
-			a = true
-		case <-lm.b.Allow():
-			b = true
-		}
-		if a && b {
-			select {
-			case lm.c <- true:
-			default:
-				// dropped
-			}
-			a = false
-			b = false
-		}
+		<-lm.a.Allow()
+		<-lm.b.Allow()
+		lm.c <- true
 	}
 }
-- 
2.43.0


From c0a36c88e252b434e4b196722346592b377ef768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 14/52] fix: database-size: sum the size of all tables, of the
 given database, and analyze them

---
 limit/data.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 0d7d800..eb31e06 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -181,18 +181,17 @@ func (lm *Size) More(conn *sql.Conn) bool {
 
 	// Set queries on first call
 	if lm.query == "" {
-		lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE "
+		lm.query = "SELECT COALESCE(SUM(data_length + index_length), 0) AS bytes FROM information_schema.TABLES WHERE "
 		if lm.db != "" {
 			log.Printf("Database size limit: %s %s (progress report every %d%%)", lm.db, lm.maxStr, lm.r)
 			lm.query += "table_schema='" + lm.db + "'"
 
 			var tbls []string
-			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES")
+			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
 				return false
 			}
-			rows.Close()
 			for rows.Next() {
 				var name, base string
 				err = rows.Scan(&name, &base)
@@ -202,8 +201,9 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				if base != "BASE TABLE" {
 					continue
 				}
-				tbls = append(tbls, name)
+				tbls = append(tbls, "`"+lm.db+"`.`"+name+"`")
 			}
+			rows.Close()
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-- 
2.43.0


From f9369a5a5fef00d6f336143df8760825e468c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 15/52] fix: after CTRL-C the server does not spin or wait
 forever for instances

---
 compute/api.go    |  3 ++-
 compute/server.go | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index a45ea26..7982f7e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -121,12 +121,13 @@ func (a *API) Stage(newStage *stageMeta) error {
 	// Wait for clients to check in (GET /run), be signaled that stage.done=true,
 	// send final stats, then call POST /run to terminate
 	timeout := time.After(3 * time.Second)
+WAIT:
 	for {
 		time.Sleep(100 * time.Millisecond)
 		select {
 		case <-timeout:
 			finch.Debug("timeout waiting for clients to reset")
-			break
+			break WAIT
 		default:
 		}
 		oldStage.Lock()
diff --git a/compute/server.go b/compute/server.go
index 55c1854..eeca8be 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"sync"
+	"time"
 
 	"github.com/rs/xid"
 
@@ -169,6 +170,8 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 
 	// Wait for instances to finish running
 	running := booted
+	terminated := ctxFinch.Done()
+	var giveUp <-chan time.Time
 	for running > 0 {
 		select {
 		case ack := <-m.doneChan:
@@ -182,11 +185,17 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 					log.Printf("%d/%d instances running", running, nInstances)
 				}
 			}
-		case <-ctxFinch.Done():
+		case <-terminated:
+			terminated = nil // only once, else this loop spins
+			// Instances that don't stop (lost, not responding) must not block exit
+			giveUp = time.After(5 * time.Second)
 			// Signal remote instances to stop early and (maybe) send finals stats
 			if s.api != nil {
 				s.api.Stage(nil)
 			}
+		case <-giveUp:
+			log.Printf("%d instances did not stop, ignoring", running)
+			return nil
 		}
 	}
 
-- 
2.43.0


From ca76e46dcbc08872014eaa9182b60b92f1ffae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 16/52] fix: do not record stats in a Trx that is being
 reported

Trx.Record and Error loaded the active stats and then wrote to them without
synchronization with Swap: an event recorded while the Collector swapped went
to stats that were already being read (and were reset before they were active
again), so it was lost, and an error was a concurrent map read and write.
---
 stats/collector.go |  2 +-
 stats/stats.go     | 55 ++++++++++++++++++++++++----------------------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 53a473a..2737de4 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -54,7 +54,7 @@ func (in *Instance) Combine(from []Instance) {
 // Else, they're collected/reported once when the stage finishes and calls Stop.
 type Collector struct {
 	Freq       time.Duration
-	trx        [][]*Trx   // lock-free trx stats per client
+	trx        [][]*Trx   // trx stats per client
 	stats      [][]*Stats // stats per trx (per client)
 	local      Instance   // local instance stats
 	nInstances uint       // number of instances in interval
diff --git a/stats/stats.go b/stats/stats.go
index 3e8ea3f..93c503f 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -4,7 +4,7 @@ package stats
 
 import (
 	"math"
-	"sync/atomic"
+	"sync"
 )
 
 var nEventTypes = 4 // number of event types:
@@ -16,13 +16,13 @@ const (
 	TOTAL
 )
 
-// Stats are lock-free basic statistics: query count (N), min and max response time,
+// Stats are basic statistics: query count (N), min and max response time,
 // and response time distribution and percentiles using the same histogram bucketes
 // as MySQL 8.0. All times are microseconds.
 //
 // Finch calculates stats per-client and per-trx (Finch trx file, not MySQL trx).
 // If there are 8 clients running 2 trx, then there are 16 instances of Stats
-// which is half of the lock-free design. The other half is Trx.
+// which is half of the design. The other half is Trx.
 type Stats struct {
 	Buckets [][]uint64        // response time (μs) for percentiles
 	Min     []int64           // response time (μs)
@@ -180,54 +180,57 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 
 // --------------------------------------------------------------------------
 
-// Trx is lock-free stats for one trx file by one client. It contains 2 pre-allocated
+// Trx is stats for one trx file by one client. It contains 2 pre-allocated
 // Stats struct called "a" and "b": one active, one reporting. A Client records
 // to the active stats. When the Collector is ready to collect stats, it calls
-// Swap, and Trx atomically swaps "a" and "b". If, for example, "a" was active,
-// then it's returned to the Collector for reporting, and "b" is made active for
-// on-going stats recording by the Client. This is the other half of the lock-free
-// Stats design.
+// Swap, and Trx swaps "a" and "b". If, for example, "a" was active, then it's
+// returned to the Collector for reporting, and "b" is made active for on-going
+// stats recording by the Client.
+//
+// The lock makes Swap wait for a Record or Error in progress, else the event
+// would be recorded in stats that are already being reported (and then reset).
+// It's not contended: only one Client records, and Swap is called once per interval.
 type Trx struct {
 	Name string
 	a    *Stats
 	b    *Stats
-	sp   atomic.Pointer[Stats]
-	onA  bool
+	mu   sync.Mutex
+	sp   *Stats // active: a or b
 }
 
 func NewTrx(name string) *Trx {
 	t := &Trx{
 		Name: name,
-		sp:   atomic.Pointer[Stats]{},
 		a:    NewStats(),
 		b:    NewStats(),
-		onA:  true,
 	}
-	t.sp.Store(t.a)
+	t.sp = t.a
 	return t
 }
 
 func (t *Trx) Record(eventType byte, d int64) {
-	t.sp.Load().Record(eventType, d)
+	t.mu.Lock()
+	t.sp.Record(eventType, d)
+	t.mu.Unlock()
 }
 
 func (t *Trx) Error(n uint16) {
-	t.sp.Load().Errors[n] += 1
+	t.mu.Lock()
+	t.sp.Errors[n] += 1
+	t.mu.Unlock()
 }
 
 func (t *Trx) Swap() *Stats {
-	// on A; switch to B
-	if t.onA {
-		t.b.Reset()
-		t.sp.Store(t.b)
-		t.onA = false
-		return t.a
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	old := t.sp
+	if old == t.a { // on A; switch to B
+		t.sp = t.b
+	} else { // on B; switch to A
+		t.sp = t.a
 	}
-	// on B; switch to A
-	t.a.Reset()
-	t.sp.Store(t.a)
-	t.onA = true
-	return t.b
+	t.sp.Reset()
+	return old
 }
 
 /*
-- 
2.43.0


From 78e7c9d7f16f7d1f17d0c9168a4b3eb62ddd6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 17/52] fix: stats min and errors when stats are combined and
 copied

Combine set Min to 0 when the other stats had no events, so the minimum in
reports was 0 as soon as one client (or trx file or instance) was idle for one
interval. Copy kept the errors of the previous copy, so combined reports
showed errors of past intervals again.
---
 stats/stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index 93c503f..d6feb25 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -112,6 +112,9 @@ func (s *Stats) Copy(c *Stats) {
 		s.Max[i] = c.Max[i]
 		s.N[i] = c.N[i]
 	}
+	for k := range s.Errors {
+		delete(s.Errors, k)
+	}
 	for k, v := range c.Errors {
 		s.Errors[k] = v
 	}
@@ -122,6 +125,9 @@ func (s *Stats) Copy(c *Stats) {
 // is not. This is used to create total stats in the Collector and reporters.
 func (s *Stats) Combine(c *Stats) {
 	for i := 0; i < nEventTypes; i++ {
+		if c.N[i] == 0 {
+			continue // no events, so c.Min[i] is not a response time
+		}
 		for j := range s.Buckets[i] {
 			s.Buckets[i][j] += c.Buckets[i][j]
 		}
-- 
2.43.0


From 43c4cd2e32d65167c52d3a316d9839a861d415f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 18/52] fix: percentiles in the same histogram bucket or not in
 order

Only one percentile advanced per bucket, so when several were in the same
bucket (few or similar response times) all but the first were reported as the
value of following, often empty, buckets: P999 far above the max. Percentiles
configured in descending order had the same problem.
---
 stats/stats.go | 54 ++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index d6feb25..87a5445 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -149,36 +149,34 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 		return []uint64{}
 	}
 	q = make([]uint64, len(p)) // returned ^ approximate percentiles
-	n := uint64(0)             // running total event count
-	f := 0.0                   // running total frequency (percentile per bucket)
-	j := 0                     // index in p[] and q[]
-	for i := range s.Buckets[eventType] {
-		n += s.Buckets[eventType][i]
-		f = float64(n) / float64(s.N[eventType]) * 100
-		// i    f     p[j]   Bucket[i]
-		// ---  ----  -----  -----------------
-		// 100  94.1         500100 (500.1 ms)
-		// 101  95.7         502300 (502.3 ms)
-		// 102  96.0  95.0
-		//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
-		if f >= p[j] {
-			q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
+	for j := range p {         // in any order, and more than one can be in the same bucket
+		n := uint64(0) // running total event count
+		f := 0.0       // running total frequency (percentile per bucket)
+		for i := range s.Buckets[eventType] {
+			n += s.Buckets[eventType][i]
+			f = float64(n) / float64(s.N[eventType]) * 100
+			// i    f     p[j]   Bucket[i]
+			// ---  ----  -----  -----------------
+			// 100  94.1         500100 (500.1 ms)
+			// 101  95.7         502300 (502.3 ms)
+			// 102  96.0  95.0
+			//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
+			if f >= p[j] {
+				q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
 
-			intP, _ := math.Modf(p[j])
-			intF, _ := math.Modf(f)
-			if intP != intF && i > 0 {
-				// Take midpoint value between two whole percentiles like P45<->P60
-				// to obtain a more accurate P between them, like P50 in this example.
-				// q[j] is already high value, so get low value to calc midpoint.
-				lowValue := uint64(base * math.Pow(factor, float64(i-1)))
-				q[j] = (q[j] + lowValue) / 2 // midpoint
-			} else if i == 0 {
-				q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
+				intP, _ := math.Modf(p[j])
+				intF, _ := math.Modf(f)
+				if intP != intF && i > 0 {
+					// Take midpoint value between two whole percentiles like P45<->P60
+					// to obtain a more accurate P between them, like P50 in this example.
+					// q[j] is already high value, so get low value to calc midpoint.
+					lowValue := uint64(base * math.Pow(factor, float64(i-1)))
+					q[j] = (q[j] + lowValue) / 2 // midpoint
+				} else if i == 0 {
+					q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
+				}
+				break // found p[j]
 			}
-			if j == len(q)-1 { // stop early once all p[] found
-				break
-			}
-			j++ // find next p[]
 		}
 	}
 	return // q
-- 
2.43.0


From f10ba48d4d747f93c8534539c9c4deb5c81ad3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 19/52] fix: collector mixes intervals, loses and repeats
 instance stats

- Collect added the local stats to the interval being filled whatever its
  number: with a late remote instance, an interval was reported with stats of
  two different intervals, or the index was out of range.
- Recv of a later interval reported the current one even if empty, did not
  advance the interval number, and did not report the next one when complete.
- Duplicate stats (a retried POST /stats) completed an interval and could be
  out of range.
- Instances in the interval shared the local stats that the next Collect resets.
- Stop decided whether there is a last interval to collect by the last report,
  which is late or early with remote instances, dropped an incomplete last
  interval, and said that the final report was done when it timed out.
- Stats received after Stop were reported to stopped reporters.
---
 stats/collector.go | 160 ++++++++++++++++++++++++++-------------------
 1 file changed, 93 insertions(+), 67 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 2737de4..da29401 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -63,13 +63,13 @@ type Collector struct {
 	start      time.Time // when Start was called, calculates Runtime
 	last       time.Time // when Collect was last called
 	reporters  []Reporter
-	finalChan  chan struct{}
 
 	*sync.Mutex
-	intervalNo uint       // current interval being filled
-	interval   []Instance // all Instance stats
-	n          uint       // index in interval
-	reported   time.Time  // when Report was last called
+	intervalNo uint            // current interval being filled
+	interval   []Instance      // all Instance stats
+	n          uint            // number of Instance stats in interval
+	received   map[string]bool // remote instances in interval
+	stopped    bool            // reporters stopped, don't report
 }
 
 func NewCollector(cfg config.Stats, hostname string, nInstances uint) (*Collector, error) {
@@ -86,11 +86,11 @@ func NewCollector(cfg config.Stats, hostname string, nInstances uint) (*Collecto
 		stopChan:   make(chan struct{}),
 		doneChan:   make(chan struct{}),
 		local:      NewInstance(hostname),
-		interval:   make([]Instance, nInstances),
+		interval:   make([]Instance, 0, nInstances),
 		nInstances: nInstances,
 		reporters:  reporters,
 		intervalNo: 1,
-		finalChan:  make(chan struct{}),
+		received:   map[string]bool{},
 		Mutex:      &sync.Mutex{},
 	}, nil
 }
@@ -226,65 +226,65 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 		until Report returns true, which means all stats received and reported.
 	*/
 
-	reported := false
-	var lastReported time.Duration
-	if c.Freq == 0 {
-		reported = c.Collect() // first/last/only collection
-	} else {
+	if c.Freq > 0 {
 		close(c.stopChan) // stop goroutine in Start ^
 		<-c.doneChan      // wait for Start to return
-		if terminated {
-			//finch.Debug("terminated; not waiting for next report")
-			//reported = true
-			//goto STOP
-		}
 	}
 
-	c.Lock()
-	lastReported = time.Now().Sub(c.reported)
-	c.Unlock()
-	finch.Debug("last report: %s ago", lastReported)
+	// Final local stats: the only stats if Freq=0, else the rest since the last
+	// tick unless there was a tick just now (case C)
+	if c.Freq == 0 || Now().Sub(c.last) >= c.Freq/2 {
+		finch.Debug("last collect")
+		c.Collect()
+	}
 
-	if reported || lastReported < (c.Freq/2) {
-		finch.Debug("final report done")
-		reported = true
-	} else {
-		if c.Freq > 0 {
-			finch.Debug("last periodic collect")
-			reported = c.Collect()
-			if reported {
-				goto STOP
-			}
-		}
+	// Wait for stats from the remote instances in the same interval
+	finch.Debug("waiting %s for final report...", timeout)
+	complete := c.wait(timeout)
+	c.Finish()
+	finch.Debug("collector stopped")
+	return complete
+}
 
-		finch.Debug("waiting %s for final report...", timeout)
-		timeoutC := time.After(timeout)
-	WAIT:
-		for !reported {
-			select {
-			case <-timeoutC:
-				c.Lock()
-				reported = c.Report(true) // true=force
-				c.Unlock()
-				break WAIT
-			default:
-				time.Sleep(100 * time.Millisecond)
-			}
-			c.Lock()
-			reported = c.Report(false)
-			c.Unlock()
+// wait waits until the current interval is complete and reported. It returns
+// false on timeout.
+func (c *Collector) wait(timeout time.Duration) bool {
+	timeoutC := time.After(timeout)
+	for {
+		c.Lock()
+		pending := c.n > 0 && !c.stopped
+		c.Unlock()
+		if !pending {
+			return true
 		}
+		select {
+		case <-timeoutC:
+			return false
+		case <-time.After(100 * time.Millisecond):
+		}
+	}
+}
+
+// Finish reports the current interval if there are any stats, even if it's not
+// complete, and stops the reporters. Stats received later are discarded. It's
+// called by Stop and by the server when there's no local instance that calls Stop.
+// Only the first call has an effect.
+func (c *Collector) Finish() {
+	c.Lock()
+	if c.stopped {
+		c.Unlock()
+		return
 	}
+	if c.n > 0 {
+		c.Report(true) // true=force
+	}
+	c.stopped = true
+	c.Unlock()
 
-STOP:
 	finch.Debug("stopping reporters")
 	for _, r := range c.reporters {
 		r.Stop()
 	}
-
-	finch.Debug("collector stopped")
-	close(c.finalChan)
-	return reported
 }
 
 // Collect collects stats from all local clients. It's called periodically by
@@ -331,11 +331,20 @@ func (c *Collector) Collect() bool {
 		}
 	}
 
+	// Reporters (and interval, if waiting for remote instances) need a copy
+	// because the local stats are reset by the next Collect
+	in := c.local
+	in.Total = NewStats()
+	in.Total.Copy(c.local.Total)
+	in.Trx = make(map[string]*Stats, len(c.local.Trx))
+	for name, s := range c.local.Trx {
+		in.Trx[name] = NewStats()
+		in.Trx[name].Copy(s)
+	}
+
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = c.local
-	c.n++
-	return c.Report(false)
+	return c.add(in)
 }
 
 // Recv receives stats from remote compute instances. It's called by
@@ -344,32 +353,49 @@ func (c *Collector) Recv(in Instance) {
 	finch.Debug("recv %+v", in)
 	c.Lock()
 	defer c.Unlock()
+	if in.Interval == c.intervalNo && c.received[in.Hostname] {
+		log.Printf("Discarding duplicate stats: %+v", in)
+		return
+	}
+	if c.add(in) || in.Interval != c.intervalNo {
+		return // reported or discarded
+	}
+	c.received[in.Hostname] = true
+}
 
-	// Is the received interval in the past? This can happen for stats from remote
+// add adds instance stats to the current interval and reports it if complete.
+// The caller must lock the Collector.
+func (c *Collector) add(in Instance) bool {
+	if c.stopped {
+		log.Printf("Discarding stats received after final report: %+v", in)
+		return false
+	}
+
+	// Is the interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
 	// out of order, we just have to drop the old/delayed interval.
 	if in.Interval < c.intervalNo {
 		log.Printf("Discarding past stats: %+v", in)
-		return
+		return false
 	}
 
-	// Reverse of above: is received interval in the future? If yes, then report
+	// Reverse of above: is the interval in the future? If yes, then report
 	// the current interval because it must not have filled up (else it would have
 	// reported earlier). This can happen if stats from one or more remote instance
 	// are return  lost, so the interval doesn't complete. This will report a partial interval.
 	if in.Interval > c.intervalNo {
-		log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
-		c.Report(true) // true=force
-		c.interval[0] = in
-		c.n = 1
-		return
+		if c.n > 0 {
+			log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
+			c.Report(true) // true=force
+		}
+		c.intervalNo = in.Interval
 	}
 
 	// Stats in current interval; buffer until we've received all stats
-	c.interval[c.n] = in
+	c.interval = append(c.interval[:c.n], in)
 	c.n += 1
-	c.Report(false)
+	return c.Report(false)
 }
 
 // Report reports stats when then current interval is completed: when there are
@@ -388,8 +414,8 @@ func (c *Collector) Report(force bool) bool {
 	for _, r := range c.reporters {
 		r.Report(c.interval[0:c.n])
 	}
-	c.reported = time.Now()
 	c.intervalNo += 1
 	c.n = 0
+	c.received = map[string]bool{}
 	return true // interval complete and reported
 }
-- 
2.43.0


From 0f620e24e52e31327115fe436261f72070ca3512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 20/52] fix: finish stats without a local instance

With disable-local nobody stopped the collector: an incomplete last interval
was not reported and reporters were not stopped.
---
 compute/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compute/server.go b/compute/server.go
index eeca8be..901f462 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -99,6 +99,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		if err != nil {
 			return err
 		}
+		defer m.stats.Finish() // if not stopped by local instance
 	}
 
 	s.gds.Reset() // keep data from globally-scoped generators; delete the rest
-- 
2.43.0


From 3b52a7bccef867607db796cb6b237338eab22f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 21/52] fix: stats.freq and stats.report in a stage file were
 ignored

Stage.With, which is called after the stage file is read, replaced them with
the values of _all.yaml, and stats.freq even if there is no _all.yaml, so a
stage file could not enable periodic statistics.
---
 config/file.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index 60bd355..c20cdf6 100644
--- a/config/file.go
+++ b/config/file.go
@@ -68,8 +68,10 @@ func (c *Stage) With(b Base) {
 
 	// Stats has a map, so copy in all fields manually
 	c.Stats.Disable = setBool(c.Stats.Disable, b.Stats.Disable)
-	c.Stats.Freq = b.Stats.Freq
-	if len(b.Stats.Report) > 0 {
+	if c.Stats.Freq == "" {
+		c.Stats.Freq = b.Stats.Freq
+	}
+	if len(c.Stats.Report) == 0 && len(b.Stats.Report) > 0 {
 		c.Stats.Report = map[string]map[string]string{}
 		for r := range b.Stats.Report {
 			c.Stats.Report[r] = map[string]string{}
-- 
2.43.0


From 2e214dd015f52e5f1564fd794571a8db9dec575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 22/52] fix: report stats of a stage shorter than half an
 interval

Stop collected the final stats only if the last tick was at least half an
interval ago, but counted from the start if there was no tick yet, so a short
stage was not reported at all.
---
 stats/collector.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index da29401..103fe21 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -231,9 +231,9 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 		<-c.doneChan      // wait for Start to return
 	}
 
-	// Final local stats: the only stats if Freq=0, else the rest since the last
-	// tick unless there was a tick just now (case C)
-	if c.Freq == 0 || Now().Sub(c.last) >= c.Freq/2 {
+	// Final local stats: the only stats if there was no tick, else the rest since
+	// the last tick unless there was a tick just now (case C)
+	if c.local.Interval == 0 || Now().Sub(c.last) >= c.Freq/2 {
 		finch.Debug("last collect")
 		c.Collect()
 	}
-- 
2.43.0


From 468fc59389d1c0d417f831c094546bb75217f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 23/52] fix: requests to the server: response body cut off,
 body lost on retry

The request context was cancelled before the response body was read, so a body
larger than the read buffer (trx file, stage config) failed. The body reader was
used up by the first try, so every retry sent an empty body: a boot error became
a successful boot, and stats were lost. An error reading the response body is
retried like any other.
---
 proto/proto.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45cace3..acc0c2a 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -56,9 +56,11 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	url := c.URL(endpoint, params)
 	finch.Debug("%s %s", method, url)
 
-	buf := new(bytes.Buffer)
+	var payload []byte
 	if data != nil {
+		buf := new(bytes.Buffer)
 		json.NewEncoder(buf).Encode(data)
+		payload = buf.Bytes()
 	}
 
 	var err error
@@ -69,17 +71,18 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	for r.Tries == -1 || try < r.Tries {
 		try += 1
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
-		req, _ = http.NewRequestWithContext(ctxReq, method, url, buf)
+		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(payload)) // new reader for each try
 		resp, err = c.client.Do(req)
-		cancelReq()
 		if err != nil {
+			cancelReq()
 			goto RETRY
 		}
 
 		body, err = io.ReadAll(resp.Body)
 		resp.Body.Close()
+		cancelReq() // after reading body because it aborts reading
 		if err != nil {
-			return nil, nil, err
+			goto RETRY
 		}
 
 		switch resp.StatusCode {
-- 
2.43.0


From 1369aaba11d04db5c5fba4be2b2cd004bc89a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 24/52] fix: remote instances mix up trx files with the same
 base name

Trx files fetched from the server were all stored in one directory by base name:
the second file with the same name could not be written (mode 0440), or as root
overwrote the first, so both trx ran it.
---
 compute/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index d7b0542..7a3cc5b 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -202,7 +202,13 @@ func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir
 		}
 		finch.Debug("%+v", resp)
 
-		filename := filepath.Join(tmpdir, filepath.Base(trx[i].File))
+		// Separate dir for each file because files in different dirs can have
+		// the same base name
+		dir := filepath.Join(tmpdir, fmt.Sprintf("%d", i))
+		if err := os.Mkdir(dir, 0700); err != nil {
+			return err
+		}
+		filename := filepath.Join(dir, filepath.Base(trx[i].File))
 		f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0440)
 		if err != nil {
 			return err
-- 
2.43.0


From 35559005dc5cd8ef71ec293e4c848399aaf20a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 25/52] fix: remote instances report stats when stats are
 disabled

---
 compute/client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compute/client.go b/compute/client.go
index 7a3cc5b..cca2eeb 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -106,13 +106,16 @@ func (c *Client) run(ctxFinch context.Context) error {
 		"client":   c.name,
 		"stage-id": c.client.StageId,
 	}
-	stats, err := stats.NewCollector(cfg.Stats, c.name, 1)
-	if err != nil {
-		return err
+	var collector *stats.Collector
+	if !config.True(cfg.Stats.Disable) {
+		collector, err = stats.NewCollector(cfg.Stats, c.name, 1)
+		if err != nil {
+			return err
+		}
 	}
 
 	log.Printf("[%s] Booting", stageName)
-	local := stage.New(cfg, c.gds, stats)
+	local := stage.New(cfg, c.gds, collector)
 	if err := local.Prepare(ctxFinch); err != nil {
 		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
 		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
-- 
2.43.0


From 24898c9691edc70a5886e3f92b5a2a2c11e35073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 26/52] fix: remote instance does not tell the server every
 boot error

Only an error preparing the stage was sent to the server. If trx files could not
be fetched or stored, or on CTRL-C while booting, the server waited forever for
the instance to boot.
---
 compute/client.go | 82 +++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/compute/client.go b/compute/client.go
index cca2eeb..3b4536e 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -80,46 +80,22 @@ func (c *Client) run(ctxFinch context.Context) error {
 	fmt.Printf("#\n# %s (%s)\n#\n", stageName, cfg.Id)
 
 	// ----------------------------------------------------------------------
-	// Fetch all stage and trx files from server, put in local temp dir
+	// Local boot and ack
 	tmpdir, err := os.MkdirTemp("", "finch")
-	if err != nil {
-		return fmt.Errorf("cannot make temp dir: %s", err)
-	}
-	if !finch.Debugging {
+	if err == nil && !finch.Debugging {
 		defer os.RemoveAll(tmpdir)
 	}
-	finch.Debug("tmp dir: %s", tmpdir)
-	if err := c.getTrxFiles(ctxFinch, cfg, tmpdir); err != nil {
-		return err
-	}
-
-	// ------------------------------------------------------------------
-	// Local boot and ack
-	for k := range cfg.Stats.Report {
-		if k == "stdout" {
-			continue
-		}
-		delete(cfg.Stats.Report, k)
-	}
-	cfg.Stats.Report["server"] = map[string]string{
-		"server":   c.addr,
-		"client":   c.name,
-		"stage-id": c.client.StageId,
-	}
-	var collector *stats.Collector
-	if !config.True(cfg.Stats.Disable) {
-		collector, err = stats.NewCollector(cfg.Stats, c.name, 1)
-		if err != nil {
-			return err
-		}
+	var local *stage.Stage
+	if err == nil {
+		finch.Debug("tmp dir: %s", tmpdir)
+		local, err = c.boot(ctxFinch, cfg, tmpdir)
 	}
-
-	log.Printf("[%s] Booting", stageName)
-	local := stage.New(cfg, c.gds, collector)
-	if err := local.Prepare(ctxFinch); err != nil {
+	if err != nil {
 		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
-		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
-		return err                                                                                                // return original error not Send error
+		// Don't care if this fails. Not ctxFinch because server needs to know also
+		// when boot fails because of CTRL-C.
+		c.client.Send(context.Background(), "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3})
+		return err // return original error not Send error
 	}
 
 	// Boot ack; don't continue on error because we're no longer in sync with server
@@ -187,6 +163,42 @@ func (c *Client) run(ctxFinch context.Context) error {
 	return nil
 }
 
+// boot fetches all trx files from the server and prepares the stage to run.
+func (c *Client) boot(ctxFinch context.Context, cfg config.Stage, tmpdir string) (*stage.Stage, error) {
+	// Fetch all trx files from server, put in local temp dir
+	if err := c.getTrxFiles(ctxFinch, cfg, tmpdir); err != nil {
+		return nil, err
+	}
+
+	// Send stats to server and, if used, print locally
+	for k := range cfg.Stats.Report {
+		if k == "stdout" {
+			continue
+		}
+		delete(cfg.Stats.Report, k)
+	}
+	cfg.Stats.Report["server"] = map[string]string{
+		"server":   c.addr,
+		"client":   c.name,
+		"stage-id": c.client.StageId,
+	}
+	var collector *stats.Collector
+	if !config.True(cfg.Stats.Disable) {
+		var err error
+		collector, err = stats.NewCollector(cfg.Stats, c.name, 1)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	log.Printf("[%s] Booting", cfg.Name)
+	local := stage.New(cfg, c.gds, collector)
+	if err := local.Prepare(ctxFinch); err != nil {
+		return nil, err
+	}
+	return local, nil
+}
+
 func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir string) error {
 	trx := cfg.Trx
 	for i := range trx {
-- 
2.43.0


From 699fb51307e3113071e6995bb0f275a7ad010712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 27/52] fix: repeated, abandoned and concurrent requests of
 remote instances

- GET /boot of an instance that did not receive the response, or was restarted,
  failed forever; one that gave up was still assigned to the stage later
- an instance that failed to boot kept its place in the stage, so no other could
  boot and the server waited forever
- POST /boot and GET /run failed when repeated after a lost response; POST /run
  handled twice at the same time counted as two instances
- client state was read and changed without a lock, and set to running only after
  the client could have received the response
- requests of a past stage were accepted when the current stage is stopped
---
 compute/api.go | 234 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 145 insertions(+), 89 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 7982f7e..a2b29ad 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -1,6 +1,7 @@
 package compute
 
 import (
+	"context"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -26,8 +27,7 @@ type API struct {
 }
 
 const (
-	ready byte = iota
-	booting
+	booting byte = iota
 	runnable
 	running
 )
@@ -45,10 +45,12 @@ type stageMeta struct {
 	clients  map[string]*client
 }
 
+// client is an instance assigned to a stage. The stage mutex guards state and waiting.
 type client struct {
-	name  string
-	stage *stageMeta
-	state byte
+	name    string
+	stage   *stageMeta
+	state   byte
+	waiting int // number of GET /run waiting for stage to run
 }
 
 func NewAPI(addr string) *API {
@@ -159,75 +161,108 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if get {
-		// GET /boot: client is booting, waiting to receive config.File
-		if rc.state != ready {
-			w.WriteHeader(http.StatusPreconditionFailed)
-			return
-		}
-
-		// Wait until there's a stage that's not done booting (needs more instances)
+		// GET /boot: client is booting, waiting to receive config.File.
+		// Wait until there's a stage that's not done booting (needs more instances).
 		log.Printf("Remote %s ready to boot\n", rc.name)
 		for {
-			// Has server set a stage?
-			a.Lock()
-			stage := a.stage // copy ptr
-			if stage == nil || stage.done {
-				a.Unlock()
-				goto RETRY // no stage
+			if stage := a.assign(r.Context(), rc); stage != nil {
+				json.NewEncoder(w).Encode(stage.cfg) // send stage config
+				return
 			}
-
-			// Is the stage still booting (waiting for instances)?
-			stage.Lock()
-			if stage.booted || len(stage.clients) == int(stage.nRemotes) {
-				stage.Unlock()
-				a.Unlock()
-				goto RETRY // stage is full
+			select {
+			case <-r.Context().Done():
+				finch.Debug("%s gave up waiting to boot", rc.name)
+				return
+			case <-time.After(200 * time.Millisecond):
 			}
-
-			// Stage is ready and there's a space for this client
-			stage.clients[rc.name] = rc
-			rc.stage = stage
-			rc.state = booting // advance client state
-
-			// Unwind locks before sending stage config via HTTP in case net is slow
-			stage.Unlock()
-			a.Unlock()
-
-			finch.Debug("assigned %s to stage %s (%s): %d of %d clients", rc.name, stage.cfg.Name, stage.cfg.Id,
-				len(stage.clients), stage.nRemotes)
-			json.NewEncoder(w).Encode(stage.cfg) // send stage config
-			return
-
-		RETRY:
-			time.Sleep(200 * time.Millisecond)
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
-		if rc.state != booting {
-			w.WriteHeader(http.StatusPreconditionFailed)
-			return
-		}
-
 		body, err := io.ReadAll(r.Body)
 		if err != nil {
 			log.Printf("error reading error from client: %s", err)
+			http.Error(w, err.Error(), http.StatusBadRequest)
 			return
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
-		// Remote might fail to boot. If that's the case, do not advance its state;
-		// it should call GET /boot again to reset itself and try again.
+		rc.stage.Lock()
+		if !rc.assigned() {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusGone) // reset
+			return
+		}
 		var clientErr error
-		if string(body) != "" {
-			// Don't advance state: client failed to boot, so it's not ready to run
-			clientErr = fmt.Errorf("%s", string(body))
-		} else {
+		switch {
+		case rc.state == booting && string(body) == "":
 			rc.state = runnable // advance client state (successful boot)
+		case rc.state == booting:
+			// Remote failed to boot. It's not assigned to the stage any more, so
+			// another instance can take its place, or it can call GET /boot again.
+			clientErr = fmt.Errorf("%s", string(body))
+			delete(rc.stage.clients, rc.name)
+		case rc.state == runnable && string(body) == "":
+			// Client didn't receive the response and sent the ack again
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusOK)
+			return
+		default:
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
 		}
+		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 		rc.stage.bootChan <- ack{name: rc.name, err: clientErr}
+	}
+}
 
+// assign assigns the client to the current stage and returns the stage, or nil
+// if there's no stage that the client can boot now.
+func (a *API) assign(ctx context.Context, rc *client) *stageMeta {
+	a.Lock()
+	defer a.Unlock()
+
+	// Has server set a stage?
+	stage := a.stage // copy ptr
+	if stage == nil {
+		return nil
+	}
+
+	// Is the stage still booting (waiting for instances)? Check context while locked
+	// because if the client gave up, it doesn't know that it's assigned to the stage.
+	stage.Lock()
+	defer stage.Unlock()
+	if stage.done || stage.booted || ctx.Err() != nil {
+		return nil
 	}
+
+	// If the client is already assigned, then it didn't receive the response to
+	// its last GET /boot, or it was restarted. Else, the stage might be full.
+	if _, ok := stage.clients[rc.name]; !ok && len(stage.clients) >= int(stage.nRemotes) {
+		return nil
+	}
+
+	// Stage is ready and there's a space for this client
+	stage.clients[rc.name] = rc
+	rc.stage = stage
+	rc.state = booting
+	finch.Debug("assigned %s to stage %s (%s): %d of %d clients", rc.name, stage.cfg.Name, stage.cfg.Id,
+		len(stage.clients), stage.nRemotes)
+	return stage
+}
+
+// assigned returns true if the client is (still) assigned to its stage.
+// The caller must lock the stage.
+func (rc *client) assigned() bool {
+	return rc.stage.clients[rc.name] == rc
+}
+
+// in returns true if the client is in the state.
+func (rc *client) in(state byte) bool {
+	rc.stage.Lock()
+	defer rc.stage.Unlock()
+	return rc.state == state
 }
 
 func (a *API) file(w http.ResponseWriter, r *http.Request) {
@@ -236,7 +271,7 @@ func (a *API) file(w http.ResponseWriter, r *http.Request) {
 		return // client() wrote error response
 	}
 
-	if rc.state != booting {
+	if !rc.in(booting) {
 		w.WriteHeader(http.StatusPreconditionFailed)
 		return
 	}
@@ -298,53 +333,80 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if get {
-		// GET /run: client is waiting for signal to run previously booted stage
-		if rc.state != runnable {
+		// GET /run: client is waiting for signal to run previously booted stage.
+		// If it's already running, it didn't receive the response to its last GET /run.
+		rc.stage.Lock()
+		if rc.state != runnable && rc.state != running {
+			rc.stage.Unlock()
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
+		rc.waiting += 1
+		rc.stage.Unlock()
 
 		// Remote is waiting for next stage to run
 		log.Printf("Remote %s waiting to start...", rc.name)
-		<-rc.stage.runChan // closed in Server.Run, or api.Stage if --test
+		gone := false
+		select {
+		case <-rc.stage.runChan: // closed in Server.Run, or api.Stage if --test
+		case <-r.Context().Done():
+			gone = true
+		}
+
+		rc.stage.Lock()
+		rc.waiting -= 1
+		if gone {
+			rc.stage.Unlock()
+			log.Printf("Lost client %s on stage %s, but it will return\n", rc.name, rc.stage.cfg.Name)
+			return
+		}
+		if !rc.assigned() {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusGone) // reset
+			return
+		}
 
 		// If boot --test and there's a new stage, Server.Boot calls api.Stage
 		// which will stop the old stage and trigger this block.
-		rc.stage.Lock()
 		if rc.stage.done {
 			delete(rc.stage.clients, rc.name)
 			rc.stage.Unlock()
 			w.WriteHeader(http.StatusResetContent) // reset
+			rc.stage.doneChan <- ack{name: rc.name}
 			return
 		}
-		rc.stage.Unlock()
 
-		w.WriteHeader(http.StatusOK)
-		if _, err := w.Write([]byte{0}); err != nil {
-			log.Printf("Lost client %s on stage %s, but it will return\n", rc.name, rc.stage.cfg.Name)
-			return
-		}
+		// Advance client state before the response because the client can start
+		// and send another request before Write returns
+		rc.state = running
+		rc.stage.Unlock()
 
 		log.Printf("Started client %s on stage %s\n", rc.name, rc.stage.cfg.Name)
-		rc.state = running // advance client state
+		w.WriteHeader(http.StatusOK)
+		w.Write([]byte{0})
 	} else {
 		// POST /run: client is done running stage
-		if rc.state != running {
-			w.WriteHeader(http.StatusPreconditionFailed)
-			return
-		}
-
 		body, err := io.ReadAll(r.Body)
 		if err != nil {
 			// Ignore error; it doesn't change fact that client is done
 			log.Printf("Error reading error from client on POST /run, ignoring: %s", err)
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
 		rc.stage.Lock()
+		if !rc.assigned() {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusGone) // already done
+			return
+		}
+		if rc.state != running {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
 		delete(rc.stage.clients, rc.name)
 		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 
 		// Tell server client completed stage
 		var clientErr error
@@ -352,7 +414,6 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			clientErr = fmt.Errorf("%s", string(body))
 		}
 		rc.stage.doneChan <- ack{name: rc.name, err: clientErr}
-		rc.state = ready // advance client state (ready to run another stage)
 	}
 }
 
@@ -365,7 +426,7 @@ func (a *API) stats(w http.ResponseWriter, r *http.Request) {
 	// Stats are sent only while running. If this error occurs, it might just be
 	// a network issue that delayed stats sent earlier (before client stopped running).
 	// If it happens frequently, then it's probably a bug in Finch.
-	if rc.state != running {
+	if !rc.in(running) {
 		w.WriteHeader(http.StatusPreconditionFailed)
 		return
 	}
@@ -461,23 +522,18 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 	a.stage.Lock()
 	defer a.stage.Unlock()
 
+	// Instance trying to boot and join the stage? It might already be assigned if
+	// it didn't receive the response to its last GET /boot, or if it was restarted.
+	if get && boot {
+		finch.Debug("new client")
+		// Do not add to stage.clients; that's done in assign() if this client
+		// is assigned to the stage
+		return &client{name: name}, get, true // success (new client)
+	}
+
 	// Is instance assigned to the current stage?
 	rc, ok := a.stage.clients[name]
 	if !ok {
-
-		// Instance not assigned to the stage, but that's ok if it's trying
-		// to boot and join the stage.
-		if get && boot {
-			finch.Debug("new client")
-			rc = &client{
-				name:  name,
-				state: ready,
-			}
-			// Do not add to stage.clients; that's done in boot() if this client
-			// is assigned to the stage
-			return rc, get, true // success (new client)
-		}
-
 		// Instance not assigned to stage and not booting, so it's out of sync
 		log.Printf("Unknown client: %s", name)
 		w.WriteHeader(http.StatusGone) // reset
@@ -488,7 +544,7 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 	// network partition (or some other net delay/weirdness) hasn't caused a
 	// _past_ query from the instance to finally reach us now after the stage
 	// has changed.
-	if !a.stage.done && a.stage.cfg.Id != sid {
+	if a.stage.cfg.Id != sid {
 		log.Printf("Wrong stage ID: %s: client %s != current %s", name, sid, a.stage.cfg.Id)
 		w.WriteHeader(http.StatusGone) // reset
 		return nil, false, false
-- 
2.43.0


From 6aedfadaa1030a1909951c29b243fa01f1d474d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 28/52] fix: server waits forever for lost remote instances, or
 starts without them

Every boot ack was counted, also from an instance that was lost or restarted
before the stage started. Now instances are counted while they wait to run. While
running, an instance that stopped without telling the server (killed, lost
network) blocked the server forever; now it's dropped if it does not send
requests for 15 seconds. An instance lost while booting blocked its place.
---
 compute/api.go    | 69 ++++++++++++++++++++++++++++++++++++++++++-----
 compute/client.go |  5 ++--
 compute/server.go | 36 ++++++++++++++-----------
 3 files changed, 86 insertions(+), 24 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index a2b29ad..a78a6d3 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -45,12 +45,56 @@ type stageMeta struct {
 	clients  map[string]*client
 }
 
-// client is an instance assigned to a stage. The stage mutex guards state and waiting.
+// client is an instance assigned to a stage. The stage mutex guards all but the name.
 type client struct {
-	name    string
-	stage   *stageMeta
-	state   byte
-	waiting int // number of GET /run waiting for stage to run
+	name     string
+	stage    *stageMeta
+	state    byte
+	waiting  int       // number of GET /run waiting for stage to run
+	lastSeen time.Time // last request
+}
+
+const (
+	// Instances send a ping every second while running and stop if there's no
+	// response for about 3 seconds, so after this time an instance is gone.
+	runTimeout = 15 * time.Second
+
+	// Instances don't send requests while preparing the stage, which can take
+	// a while, so this is used only if another instance is waiting for the place.
+	bootTimeout = 60 * time.Second
+)
+
+// allBooted returns true if all remote instances have booted and wait to run,
+// and then prevents remotes from joining the stage.
+func (m *stageMeta) allBooted() bool {
+	m.Lock()
+	defer m.Unlock()
+	n := uint(0)
+	for _, rc := range m.clients {
+		if rc.state == runnable && rc.waiting > 0 {
+			n++
+		}
+	}
+	if n < m.nRemotes {
+		return false
+	}
+	for _, rc := range m.clients {
+		rc.lastSeen = time.Now()
+	}
+	m.booted = true
+	return true
+}
+
+// dropLost removes instances that don't send requests any more while running.
+func (m *stageMeta) dropLost() {
+	m.Lock()
+	defer m.Unlock()
+	for name, rc := range m.clients {
+		if d := time.Since(rc.lastSeen); d > runTimeout {
+			delete(m.clients, name)
+			m.doneChan <- ack{name: name, err: fmt.Errorf("lost contact, last request %s ago", d.Round(time.Second))}
+		}
+	}
 }
 
 func NewAPI(addr string) *API {
@@ -240,13 +284,24 @@ func (a *API) assign(ctx context.Context, rc *client) *stageMeta {
 	// If the client is already assigned, then it didn't receive the response to
 	// its last GET /boot, or it was restarted. Else, the stage might be full.
 	if _, ok := stage.clients[rc.name]; !ok && len(stage.clients) >= int(stage.nRemotes) {
-		return nil
+		// Take the place of an instance that's gone, if any
+		for name, old := range stage.clients {
+			if old.waiting == 0 && time.Since(old.lastSeen) > bootTimeout {
+				log.Printf("Lost contact with %s, replacing it with %s", name, rc.name)
+				delete(stage.clients, name)
+				break
+			}
+		}
+		if len(stage.clients) >= int(stage.nRemotes) {
+			return nil
+		}
 	}
 
 	// Stage is ready and there's a space for this client
 	stage.clients[rc.name] = rc
 	rc.stage = stage
 	rc.state = booting
+	rc.lastSeen = time.Now()
 	finch.Debug("assigned %s to stage %s (%s): %d of %d clients", rc.name, stage.cfg.Name, stage.cfg.Id,
 		len(stage.clients), stage.nRemotes)
 	return stage
@@ -355,6 +410,7 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 
 		rc.stage.Lock()
 		rc.waiting -= 1
+		rc.lastSeen = time.Now()
 		if gone {
 			rc.stage.Unlock()
 			log.Printf("Lost client %s on stage %s, but it will return\n", rc.name, rc.stage.cfg.Name)
@@ -550,6 +606,7 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 		return nil, false, false
 	}
 
+	rc.lastSeen = time.Now()
 	return rc, get, true // success
 }
 
diff --git a/compute/client.go b/compute/client.go
index 3b4536e..803a16f 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -107,9 +107,10 @@ func (c *Client) run(ctxFinch context.Context) error {
 
 	// ----------------------------------------------------------------------
 	// Wait for run signal. This might be a little while if server is for
-	// other remote instances.
+	// other remote instances. Short requests because if a response is lost, the
+	// server is waiting for this instance.
 	log.Printf("[%s] Waiting for run signal", stageName)
-	resp, _, err := c.client.Get(ctxFinch, "/run", nil, proto.R{60 * time.Second, 100 * time.Millisecond, 3})
+	resp, _, err := c.client.Get(ctxFinch, "/run", nil, proto.R{5 * time.Second, 100 * time.Millisecond, 36})
 	if err != nil {
 		log.Printf("[%s] Timeout waiting for run signal after successful boot, giving up (is the server offline?)", stageName)
 		return err
diff --git a/compute/server.go b/compute/server.go
index 901f462..497b71b 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -129,27 +129,27 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	if nInstances > 1 {
 		log.Printf("Waiting for %d instances to boot...", nInstances)
 	}
-	booted := uint(0)
-	for booted < nInstances {
+	// All remotes must be waiting to run, not only have sent a boot ack, because
+	// a remote that's gone or restarted since must not be counted.
+	logBoot := func(ack ack) {
+		if ack.err != nil {
+			log.Printf("Remote %s error on boot: %s", ack.name, ack.err)
+		} else if nInstances > 1 {
+			log.Printf("%s booted", ack.name)
+		}
+	}
+	for !m.allBooted() { // closes stage in API to prevent remotes from joining
 		select {
 		case ack := <-m.bootChan:
-			if ack.err != nil {
-				log.Printf("Remote %s error on boot: %s", ack.name, ack.err)
-				continue
-			}
-			booted += 1
-			if nInstances > 1 {
-				log.Printf("%s booted", ack.name)
-			}
+			logBoot(ack)
+		case <-time.After(50 * time.Millisecond):
 		case <-ctxFinch.Done():
 			return nil
 		}
 	}
-
-	// Close stage in API to prevent remotes from joining
-	m.Lock()
-	m.booted = true
-	m.Unlock()
+	for len(m.bootChan) > 0 {
+		logBoot(<-m.bootChan)
+	}
 
 	if s.test {
 		return nil
@@ -170,9 +170,11 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	}
 
 	// Wait for instances to finish running
-	running := booted
+	running := nInstances
 	terminated := ctxFinch.Done()
 	var giveUp <-chan time.Time
+	check := time.NewTicker(1 * time.Second)
+	defer check.Stop()
 	for running > 0 {
 		select {
 		case ack := <-m.doneChan:
@@ -194,6 +196,8 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 			if s.api != nil {
 				s.api.Stage(nil)
 			}
+		case <-check.C:
+			m.dropLost() // sends ack for each lost remote
 		case <-giveUp:
 			log.Printf("%d instances did not stop, ignoring", running)
 			return nil
-- 
2.43.0


From 6d36cce7720a271dbd951ff46b264dfd65064139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 29/52] fix: --test does not stop remote instances

config.Stage.Test was never set and the stage not stopped, so remote instances
were not told that the test is done.
---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 497b71b..fe57d31 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -71,6 +71,7 @@ func (s *Server) Run(ctxFinch context.Context, stages []config.Stage) error {
 func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	var err error
 	stageName := cfg.Name
+	cfg.Test = s.test
 
 	nInstances := finch.Uint(cfg.Compute.Instances)
 	nRemotes := nInstances - 1 // -1 for local unless..
@@ -152,6 +153,10 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	}
 
 	if s.test {
+		// Signal remote instances, which are waiting to run, to stop
+		if s.api != nil && nRemotes > 0 {
+			return s.api.Stage(nil)
+		}
 		return nil
 	}
 
-- 
2.43.0


From 1c30484d4cdc831be7425c8ef1410bcd40531c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 30/52] fix: size limit set up halfway after an error stops all
 other clients

When the first query of a size limit failed, its client stopped but left the
shared limit half set up: every other client then ran an empty ANALYZE and
stopped, too, although the size was not reached. Reset the limit so the next
client sets it up again.
---
 limit/data.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/limit/data.go b/limit/data.go
index eb31e06..9e46c95 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -190,6 +190,7 @@ func (lm *Size) More(conn *sql.Conn) bool {
 			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
+				lm.query = "" // not set up, so next call tries again
 				return false
 			}
 			for rows.Next() {
@@ -204,12 +205,21 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				tbls = append(tbls, "`"+lm.db+"`.`"+name+"`")
 			}
 			rows.Close()
+			if err == nil {
+				err = rows.Err()
+			}
+			if err != nil {
+				log.Printf("Error reading SHOW FULL TABLES: %s", err)
+				lm.query = "" // not set up, so next call tries again
+				return false
+			}
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
 			err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db)
 			if err != nil {
 				log.Printf("Error getting current database: %s", err)
+				lm.query = "" // not set up, so next call tries again
 				return false
 			}
 			lm.query += "table_schema='" + lm.db + "' AND table_name='" + lm.tbl + "'"
-- 
2.43.0


From 95a25ded4206ac681eb5ce14f93f4c30670815ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 31/52] fix: --param is ignored without params in _all.yaml and
 overridden by stage params

The documentation says that --param overrides all and sets the final value,
but it was only merged into the params of _all.yaml, if there are any, and
those are overridden by the params of the stage file.
---
 config/config.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index d29dd95..fa84c0f 100644
--- a/config/config.go
+++ b/config/config.go
@@ -82,16 +82,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 				finch.Debug("base: none in %s", dir)
 			}
 
-			// --param foo=bar on command line overrides .params in stage files
-			if len(b.Params) > 0 {
-				if b.Params == nil {
-					b.Params = map[string]string{}
-				}
-				for k, v := range params {
-					b.Params[k] = v
-				}
-			}
-
 			base[dir] = b
 		}
 
@@ -115,6 +105,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
+		// --param foo=bar on command line overrides params in config files
+		for k, v := range params {
+			if f.Stage.Params == nil {
+				f.Stage.Params = map[string]string{}
+			}
+			f.Stage.Params[k] = v
+		}
+
 		// --dsn and --database on command line override config files
 		f.Stage.CommandLine(dsn, db)
 
-- 
2.43.0


From c960b99fa7b74b54f98498921527568d40dbc729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 32/52] fix: disabled stage is run

stage.disable only skipped the validation of the stage.
---
 config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index fa84c0f..1485789 100644
--- a/config/config.go
+++ b/config/config.go
@@ -102,6 +102,11 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 			return nil, fmt.Errorf("cannot decode YAML in %s: %s", fileName, err)
 		}
 
+		if f.Stage.Disable {
+			finch.Debug("stage %s disabled", fileName)
+			continue
+		}
+
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
-- 
2.43.0


From c6a387f953e48d22723349dc1a26153584acdcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 33/52] fix: iteration limits do not accept params and
 human-readable numbers

iter, iter-clients, and iter-exec-group are string-int like the other values
of a client group, but "1,000" or $params.iter were refused as invalid.
---
 config/file.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/config/file.go b/config/file.go
index c20cdf6..07a48cb 100644
--- a/config/file.go
+++ b/config/file.go
@@ -439,6 +439,18 @@ func (c *ClientGroup) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Iter, err = Vars(c.Iter, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterClients, err = Vars(c.IterClients, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterExecGroup, err = Vars(c.IterExecGroup, params, true)
+	if err != nil {
+		return err
+	}
 	c.QPS, err = Vars(c.QPS, params, true)
 	if err != nil {
 		return err
-- 
2.43.0


From 3aa0787e9b913e6961a1c0a5c093cb05244888e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 34/52] fix: params in mysql.hostname and mysql.socket are not
 replaced

---
 config/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/file.go b/config/file.go
index 07a48cb..3efa5e1 100644
--- a/config/file.go
+++ b/config/file.go
@@ -554,6 +554,14 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Hostname, err = Vars(c.Hostname, params, false)
+	if err != nil {
+		return err
+	}
+	c.Socket, err = Vars(c.Socket, params, false)
+	if err != nil {
+		return err
+	}
 	c.MyCnf, err = Vars(c.MyCnf, params, false)
 	if err != nil {
 		return err
-- 
2.43.0


From 59b87611f182b8ef2bf33e5312b205a815a3a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:36 +0000
Subject: [PATCH 35/52] fix: wrong value if the name of a param begins with
 that of another

With both $params.foo and $params.foobar in a string, the latter was
replaced by the value of foo followed by "bar".
---
 config/config.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 1485789..5d36b0a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -212,6 +212,7 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 		if len(m) == 0 {
 			continue
 		}
+		pos := r.FindAllStringIndex(s, -1)
 		rep := make([]string, 0, len(m)*2)
 		for i := range m {
 			v := m[i]
@@ -243,8 +244,17 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 				finch.Debug("param: %s -> %v (env var)", s, rep)
 			}
 		}
-		r := strings.NewReplacer(rep...)
-		s = r.Replace(s)
+		// Replace by position because one var can be a prefix of another,
+		// like $params.foo and $params.foobar
+		var b strings.Builder
+		end := 0
+		for i := range pos {
+			b.WriteString(s[end:pos[i][0]])
+			b.WriteString(rep[i*2+1])
+			end = pos[i][1]
+		}
+		b.WriteString(s[end:])
+		s = b.String()
 	}
 
 	if !numbers {
-- 
2.43.0


From 9581887e1c85ca1166fc3eae1b1abe20749cea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:47 +0000
Subject: [PATCH 36/52] fix: value of a param that uses another param depends
 on map order

The params were interpolated in random order, so a param that uses a param
that uses a third one got its final value or a literal $params.name.
---
 config/file.go | 46 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/config/file.go b/config/file.go
index 3efa5e1..4ad978d 100644
--- a/config/file.go
+++ b/config/file.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"strings"
 
 	"github.com/square/finch"
 )
@@ -110,11 +111,8 @@ func (c *Stage) Vars() error {
 	var err error
 
 	// First interpolate the params before they're used in other config vars
-	for k, v := range c.Params {
-		c.Params[k], err = Vars(v, c.Params, true)
-		if err != nil {
-			return fmt.Errorf("in params: %s", err)
-		}
+	if err := paramVars(c.Params); err != nil {
+		return fmt.Errorf("in params: %s", err)
 	}
 
 	// Interpolate $params.var in other config vars
@@ -156,6 +154,44 @@ func (c *Stage) Vars() error {
 	return nil
 }
 
+// paramVars interpolates the params themselves. A param can use other params,
+// which must be interpolated first.
+func paramVars(params map[string]string) error {
+	const started, done = 1, 2
+	state := map[string]int{}
+	var visit func(k string) error
+	visit = func(k string) error {
+		v, ok := params[k]
+		if !ok || state[k] == done {
+			return nil // if not defined, Vars returns an error
+		}
+		if state[k] == started {
+			return fmt.Errorf("params.%s refers to itself", k)
+		}
+		state[k] = started
+		for _, r := range varRE {
+			for _, m := range r.FindAllStringSubmatch(v, -1) {
+				if !strings.HasPrefix(m[1], "params.") {
+					continue
+				}
+				if err := visit(strings.TrimPrefix(m[1], "params.")); err != nil {
+					return err
+				}
+			}
+		}
+		var err error
+		params[k], err = Vars(v, params, true)
+		state[k] = done
+		return err
+	}
+	for k := range params {
+		if err := visit(k); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *Stage) Validate() error {
 	if c.Disable {
 		return nil
-- 
2.43.0


From 23156920683a5317d1e3b929053f4729751479e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 37/52] fix: _all.yaml that cannot be accessed is silently
 ignored

Any error of stat, not only that the file does not exist, made Finch run the
stages without the base config.
---
 config/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 5d36b0a..aa0ab73 100644
--- a/config/config.go
+++ b/config/config.go
@@ -64,7 +64,11 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		b, ok := base[dir]
 		if !ok {
 			baseFile := filepath.Join(dir, "_all.yaml")
-			if FileExists(baseFile) {
+			_, err := os.Stat(baseFile)
+			if err != nil && !os.IsNotExist(err) {
+				return nil, err // don't ignore base file that can't be accessed
+			}
+			if err == nil {
 				finch.Debug("base: %s", baseFile)
 				bytes, err := read(baseFile)
 				if err != nil {
-- 
2.43.0


From 4a3aadfabebc400ac79424f5453d0a749aac2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:34 +0000
Subject: [PATCH 38/52] fix: int generator with normal distribution returns
 values outside [min, max]

The mean is returned if two random values in a row are out of range, but the
mean itself can be, too; for example, the default mean if min > max / 2.
---
 data/integer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 66f9b6f..3fe7767 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -91,7 +91,12 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		if v < g.min || v > g.max {
 			v = int64(math.Floor(rand.NormFloat64()*g.stddev + g.mean))
 			if v < g.min || v > g.max {
-				return []interface{}{int64(g.mean)}
+				v = int64(g.mean)
+				if v < g.min {
+					v = g.min
+				} else if v > g.max {
+					v = g.max
+				}
 			}
 		}
 		return []interface{}{v}
-- 
2.43.0


From 9d642e14fcfb038454aafd29d392b1b676659243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:39 +0000
Subject: [PATCH 39/52] fix: int-gaps generator panics or returns garbage if
 only a few values

With p percent of the range less than one value, rand.Int63n(0) panicked, and
with one value it returned the minimum int64 (NaN) because of a division by zero.
---
 data/integer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 3fe7767..5f1a131 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -144,12 +144,19 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, fmt.Errorf("invalid int-gaps p: %d, must be between 1 to 100 (inclusive)", p)
 	}
 	input_max := int64(float64(size) * (float64(p) / 100.0))
+	if input_max < 1 {
+		input_max = 1 // at least one value
+	}
+	slope := 0.0 // if only one value
+	if input_max > 1 {
+		slope = float64(max-min) / float64(input_max-1)
+	}
 
 	g := &IntGaps{
 		params:       params,
 		input_max:    input_max,
 		output_start: float64(min),
-		slope:        float64(max-min) / float64(input_max-1),
+		slope:        slope,
 	}
 	finch.Debug("1..%d -> %d..%d (%d%% of %d) gap: %d records", input_max, min, max, p, size, int(g.slope))
 	return g, nil
-- 
2.43.0


From 9fb4b8872e5fcf24138ae43236fb08f02d3b7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 40/52] fix: int generator never returns max and returns min
 for all values below it

Uniform distribution between [min, max] is documented, but values were drawn
from [0, max) and values less than min changed to min. With max=0 it panicked.
---
 data/integer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 5f1a131..23af9a9 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -44,6 +44,10 @@ func NewInt(params map[string]string) (*Int, error) {
 		return nil, err
 	}
 
+	if g.min > g.max {
+		return nil, fmt.Errorf("invalid int: min %d > max %d", g.min, g.max)
+	}
+
 	switch strings.ToLower(params["dist"]) {
 	case "normal":
 		g.dist = dist_normal
@@ -101,11 +105,11 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		}
 		return []interface{}{v}
 	default: // uniform
-		v := rand.Int63n(g.max)
-		if v < g.min {
-			v = g.min
+		n := g.max - g.min + 1 // number of values in [min, max]
+		if n <= 0 {
+			n = math.MaxInt64 // overflow
 		}
-		return []interface{}{v}
+		return []interface{}{g.min + rand.Int63n(n)}
 	}
 }
 
-- 
2.43.0


From b9dcdaacea930fbedd43d1f689564dcd18a82c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 41/52] fix: str-fill-az generator is not safe to be shared by
 clients

A rand.Source must not be used by several goroutines at once: it can panic
(index out of range) or return the same values to different clients.
---
 data/string.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/data/string.go b/data/string.go
index 2131341..87224af 100644
--- a/data/string.go
+++ b/data/string.go
@@ -6,13 +6,11 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
-	"time"
 )
 
 // StrFillAz implemnts the str-fill-az data generator.
 type StrFillAz struct {
 	len int64
-	src rand.Source
 }
 
 var _ Generator = &StrFillAz{}
@@ -28,7 +26,6 @@ const (
 func NewStrFillAz(params map[string]string) (*StrFillAz, error) {
 	g := &StrFillAz{
 		len: 100,
-		src: rand.NewSource(time.Now().UnixNano()),
 	}
 	if err := int64From(params, "len", &g.len, false); err != nil {
 		return nil, err
@@ -46,17 +43,18 @@ func (g *StrFillAz) Scan(any interface{}) error { return nil }
 func (g *StrFillAz) Copy() Generator {
 	return &StrFillAz{
 		len: g.len,
-		src: rand.NewSource(time.Now().UnixNano()),
 	}
 }
 
 func (g *StrFillAz) Values(_ RunCount) []interface{} {
 	sb := strings.Builder{}
 	sb.Grow(int(g.len))
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := g.len-1, g.src.Int63(), letterIdxMax; i >= 0; {
+	// A generator can be shared by several clients (e.g. client-group scope), so
+	// use rand.Int63() because it's thread-safe, which a rand.Source is not.
+	// A rand.Int63() generates 63 random bits, enough for letterIdxMax characters!
+	for i, cache, remain := g.len-1, rand.Int63(), letterIdxMax; i >= 0; {
 		if remain == 0 {
-			cache, remain = g.src.Int63(), letterIdxMax
+			cache, remain = rand.Int63(), letterIdxMax
 		}
 		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
 			sb.WriteByte(letterBytes[idx])
-- 
2.43.0


From 7a4430fb56a829ae055f4680c6f71f2175d01d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 42/52] fix: duration in params, like 100ms, is changed to
 another value

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index aa0ab73..f4138ba 100644
--- a/config/config.go
+++ b/config/config.go
@@ -204,7 +204,7 @@ var varRE = []*regexp.Regexp{
 	regexp.MustCompile(`\${([^}]+)}`),  // ${param.foo} for "hello${param.foo}bar"
 	regexp.MustCompile(`\$([^\s"']+)`), // $param.foo for standalone value
 }
-var reHumanNumber = regexp.MustCompile(`([\d,]*\d+(?i:[MKGBI]*))`) // 1M or 1,000,000 -> 1000000
+var reHumanNumber = regexp.MustCompile(`\b([\d,]*\d+(?i:[MKGBI]*))\b`) // 1M or 1,000,000 -> 1000000, but not 100ms or db2k
 var reAllDigits = regexp.MustCompile(`^\d+$`)
 
 // Vars changes $params.foo and $FOO to param values and environment variable
-- 
2.43.0


From 4294699f4c4dd370b206791bbfcd0c3c6c31cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:16 +0000
Subject: [PATCH 43/52] fix: param is not replaced in a param with two params

---
 config/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config/file.go b/config/file.go
index 4ad978d..7c51d35 100644
--- a/config/file.go
+++ b/config/file.go
@@ -169,8 +169,9 @@ func paramVars(params map[string]string) error {
 			return fmt.Errorf("params.%s refers to itself", k)
 		}
 		state[k] = started
+		uses := v
 		for _, r := range varRE {
-			for _, m := range r.FindAllStringSubmatch(v, -1) {
+			for _, m := range r.FindAllStringSubmatch(uses, -1) {
 				if !strings.HasPrefix(m[1], "params.") {
 					continue
 				}
@@ -178,6 +179,7 @@ func paramVars(params map[string]string) error {
 					return err
 				}
 			}
+			uses = r.ReplaceAllString(uses, "") // for "${params.foo}$params.bar"
 		}
 		var err error
 		params[k], err = Vars(v, params, true)
-- 
2.43.0


From 9cfc0aef7762be6c19822c5bdb26cd0ba7d4c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:16 +0000
Subject: [PATCH 44/52] fix: comment after a csv substitution becomes part of
 its rows

---
 trx/trx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 6247714..d17b879 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -218,7 +218,7 @@ func (f *File) line(line string) error {
 }
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
-var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+)\*\/`)
+var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+?)\*\/`)
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
 func (f *File) statements() ([]*Statement, error) {
-- 
2.43.0


From 887f210d3e4cdad11f403a5d344b0e372d31e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:45 +0000
Subject: [PATCH 45/52] fix: literal % in a statement is mangled

---
 trx/trx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index d17b879..868d292 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -219,6 +219,7 @@ func (f *File) line(line string) error {
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
 var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+?)\*\/`)
+var rePercent = regexp.MustCompile(`%%|%`)
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
 func (f *File) statements() ([]*Statement, error) {
@@ -421,6 +422,13 @@ func (f *File) statements() ([]*Statement, error) {
 		query = reCSV.ReplaceAllLiteralString(query, csv)
 	}
 
+	// Client uses fmt.Sprintf to replace data keys with values, except in prepared
+	// statements, so a literal % (like LIKE 'foo%') must be escaped, unless it is
+	// already (%%)
+	if !s.Prepare {
+		query = rePercent.ReplaceAllLiteralString(query, "%%")
+	}
+
 	// ----------------------------------------------------------------------
 	// Data keys: @d -> data.Generator
 	// ----------------------------------------------------------------------
-- 
2.43.0


From ddcf89b623d939af6fd295b8ea5ab321344bfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 46/52] fix: copy number is 0 with copies: 1

---
 trx/trx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 868d292..f21e970 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -256,6 +256,7 @@ func (f *File) statements() ([]*Statement, error) {
 	// Modifiers: --prepare, --table-size, etc.
 	// ----------------------------------------------------------------------
 
+	copyNo := f.lb.copyNo // > 0 during copy recurse
 	for _, mod := range f.lb.mods {
 		m := strings.Fields(mod)
 		finch.Debug("mod: '%v' %#v", mod, m)
@@ -335,6 +336,7 @@ func (f *File) statements() ([]*Statement, error) {
 				return nil, nil
 			}
 			if n == 1 {
+				copyNo = 1 // like first of n copies
 				continue
 			}
 			prepareMulti := false
@@ -373,7 +375,7 @@ func (f *File) statements() ([]*Statement, error) {
 	// ----------------------------------------------------------------------
 	// Replace /*!copy-number*/
 	// ----------------------------------------------------------------------
-	query = strings.ReplaceAll(query, finch.COPY_NUMBER, fmt.Sprintf("%d", f.lb.copyNo))
+	query = strings.ReplaceAll(query, finch.COPY_NUMBER, fmt.Sprintf("%d", copyNo))
 
 	// ----------------------------------------------------------------------
 	// Expand CSV /*!csv N template*/
-- 
2.43.0


From 003ba8f345df180efe13f592d4fab5919791f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:22 +0000
Subject: [PATCH 47/52] fix: data key configured differently in several trx
 files has the configuration of the first

---
 trx/trx.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index f21e970..1261e26 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"reflect"
 	"regexp"
 	"strconv"
 	"strings"
@@ -37,6 +38,8 @@ type Set struct {
 	Statements map[string][]*Statement // keyed on trx name
 	Meta       map[string]Meta         // keyed on trx name
 	Data       *data.Scope             // keyed on data key (@d)
+	// --
+	dataCfg map[string]config.Data // config of Data.Keys, keyed on data key (@d)
 }
 
 // Statement is one query in a transaction and all its read-only metadata.
@@ -108,6 +111,9 @@ type File struct {
 }
 
 func NewFile(cfg config.Trx, set *Set, params map[string]string) *File {
+	if set.dataCfg == nil {
+		set.dataCfg = map[string]config.Data{}
+	}
 	return &File{
 		cfg:     cfg,
 		set:     set,
@@ -472,7 +478,9 @@ func (f *File) statements() ([]*Statement, error) {
 				break
 			}
 		} else {
-			if k, ok = f.set.Data.Keys[name]; ok {
+			keyName := f.keyName(name)
+			s.Inputs[i] = keyName
+			if k, ok = f.set.Data.Keys[keyName]; ok {
 				g = k.Generator
 			} else {
 				dataCfg, ok := f.cfg.Data[cfgKey(name)] // config.stage.trx[].data
@@ -494,8 +502,9 @@ func (f *File) statements() ([]*Statement, error) {
 				if err != nil {
 					return nil, err
 				}
-				f.set.Data.Keys[name] = data.Key{
-					Name:      name,
+				f.set.dataCfg[keyName] = dataCfg
+				f.set.Data.Keys[keyName] = data.Key{
+					Name:      keyName,
 					Trx:       f.cfg.Name,
 					Line:      f.lb.n - 1,
 					Statement: f.stmtNo,
@@ -606,6 +615,30 @@ func RowScope(keys map[string]bool, csvTemplate string) string {
 	})
 }
 
+// keyName returns the name of the data key in Data.Keys. It's the given name (@d)
+// unless the data key isn't shared by trx files, and a different trx file configured
+// a data key with the same name differently: this one is numbered (@d#2).
+func (f *File) keyName(name string) string {
+	cfg, ok := f.cfg.Data[cfgKey(name)]
+	if !ok {
+		return name
+	}
+	switch cfg.Scope {
+	case "", finch.SCOPE_VALUE, finch.SCOPE_ROW, finch.SCOPE_STATEMENT, finch.SCOPE_TRX:
+	default:
+		return name // one data key for all trx files
+	}
+	keyName := name
+	for n := 2; ; n++ {
+		_, ok := f.set.Data.Keys[keyName]
+		prev := f.set.dataCfg[keyName]
+		if !ok || (prev.Generator == cfg.Generator && reflect.DeepEqual(prev.Params, cfg.Params)) {
+			return keyName
+		}
+		keyName = fmt.Sprintf("%s#%d", name, n)
+	}
+}
+
 func cfgKey(s string) string {
 	return strings.Trim(s, "@"+EXPLICIT_CALL_SUFFIX)
 }
-- 
2.43.0


From af809c9d3b04f224360192b692b029a9d1746156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:31 +0000
Subject: [PATCH 48/52] fix: int-gaps never returns max for some ranges

---
 data/integer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 23af9a9..ba8b526 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -119,6 +119,7 @@ func (g *Int) Values(_ RunCount) []interface{} {
 type IntGaps struct {
 	params       map[string]string
 	input_max    int64
+	max          int64
 	output_start float64
 	slope        float64
 }
@@ -159,6 +160,7 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 	g := &IntGaps{
 		params:       params,
 		input_max:    input_max,
+		max:          max,
 		output_start: float64(min),
 		slope:        slope,
 	}
@@ -176,7 +178,11 @@ func (g *IntGaps) Copy() Generator {
 }
 
 func (g *IntGaps) Values(_ RunCount) []interface{} {
-	return []interface{}{int64(g.output_start + float64(rand.Int63n(g.input_max))*g.slope)}
+	n := rand.Int63n(g.input_max)
+	if n > 0 && n == g.input_max-1 {
+		return []interface{}{g.max} // exactly, but n*slope can be a little less
+	}
+	return []interface{}{int64(g.output_start + float64(n)*g.slope)}
 }
 
 // --------------------------------------------------------------------------
-- 
2.43.0


From ad922f4b83256754e804d9915a1a908f60978bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 49/52] fix: invalid MySQL DSN causes a panic

---
 dbconn/factory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67591f9..21d95e5 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -224,8 +224,9 @@ func isSocket(file string) bool {
 
 func RedactedDSN(dsn string) string {
 	redactedPassword, err := mysql.ParseDSN(dsn)
-	if err != nil { // ok to ignore
+	if err != nil { // sql.Open will return the error
 		finch.Debug("mysql.ParseDSN error: %s", err)
+		return "(invalid DSN)"
 	}
 	redactedPassword.Passwd = "..."
 	return redactedPassword.FormatDSN()
-- 
2.43.0


From d22da97760f87af6ff16c89835cc770b7bab0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 50/52] fix: TLS in my.cnf (ssl-ca, ssl-cert, ssl-key,
 ssl-mode) is ignored

---
 config/file.go  | 8 +++++---
 dbconn/mycnf.go | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/config/file.go b/config/file.go
index 7c51d35..d1647bd 100644
--- a/config/file.go
+++ b/config/file.go
@@ -651,6 +651,11 @@ type TLS struct {
 }
 
 func (c *TLS) With(def TLS) {
+	// ssl-mode is for the files of the same my.cnf: it doesn't apply to (and
+	// disable) the TLS that is already set
+	if c.MySQLMode == "" && !c.Set() {
+		c.MySQLMode = def.MySQLMode
+	}
 	if c.Cert == "" {
 		c.Cert = def.Cert
 	}
@@ -660,9 +665,6 @@ func (c *TLS) With(def TLS) {
 	if c.CA == "" {
 		c.CA = def.CA
 	}
-	if c.MySQLMode == "" {
-		c.MySQLMode = def.MySQLMode
-	}
 	c.SkipVerify = setBool(c.SkipVerify, def.SkipVerify)
 	c.Disable = setBool(c.Disable, def.Disable)
 }
diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 99d56de..be5ec78 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -37,7 +37,7 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	//   https://dev.mysql.com/doc/refman/8.0/en/connection-options.html#option_general_ssl-mode
 	// But Go tls.Config (which is derived from config.TLS) has only two
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
-	mysqlTLS(file, mycnf, &cfg)
+	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
 	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
 	return cfg, nil
-- 
2.43.0


From f319d4ee0df6c05bfa812b68a376c0a5c90316ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 51/52] fix: TLS cert without key is silently ignored

---
 config/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config/file.go b/config/file.go
index d1647bd..dc267dc 100644
--- a/config/file.go
+++ b/config/file.go
@@ -731,10 +731,12 @@ func (c TLS) Set() bool {
 }
 
 func (c TLS) LoadTLS(server string) (*tls.Config, error) {
-	//  WARNING: Validate must be called first!
 	if !c.Set() {
 		return nil, nil
 	}
+	if err := c.Validate(); err != nil {
+		return nil, err
+	}
 
 	// Either ServerName or InsecureSkipVerify is required else Go will
 	// return an error saying that. If both are set, Go seems to ignore
-- 
2.43.0


From 6f4fa24eaa270614f0561d626e90cb8a9841b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:57 +0000
Subject: [PATCH 52/52] fix: human number replaced inside other words of a
 modifier

---
 config/config.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index f4138ba..a6c7c38 100644
--- a/config/config.go
+++ b/config/config.go
@@ -266,29 +266,35 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	}
 
 	// Look for human numbers like 1k and 1,000
-	m := reHumanNumber.FindAllStringSubmatch(s, -1)
+	m := reHumanNumber.FindAllStringIndex(s, -1)
 	if len(m) == 0 {
 		return s, nil // no human numbers
 	}
-	rep := []string{}
+	// Replace by position because a number can be part of another word, like
+	// the table name in "table-size: t1k 1k"
+	var b strings.Builder
+	end := 0
 	for i := range m {
+		n := s[m[i][0]:m[i][1]]
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
-		if reAllDigits.MatchString(m[i][0]) {
+		if reAllDigits.MatchString(n) {
 			continue
 		}
-		d, err := human.ParseBytes(m[i][1])
+		d, err := human.ParseBytes(n)
 		if err != nil {
-			return "", fmt.Errorf("invalid human-readable number: %s: %s", m[i][1], err)
+			return "", fmt.Errorf("invalid human-readable number: %s: %s", n, err)
 		}
-		rep = append(rep, m[i][0], strconv.FormatUint(d, 10))
+		b.WriteString(s[end:m[i][0]])
+		b.WriteString(strconv.FormatUint(d, 10))
+		end = m[i][1]
 	}
-	if len(rep) == 0 { // all machine numbers (see comment above)
+	if end == 0 { // all machine numbers (see comment above)
 		return s, nil
 	}
-	finch.Debug("var: %s -> %v", s, rep)
-	r := strings.NewReplacer(rep...)
-	return r.Replace(s), nil
+	b.WriteString(s[end:])
+	finch.Debug("var: %s -> %s", s, b.String())
+	return b.String(), nil
 }
 
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
-- 
2.43.0

