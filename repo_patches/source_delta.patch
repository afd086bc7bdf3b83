From c0518812b8f6f509c43b1fbae39decdcc7afbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 01/76] fix: snapshot cycle detection missed interface-held
 pointers and confused values sharing an address

A pointer reached through an interface was never recorded, so a cycle through interfaces was expanded up to the
depth limit (exponentially for more than one link) and a self-referential interface never terminated. Using only the
address as identity also reported unrelated values as cycles (struct and first field, slices of one array, empty slices).
---
 lens/astclient.go | 57 +++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..ce7467b 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -235,7 +235,15 @@ func (lw *lensMsgEncoder) writeStackFrames(frames []lensMonitorStackFrame) {
 	}
 }
 
-func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[uintptr]string, parentPath string) {
+// lensMonitorVisitKey identifies a value already streamed. The address alone is not enough, a struct and its first field,
+// or two slices of the same array, share their address while being different values.
+type lensMonitorVisitKey struct {
+	typ  reflect.Type
+	addr uintptr
+	len  int
+}
+
+func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[lensMonitorVisitKey]string, parentPath string) {
 	var valuePath string
 	if parentPath == "" {
 		valuePath = name
@@ -246,29 +254,27 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	// Write name first (always needed)
 	lw.writeString(name)
 
-	// Cycle detection for pointers BEFORE unwrapping
+	// Unwrap interfaces and pointers, with cycle detection for every pointer on the way (directly held or held by an interface)
 	// This catches self-referential pointers like n.Next = n
-	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
-		if visited == nil {
-			visited = make(map[uintptr]string)
-		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
-			lw.writeString(v.Type().String())
-			lw.writeByte(lensTypeTagString)
-			lw.writeString("<cycle:" + cycleName + ">")
-			return
-		}
-		visited[addr] = valuePath
-	}
-
-	// Unwrap interfaces and pointers
 	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) {
 		if v.IsNil() {
 			lw.writeString(v.Type().String())
 			lw.writeByte(lensTypeTagNil)
 			return
 		}
+		if v.Kind() == reflect.Pointer {
+			if visited == nil {
+				visited = make(map[lensMonitorVisitKey]string)
+			}
+			key := lensMonitorVisitKey{typ: v.Type(), addr: v.Pointer()}
+			if cycleName, ok := visited[key]; ok {
+				lw.writeString(v.Type().String())
+				lw.writeByte(lensTypeTagString)
+				lw.writeString("<cycle:" + cycleName + ">")
+				return
+			}
+			visited[key] = valuePath
+		}
 		v = v.Elem()
 	}
 	if !v.IsValid() {
@@ -295,20 +301,23 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 		}
 	}
 
-	// Cycle detection
-	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
+	// Cycle detection (empty slices have no elements to recurse into, and may share an address without being related)
+	if vKind == reflect.Pointer || vKind == reflect.Map || (vKind == reflect.Slice && v.Len() > 0) ||
 		vKind == reflect.Func || vKind == reflect.Chan {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensMonitorVisitKey]string)
+		}
+		key := lensMonitorVisitKey{typ: vType, addr: v.Pointer()}
+		if vKind == reflect.Slice {
+			key.len = v.Len()
 		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
+		if cycleName, ok := visited[key]; ok {
 			lw.writeString(vType.String())
 			lw.writeByte(lensTypeTagString)
 			lw.writeString("<cycle:" + cycleName + ">")
 			return
 		}
-		visited[addr] = valuePath
+		visited[key] = valuePath
 	}
 
 	lw.writeString(vType.String())
@@ -411,7 +420,7 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 }
 
 // streamValueSlice handles slice/array encoding with optimized paths for primitive element types.
-func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[uintptr]string, valuePath string) {
+func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[lensMonitorVisitKey]string, valuePath string) {
 	length := v.Len()
 	if length > lensMonitorFieldMaxLen {
 		length = lensMonitorFieldMaxLen
-- 
2.43.0


From 0f306ea7a4c83fe2e00d36fe98980c1577d6e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:24 +0000
Subject: [PATCH 02/76] fix: snapshot of a map with shared values depended on
 map iteration order

Which entry was shown in full and which as a <cycle:...> marker changed from run to run, so unchanged values could be
reported as different.
---
 lens/astclient.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index ce7467b..2412df1 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -371,19 +371,14 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	case reflect.Map:
 		lw.writeByte(lensTypeTagMap)
 		keys := v.MapKeys()
-		if len(keys) <= lensMonitorFieldMaxLen {
-			// Fast path, size within limit, use undeterministic iteration order
-			lw.writeVarint(uint64(len(keys)))
-			for _, k := range keys {
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
-		} else { // Too many entries, sort keys for deterministic subset (similar to slices)
-			sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
-			lw.writeVarint(uint64(lensMonitorFieldMaxLen))
-			for i := 0; i < lensMonitorFieldMaxLen; i++ {
-				k := keys[i]
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
+		// Sort keys so that the cycle markers and the subset kept when there are too many entries are deterministic
+		sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
+		if len(keys) > lensMonitorFieldMaxLen { // limit entries (similar to slices)
+			keys = keys[:lensMonitorFieldMaxLen]
+		}
+		lw.writeVarint(uint64(len(keys)))
+		for _, k := range keys {
+			lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
 		}
 
 	case reflect.Struct:
-- 
2.43.0


From 60329a45b117d6836c019b477b9d310ba7d4fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 03/76] fix: monitor decoder allocated and recursed on
 unverified lengths from the message

A declared struct field count or string length was allocated before any of it was received (up to crashing the
process), and nesting was unlimited so a malformed message could exhaust the stack.
---
 lens/astsrv.go | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..6f09960 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -233,10 +233,19 @@ func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 }
 
+const (
+	// lensReaderMaxDepth limits the nesting of fields accepted by the server, far above what clients are configured to send.
+	lensReaderMaxDepth = 10_000
+	// lensReaderMaxPrealloc limits how many fields, or string bytes, are allocated before they have been received.
+	lensReaderMaxPrealloc       = 64
+	lensReaderMaxPreallocString = 64 * 1024
+)
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current nesting of fields
 }
 
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
@@ -362,11 +371,24 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields. The count is not trusted for allocation, memory only grows with the fields really received.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	if lr.depth >= lensReaderMaxDepth {
+		return nil, fmt.Errorf("field nesting exceeds maximum %d", lensReaderMaxDepth)
+	}
+	lr.depth++
+	defer func() { lr.depth-- }()
+
+	fields := make([]LensMonitorField, 0, min(count, lensReaderMaxPrealloc))
 	for i := uint64(0); i < count; i++ {
-		if err := lr.readField(&fields[i]); err != nil {
+		var f LensMonitorField
+		if err := lr.readField(&f); err != nil {
 			return nil, err
 		}
+		fields = append(fields, f)
 	}
 	return fields, nil
 }
@@ -465,25 +487,15 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		} else if count > uint64(lr.maxFieldLen) {
 			return nil, nil, fmt.Errorf("container field count %d exceeds maximum %d", count, lr.maxFieldLen)
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	case lensTypeTagStruct:
 		count, err := lr.readVarint()
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	default:
 		return nil, nil, fmt.Errorf("unknown value tag: %d (0x%02x)", tag, tag)
 	}
@@ -558,6 +570,12 @@ func (lr *lensReader) readString() (string, error) {
 		return "", err
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
+	} else if length > lensReaderMaxPreallocString { // don't trust the length for allocation
+		var sb strings.Builder
+		if _, err := io.CopyN(&sb, lr.r, int64(length)); err != nil {
+			return "", err
+		}
+		return sb.String(), nil
 	}
 	buf := make([]byte, length)
 	if _, err := io.ReadFull(lr.r, buf); err != nil {
-- 
2.43.0


From 886fe950171173abb424543f07b1023a42b813ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 04/76] fix: a state message with an unknown point id made the
 test result wait forever

HandleFuncPointState registered with the wait group before looking up the
point and returned without releasing it.
---
 lens/astexec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..aea5661 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -725,6 +725,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 	} else {
 		callerIdent, ok := t.projectStatePointIdToIdent[msg.PointID]
 		if !ok {
+			t.wait.Done()
 			log.Printf("%sUnexpected state point id: %d", ErrorLogPrefix, msg.PointID)
 			return
 		}
-- 
2.43.0


From fad4cdf1f12c743ba5edd3e432eeebb2ea93837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:30 +0000
Subject: [PATCH 05/76] fix: messages arriving after a test result was made
 raced with its use

A goroutine of the tested code can outlive the test, its message was then
added to the maps referenced by the returned result while these are being
compared or encoded.
---
 lens/astexec.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index aea5661..56d4a4c 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -619,6 +619,8 @@ type testMonitor struct {
 	projectPanics        map[string][]string
 	modulePanics         map[string][]string
 	wait                 sync.WaitGroup
+	finishMu             sync.RWMutex // held for reading while a message is accepted
+	finished             bool         // result has been made, later messages are ignored
 }
 
 func debugLogMonitorStack(pointId uint32, stack []lensMonitorStackFrame) {
@@ -688,6 +690,11 @@ func ProjectFrames(frames []StackFrame) []StackFrame {
 }
 
 func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
+	t.finishMu.RLock()
+	defer t.finishMu.RUnlock()
+	if t.finished {
+		return
+	}
 	// pointLock not needed for this state
 
 	if monitorDebugLogging {
@@ -698,7 +705,13 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
+	t.finishMu.RLock()
+	if t.finished { // sent by a routine which outlived the test
+		t.finishMu.RUnlock()
+		return
+	}
 	t.wait.Add(1) // done in routine
+	t.finishMu.RUnlock()
 
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
@@ -879,6 +892,11 @@ func collectFields(dst FieldValues, key string, val interface{}, typ string, chi
 }
 
 func (t *testMonitor) HandleFuncPointPanic(msg LensMonitorMessagePointPanic) {
+	t.finishMu.RLock()
+	defer t.finishMu.RUnlock()
+	if t.finished {
+		return
+	}
 	// acquiring the pointLock not currently required for this state
 	t.panicMu.Lock()
 	defer t.panicMu.Unlock()
@@ -895,6 +913,9 @@ func (t *testMonitor) HandleFuncPointPanic(msg LensMonitorMessagePointPanic) {
 }
 
 func (t *testMonitor) makeTestResult(tFunc *TestFunction, failure bool) TestResult {
+	t.finishMu.Lock()
+	t.finished = true // the result references the recorded data, it must not change anymore
+	t.finishMu.Unlock()
 	t.wait.Wait()
 
 	return TestResult{
-- 
2.43.0


From 9767d29bdda6729dc6a9954f2f679bfdc1f73394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:10 +0000
Subject: [PATCH 06/76] fix: decoding a stored test result with circular
 dictionary entries overflowed the stack

---
 lens/types.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 849967f..8ccd6ee 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -435,10 +435,17 @@ func (tr *TestResult) UnmarshalMsgpack(data []byte) error {
 
 	var decodeNode func(ef encFieldValue) (*FieldValue, error)
 	var decodeFV func(efv encFieldValues, idx *int) (FieldValues, error)
+	// dictionary entries being decoded, to reject entries which contain themselves
+	nodeOpen, fvOpen := make(map[int]bool), make(map[int]bool)
 	decodeNode = func(ef encFieldValue) (*FieldValue, error) {
 		if ef.Ni != nil {
 			// Reference to node dictionary
 			if *ef.Ni >= 0 && *ef.Ni < len(enc.FVNodeDict) {
+				if nodeOpen[*ef.Ni] {
+					return nil, fmt.Errorf("circular encoded node index: %d", *ef.Ni)
+				}
+				nodeOpen[*ef.Ni] = true
+				defer delete(nodeOpen, *ef.Ni)
 				dictEntry := enc.FVNodeDict[*ef.Ni]
 				return decodeNode(dictEntry)
 			}
@@ -459,6 +466,11 @@ func (tr *TestResult) UnmarshalMsgpack(data []byte) error {
 		if idx != nil {
 			// Reference to FieldValues dictionary
 			if *idx >= 0 && *idx < len(enc.FVDict) {
+				if fvOpen[*idx] {
+					return nil, fmt.Errorf("circular encoded fv index: %d", *idx)
+				}
+				fvOpen[*idx] = true
+				defer delete(fvOpen, *idx)
 				efv = enc.FVDict[*idx]
 			} else {
 				return nil, fmt.Errorf("invalid encoded fv index: %d", *idx)
-- 
2.43.0


From 71a4312ce60de06817cf57ccdeb97ed85374a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:24 +0000
Subject: [PATCH 07/76] fix: field trees which differ only in nesting shared an
 ID and were stored as the same value

---
 lens/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 8ccd6ee..7296004 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -655,6 +655,9 @@ func (fv FieldValues) ID() string {
 				writeFramed([]byte(fv.Value))
 			} else {
 				hash.Write([]byte{1}) // node tag
+				// include the size so following siblings can't be confused with children
+				binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(fv.Children)))
+				hash.Write(lenBuf[:])
 				walk(fv.Children)
 			}
 		}
-- 
2.43.0


From 14dbcb467beafd319075bcebbca7161901c3df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:16 +0000
Subject: [PATCH 08/76] fix: badger storage reported an empty value as missing

---
 lens/storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..102d9c8 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -292,6 +292,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	var raw []byte
+	var found bool
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -300,6 +301,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
+		found = true // raw may remain nil for an empty value
 		return item.Value(func(v []byte) error {
 			raw = append([]byte(nil), v...)
 			return nil
@@ -307,7 +309,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	})
 	if err != nil {
 		return nil, false, err
-	} else if raw == nil {
+	} else if !found {
 		return nil, false, nil
 	}
 
-- 
2.43.0


From f859dc1e376006a1d85a442ca6f0ed1d373a0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 09/76] fix: badger storage could return a mix of two values
 for a split value being replaced

The marker and the parts were read in separate transactions.
---
 lens/storage.go | 67 ++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 102d9c8..28f45bb 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -291,8 +291,10 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
+	var stored []byte
 	var found bool
+	var decompressedSize int
+	// the value and all its parts must be read from the same transaction to be consistent
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -301,54 +303,51 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
-		found = true // raw may remain nil for an empty value
-		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
+		found = true // stored may remain nil for an empty value
+		if err := item.Value(func(v []byte) error {
+			stored = append([]byte(nil), v...)
 			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if !found {
-		return nil, false, nil
-	}
+		}); err != nil {
+			return err
+		}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		m := splitRe.FindSubmatch(stored)
+		if m == nil {
+			return nil // it was stored whole
+		}
+		// reassemble split value
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil {
+		return nil, false, err
+	} else if !found {
+		return nil, false, nil
 	}
 
 	if badgerCompression == options.None { // manually decompress
-- 
2.43.0


From 24c29d9a5d37a0f7f742a41afc44b1abb96700f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:07 +0000
Subject: [PATCH 10/76] fix: badger storage mistook values which look like a
 split marker for one

---
 lens/storage.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 28f45bb..31e6e69 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -162,6 +162,7 @@ func (m *memStorage) Close() {
 const badgerSplitBuffer = 16         // small extra buffer to avoid ever hitting the max anywhere
 const badgerSplitLogFileBuffer = 240 // extra log file space compared to max value size
 const splitPrefixString = "badger_split:"
+const badgerSplitMeta = byte(1) // user meta of a marker for a split value, no stored value can be mistaken for it
 const badgerCompression = options.ZSTD // disabling db compression results in less splitting, but benchmarks are worse
 
 // badgerSplitLimit is max size before value split, updated by tests to reduce test overhead.
@@ -237,6 +238,14 @@ func NewBadgerStorage(path string, maxMemMB int) (Storage, error) {
 	return &badgerStorage{path: path, db: db}, nil
 }
 
+// splitMarker returns the parsed marker if the item is a split value, otherwise nil.
+func splitMarker(item *badger.Item, val []byte) [][]byte {
+	if item.UserMeta() != badgerSplitMeta {
+		return nil
+	}
+	return splitRe.FindSubmatch(val)
+}
+
 func (b *badgerStorage) SaveState(key string, blob []byte) error {
 	storeBlob := blob
 	if badgerCompression == options.None { // manual compression allows us to better avoid split logic
@@ -249,7 +258,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 		// wipe any old split‐parts if this key was previously split
 		if item, err := txn.Get(mainKey); err == nil {
 			_ = item.Value(func(val []byte) error {
-				if m := splitRe.FindSubmatch(val); m != nil {
+				if m := splitMarker(item, val); m != nil {
 					oldCount, _ := strconv.Atoi(string(m[1]))
 					for i := 0; i < oldCount; i++ {
 						_ = txn.Delete([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
@@ -286,7 +295,8 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			off += sz
 		}
 		// store a marker of the form "badger_split:<parts>:<compressLen>:<origLen>"
-		return txn.Set(mainKey, []byte(fmt.Sprintf("%s%d:%d:%d", splitPrefixString, parts, len(storeBlob), len(blob))))
+		return txn.SetEntry(badger.NewEntry(mainKey,
+			[]byte(fmt.Sprintf("%s%d:%d:%d", splitPrefixString, parts, len(storeBlob), len(blob)))).WithMeta(badgerSplitMeta))
 	})
 }
 
@@ -311,7 +321,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			return err
 		}
 
-		m := splitRe.FindSubmatch(stored)
+		m := splitMarker(item, stored)
 		if m == nil {
 			return nil // it was stored whole
 		}
@@ -376,7 +386,7 @@ func (b *badgerStorage) DeleteState(key string) error {
 			return nil
 		})
 		// if it’s split, delete each part
-		if m := splitRe.FindSubmatch(raw); m != nil {
+		if m := splitMarker(item, raw); m != nil {
 			count, _ := strconv.Atoi(string(m[1]))
 			for i := 0; i < count; i++ {
 				if err := txn.Delete([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i))); err != nil {
-- 
2.43.0


From 6d5761ae816e063de4129848e328617d7d5428cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:07 +0000
Subject: [PATCH 11/76] fix: concurrent changes of the same key made badger
 storage fail with a transaction conflict

---
 lens/storage.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 31e6e69..b6cf23c 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -162,7 +162,7 @@ func (m *memStorage) Close() {
 const badgerSplitBuffer = 16         // small extra buffer to avoid ever hitting the max anywhere
 const badgerSplitLogFileBuffer = 240 // extra log file space compared to max value size
 const splitPrefixString = "badger_split:"
-const badgerSplitMeta = byte(1) // user meta of a marker for a split value, no stored value can be mistaken for it
+const badgerSplitMeta = byte(1)        // user meta of a marker for a split value, no stored value can be mistaken for it
 const badgerCompression = options.ZSTD // disabling db compression results in less splitting, but benchmarks are worse
 
 // badgerSplitLimit is max size before value split, updated by tests to reduce test overhead.
@@ -238,6 +238,15 @@ func NewBadgerStorage(path string, maxMemMB int) (Storage, error) {
 	return &badgerStorage{path: path, db: db}, nil
 }
 
+// update runs the transaction, repeating it if a concurrent change of the same key conflicted.
+func (b *badgerStorage) update(fn func(txn *badger.Txn) error) error {
+	for {
+		if err := b.db.Update(fn); !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
+	}
+}
+
 // splitMarker returns the parsed marker if the item is a split value, otherwise nil.
 func splitMarker(item *badger.Item, val []byte) [][]byte {
 	if item.UserMeta() != badgerSplitMeta {
@@ -252,7 +261,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 		storeBlob = ZstdCompress(nil, blob)
 	}
 
-	return b.db.Update(func(txn *badger.Txn) error {
+	return b.update(func(txn *badger.Txn) error {
 		mainKey := []byte(key)
 
 		// wipe any old split‐parts if this key was previously split
@@ -370,7 +379,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 }
 
 func (b *badgerStorage) DeleteState(key string) error {
-	return b.db.Update(func(txn *badger.Txn) error {
+	return b.update(func(txn *badger.Txn) error {
 		mainKey := []byte(key)
 		item, err := txn.Get(mainKey)
 		if err != nil {
-- 
2.43.0


From 65cba315e9dc19e627a523c9bd8d8eea91cafd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 12/76] fix: the most significant time change of a caller with
 slower and faster calls depended on call order

A small improvement replaced any earlier regression, and a small regression any earlier improvement.
---
 lens/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..ce72a15 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -506,7 +506,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 						// Track the most significant regression (largest positive interval diff)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if timeDiff > mostSignificantTimeChange.TimeDiff {
+						if timeDiff.Abs() > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
@@ -522,7 +522,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 						// Track the most significant improvement (largest negative interval diff)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if mostSignificantTimeChange.TimeDiff == 0 || timeDiff < mostSignificantTimeChange.TimeDiff {
+						if timeDiff.Abs() > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
-- 
2.43.0


From c26e06fcbe9e57794d7e971e9e094715ec1c35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 13/76] fix: performance changes were listed in random order in
 the JSON report

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..6e09bd0 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -161,7 +161,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) { // keep consistent order in report
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
-- 
2.43.0


From 07668e2fb15236a69b46cac23de71ffd414c0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 14/76] fix: the chart showed a random selection of a risky
 test's field changes

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index 6e09bd0..284f558 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -646,7 +646,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) { // keep consistent order in chart
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
-- 
2.43.0


From f6b00aaae5581723e01665781962f53c9031251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 15/76] fix: the chart showed a slow-down as a negative
 percentage

---
 lens/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index 284f558..6c55bea 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -623,7 +623,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if totalPostTime <= totalPreTime { // improvement, ratio <= 1
 			return charts.FormatValueHumanize(100.0-(ratio*100.0), 1, false) + "% faster"
 		} else {
-			return charts.FormatValueHumanize((1-ratio)*100.0, 1, false) + "% slower"
+			return charts.FormatValueHumanize((ratio-1)*100.0, 1, false) + "% slower"
 		}
 	}
 	if err := down2.BarChart(down2Opt); err != nil {
-- 
2.43.0


From c27568649287423d9c82f054e6fae80b8e3fb490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:41 +0000
Subject: [PATCH 16/76] fix: module updates of a workspace were listed in
 random order

---
 lens/module.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..6009907 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -8,6 +8,7 @@ import (
 	"go/printer"
 	"io/fs"
 	"log"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -604,7 +605,7 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 	}
 
 	all := make([]*ModuleChange, 0, len(dirSet))
-	for dir := range dirSet {
+	for _, dir := range slices.Sorted(maps.Keys(dirSet)) { // sorted for consistent output
 		oldGM := resolve(projectDir, dir)
 		newGM := resolve(newRoot, dir)
 
-- 
2.43.0


From 67c5ff7da6cbfc907f7cd3c4ff9a64d291aebb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:44 +0000
Subject: [PATCH 17/76] fix: module versions with upper case letters were not
 found in the module cache

---
 lens/module.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 6009907..cbdbba8 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -291,7 +291,11 @@ func FindModulePathInCache(gomodcache, modPath, version string) (string, error)
 	if err != nil {
 		return "", err
 	}
-	modDirName := escapedMod + "@" + version
+	escapedVersion, err := module.EscapeVersion(version)
+	if err != nil {
+		return "", err
+	}
+	modDirName := escapedMod + "@" + escapedVersion
 	dir := filepath.Join(gomodcache, modDirName)
 
 	info, err := os.Stat(dir)
-- 
2.43.0


From 469404d6f845590528dd19fff0d4c106f709cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:46 +0000
Subject: [PATCH 18/76] fix: absolute go.work entries ending in ... were looked
 up below the workspace

---
 lens/module.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index cbdbba8..9c5145a 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -347,7 +347,10 @@ func parseGoWork(workPath string) ([]string, error) {
 
 	// helper to walk a tree for "..."
 	walkEllipsis := func(prefix string) error {
-		start := filepath.Join(workDir, prefix)
+		start := prefix
+		if !filepath.IsAbs(prefix) {
+			start = filepath.Join(workDir, prefix)
+		}
 		return filepath.WalkDir(start, func(path string, d fs.DirEntry, err error) error {
 			if err != nil || !d.IsDir() {
 				return err
-- 
2.43.0


From 3d97b7f08a5f510a488ac231bfdf09bec2c8719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:45 +0000
Subject: [PATCH 19/76] fix: a run without a charts file failed after the whole
 analysis

---
 lens/report.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/report.go b/lens/report.go
index 6c55bea..630f397 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -364,6 +364,9 @@ func writeReportCharts(path string, moduleName, startVersion, changeVersion stri
 	moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
 	testFieldSameCount, testFieldDiffCount int, testResults []TestReport,
 	globalMutations MutationResult) error {
+	if path == "" {
+		return nil // charts not requested
+	}
 	var outputType string
 	if strings.HasSuffix(path, ".png") {
 		outputType = charts.ChartOutputPNG
-- 
2.43.0


From e91473c55d5a0f1b5c1eee86e1d3edca3ddbbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 20/76] fix: the charts file path was not validated when a JSON
 report was requested too

---
 lens/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index ce72a15..e70dcdb 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1136,7 +1136,8 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
+	}
+	if c.ReportChartsFile != "" {
 		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
-- 
2.43.0


From 9faff01ae3a0e2d56d298a283e4721a687aa9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:50 +0000
Subject: [PATCH 21/76] fix: the report of an update the project does not reach
 counted no changed functions

---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index e70dcdb..04239b7 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From a45063a278701f248096ce6001db3f02b9c328a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:53 +0000
Subject: [PATCH 22/76] fix: checking the output directory destroyed a file
 named .write_test

---
 lens/engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 04239b7..31b5f22 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1202,11 +1202,10 @@ func (c *Config) validateOutputPath(path string) error {
 	}
 
 	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	file, err := os.CreateTemp(dir, ".write_test-*") // unique name so that no existing file is overwritten
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
 	_ = file.Close()
-	return os.Remove(testFile)
+	return os.Remove(file.Name())
 }
-- 
2.43.0


From 583b2eb61bba7870eac1591607cdc4485e5c9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:25 +0000
Subject: [PATCH 23/76] fix: a module listed more than once lost its changed
 functions

---
 lens/module.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/module.go b/lens/module.go
index 9c5145a..c1357e2 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -110,6 +110,9 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 	newVersionPackages := make(map[string][]*packages.Package, len(moduleChanges))
 
 	for _, mc := range moduleChanges {
+		if visited[mc.Name] {
+			continue // listed more than once, keep the result we have
+		}
 		cf, pkgs, recursiveCalls, err :=
 			analyzeModuleChangesInternal(includeTransitive, mc, gomodcache, projectDir, neighbourRadius, visited)
 		if err != nil {
-- 
2.43.0


From 6602278f5c8d5a226174223156e5c4b21e4c3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:28 +0000
Subject: [PATCH 24/76] fix: transitive dependencies the project already has at
 a newer version were analyzed as a downgrade

---
 lens/module.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index c1357e2..d74d7d3 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -248,7 +248,8 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 	var recursiveCalls []moduleChangeAnalyzeFunc
 	for dep, newDepVer := range newDeps {
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
-			if projVer, ok := projectDeps[dep]; ok && projVer != newDepVer {
+			// a requirement only ever raises the version selected for the project
+			if projVer, ok := projectDeps[dep]; ok && semver.Compare(newDepVer, projVer) > 0 {
 				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
 					// Transitive module analysis
 					return analyzeModuleChangesInternal(true,
-- 
2.43.0


From d6d430ce7011c36469bf5867fa17482c7fa3112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:06 +0000
Subject: [PATCH 25/76] fix: the version analyzed for a shared transitive
 dependency was random

---
 lens/module.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index d74d7d3..a509c5f 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -2,6 +2,7 @@ package lens
 
 import (
 	"bytes"
+	"cmp"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -104,7 +105,7 @@ func DiffModulesFromGoModFiles(oldGoModPath, newGoModPath string) ([]*ModuleChan
 func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir string, moduleChanges []*ModuleChange,
 	neighbourRadius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
 	visited := make(map[string]bool)
-	var indirectAnalysis []moduleChangeAnalyzeFunc
+	var indirectAnalysis []*ModuleChange
 
 	allModuleData := make(map[string][]*ModuleFunction, len(moduleChanges))
 	newVersionPackages := make(map[string][]*packages.Package, len(moduleChanges))
@@ -113,12 +114,12 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 		if visited[mc.Name] {
 			continue // listed more than once, keep the result we have
 		}
-		cf, pkgs, recursiveCalls, err :=
+		cf, pkgs, transitive, err :=
 			analyzeModuleChangesInternal(includeTransitive, mc, gomodcache, projectDir, neighbourRadius, visited)
 		if err != nil {
 			return nil, nil, err
 		}
-		indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
+		indirectAnalysis = append(indirectAnalysis, transitive...)
 
 		allModuleData[mc.Name] = cf
 		if len(pkgs) > 0 {
@@ -126,16 +127,21 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 		}
 	}
 
-	// recursive calls are done in levels; we prefer versions found more directly depended on
+	// transitive modules are analyzed in levels; we prefer versions found more directly depended on
 	currentLevel := indirectAnalysis
 	indirectAnalysis = nil
 	for len(currentLevel) > 0 {
-		for _, f := range currentLevel {
-			cf, pkgs, recursiveCalls, err := f()
+		// within a level the newest required version is the one which gets selected
+		slices.SortStableFunc(currentLevel, func(a, b *ModuleChange) int {
+			return cmp.Or(strings.Compare(a.Name, b.Name), semver.Compare(b.NewVersion, a.NewVersion))
+		})
+		for _, mc := range currentLevel {
+			cf, pkgs, transitive, err :=
+				analyzeModuleChangesInternal(true, mc, gomodcache, projectDir, neighbourRadius, visited)
 			if err != nil {
 				return nil, nil, err
 			}
-			indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
+			indirectAnalysis = append(indirectAnalysis, transitive...)
 
 			for _, fn := range cf {
 				modName := fn.Module.Name
@@ -153,12 +159,10 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 	return allModuleData, newVersionPackages, nil
 }
 
-type moduleChangeAnalyzeFunc func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error)
-
 // analyzeModuleChangesInternal does the actual work and uses a visited map to prevent infinite recursion.
-// Returns changed functions (OLD version), NEW version packages, and recursive analysis functions.
+// Returns changed functions (OLD version), NEW version packages, and the transitive changes to analyze next.
 func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomodcache, projectDir string,
-	neighbourRadius int, visited map[string]bool) ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
+	neighbourRadius int, visited map[string]bool) ([]*ModuleFunction, []*packages.Package, []*ModuleChange, error) {
 	if visited[mc.Name] {
 		return nil, nil, nil, nil
 	}
@@ -245,26 +249,22 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 	if err != nil {
 		return nil, nil, nil, fmt.Errorf("could not read project dependencies: %w", err)
 	}
-	var recursiveCalls []moduleChangeAnalyzeFunc
+	var transitive []*ModuleChange
 	for dep, newDepVer := range newDeps {
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
 			// a requirement only ever raises the version selected for the project
 			if projVer, ok := projectDeps[dep]; ok && semver.Compare(newDepVer, projVer) > 0 {
-				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
-					// Transitive module analysis
-					return analyzeModuleChangesInternal(true,
-						&ModuleChange{
-							Name:         dep,
-							PriorVersion: projVer,
-							NewVersion:   newDepVer,
-							Indirect:     true,
-						}, gomodcache, projectDir, neighbourRadius, visited)
+				transitive = append(transitive, &ModuleChange{
+					Name:         dep,
+					PriorVersion: projVer,
+					NewVersion:   newDepVer,
+					Indirect:     true,
 				})
 			}
 		}
 	}
 
-	return changes, newPkgs, recursiveCalls, nil
+	return changes, newPkgs, transitive, nil
 }
 
 func loadModulePackageFromCache(gomodcache, modName, version string) (string, []*packages.Package, error) {
-- 
2.43.0


From 49bfe930a3d983025c1dfed831c796ca67d34a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 26/76] fix: a function was reported as changed when only a
 comment line was added or its layout changed

---
 lens/module.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index a509c5f..d43a045 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -7,6 +7,8 @@ import (
 	"fmt"
 	"go/ast"
 	"go/printer"
+	"go/scanner"
+	"go/token"
 	"io/fs"
 	"log"
 	"maps"
@@ -222,7 +224,7 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		for funcKey, newFunc := range newFuncMap {
 			if oldFuncMap == nil {
 				// new functions can be ignored, we will focus on entry points to functions that already existed
-			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && oldFunc.Definition != newFunc.Definition {
+			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && !sameCode(oldFunc.Definition, newFunc.Definition) {
 				oldFunc.LineChangeBitmap = computeChangeLineBitmap(oldFunc.Definition, newFunc.Definition, false, neighbourRadius)
 				changes = append(changes, oldFunc) // add the old function so that the module can accurately be referenced prior to the update
 			}
@@ -694,6 +696,35 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 	return
 }
 
+// sameCode reports if two function definitions differ at most in their layout. Removed comments leave blank lines in the
+// printed definition, so the text alone can't be compared.
+func sameCode(oldDef, newDef string) bool {
+	return oldDef == newDef || slices.Equal(codeTokens(oldDef), codeTokens(newDef))
+}
+
+// codeTokens splits a function definition into its tokens, ignoring comments and line breaks which have no meaning.
+func codeTokens(def string) []string {
+	var s scanner.Scanner
+	src := []byte(def)
+	s.Init(token.NewFileSet().AddFile("", -1, len(src)), src, nil, 0)
+	var tokens []string
+	for {
+		_, tok, lit := s.Scan()
+		if tok == token.EOF {
+			return tokens
+		}
+		if tok == token.RPAREN || tok == token.RBRACE || tok == token.RBRACK { // ignore what only a line break requires
+			for len(tokens) > 0 && (tokens[len(tokens)-1] == "," || tokens[len(tokens)-1] == ";") {
+				tokens = tokens[:len(tokens)-1]
+			}
+		}
+		if tok == token.SEMICOLON || !tok.IsLiteral() {
+			lit = tok.String() // an automatic semicolon is the same as a written one
+		}
+		tokens = append(tokens, lit)
+	}
+}
+
 // computeChangeLineBitmap compares two versions of a function's source.
 // It returns a []bool where each index corresponds to one line in the chosen definition.
 // If newFunc == true, the bitmap’s indices align with newDef’s lines; if newFunc == false,
-- 
2.43.0


From 23ce9c25a6be4937978bf661f02c9b7f0a9073d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:46 +0000
Subject: [PATCH 27/76] fix: a method changed along with its receiver was not
 reported as changed

---
 lens/module.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index d43a045..08b3b09 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -220,11 +220,15 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 			}
 		}
 
+		oldFuncs := make(map[string]*ModuleFunction, len(oldFuncMap)) // matches methods even if the receiver is declared differently
+		for _, oldFunc := range oldFuncMap {
+			oldFuncs[methodKey(oldFunc)] = oldFunc
+		}
+
 		// Compare new functions to the old ones
-		for funcKey, newFunc := range newFuncMap {
-			if oldFuncMap == nil {
-				// new functions can be ignored, we will focus on entry points to functions that already existed
-			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && !sameCode(oldFunc.Definition, newFunc.Definition) {
+		for _, newFunc := range newFuncMap {
+			// new functions can be ignored, we will focus on entry points to functions that already existed
+			if oldFunc, ok := oldFuncs[methodKey(newFunc)]; ok && !sameCode(oldFunc.Definition, newFunc.Definition) {
 				oldFunc.LineChangeBitmap = computeChangeLineBitmap(oldFunc.Definition, newFunc.Definition, false, neighbourRadius)
 				changes = append(changes, oldFunc) // add the old function so that the module can accurately be referenced prior to the update
 			}
@@ -696,6 +700,16 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 	return
 }
 
+// methodKey identifies a function independent of a pointer receiver or the names of receiver type parameters.
+func methodKey(f *ModuleFunction) string {
+	name := strings.TrimPrefix(f.FunctionIdent, f.PackageName+":")
+	if recv, ok := strings.CutSuffix(name, "."+f.FunctionName); ok {
+		recv, _, _ = strings.Cut(strings.TrimPrefix(recv, "*"), "[")
+		return recv + "." + f.FunctionName
+	}
+	return name
+}
+
 // sameCode reports if two function definitions differ at most in their layout. Removed comments leave blank lines in the
 // printed definition, so the text alone can't be compared.
 func sameCode(oldDef, newDef string) bool {
-- 
2.43.0


From 71050fc0cc36db839ca019a0cde2539500d2312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:31 +0000
Subject: [PATCH 28/76] fix: instrumented files which are links, have special
 modes or a .bkp file next to them were not restored

---
 lens/asttweak.go | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..ad3e5ce 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -71,6 +71,8 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backupLock     sync.Mutex
+	backups        map[string]bool // original files which have a backup
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -382,17 +384,43 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
-func (m *ASTModifier) backupOrigFile(filepath string) error {
-	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
-		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+// backupOrigFile will copy the file to a .bkp file if this modifier did not do so already.
+func (m *ASTModifier) backupOrigFile(filePath string) error {
+	// a link stays as it is, what gets changed is the file it refers to
+	origFile, err := filepath.EvalSymlinks(filePath)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	m.backupLock.Lock()
+	defer m.backupLock.Unlock()
+	if m.backups[origFile] {
+		return nil
+	}
+	info, err := os.Stat(origFile)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
 	}
+	bkpFile := origFile + ".bkp"
+	for FileExists(bkpFile) { // not our file, it must be kept
+		bkpFile += ".bkp"
+	}
+	if err = CopyFile(origFile, bkpFile); err == nil {
+		err = os.Chmod(bkpFile, info.Mode().Perm())
+	}
+	if err != nil {
+		_ = os.Remove(bkpFile)
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	if m.backups == nil {
+		m.backups = make(map[string]bool)
+	}
+	m.backups[origFile] = true
+	m.addCleanupAction(func() error {
+		m.backupLock.Lock()
+		defer m.backupLock.Unlock()
+		delete(m.backups, origFile)
+		return replaceFile(bkpFile, origFile)
+	})
 	return nil
 }
 
-- 
2.43.0


From a0933fe15e25a3ba94724ccff8ec78daf1ff0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:32 +0000
Subject: [PATCH 29/76] fix: a partly injected client was left in the package

---
 lens/asttweak.go | 8 ++++----
 lens/file.go     | 7 +++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index ad3e5ce..314894d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -229,6 +229,10 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 		return err
 	}
 	clientFile := filepath.Join(pkgDir, injectedFilenamePrefix+"client_gen.go")
+	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
+	m.addCleanupAction(func() error { // added first so that a failure to write does not leave files behind
+		return errors.Join(removeIfExists(clientFile), removeIfExists(apiFile))
+	})
 	clientTxt, err := rewriteAstClientTemplate(&buf, clientSrc, pkgName, map[string]string{
 		"lensMonitorServerPort":      strconv.Itoa(srvPort),
 		"lensMonitorFieldMaxRecurse": strconv.Itoa(maxFieldRecurse),
@@ -239,16 +243,12 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
 		return err
 	}
-	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
 		return err
 	}
-	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
-	})
 	return nil
 }
 
diff --git a/lens/file.go b/lens/file.go
index 92f93cb..361329c 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -48,6 +48,13 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 	return true, nil
 }
 
+func removeIfExists(filename string) error {
+	if err := os.Remove(filename); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	return nil
+}
+
 func replaceFile(source, destination string) error {
 	if _, err := os.Stat(destination); err == nil {
 		if err = os.Remove(destination); err != nil {
-- 
2.43.0


From d6e3ffc98dfdbb53f385a1d293d1cce3186ae3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:40 +0000
Subject: [PATCH 30/76] fix: the module update was not undone completely:
 created go.sum files, workspace files, existing .bkp files

---
 lens/astexec.go | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 56d4a4c..e003add 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"log"
 	"maps"
-	"os"
 	"path/filepath"
 	"runtime"
 	"slices"
@@ -112,41 +111,27 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
-	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
+	modEditor := &ASTModifier{}
 	// restore originals (and remove .bkp) on every return path, including early errors
 	defer func() {
-		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
-			}
+		if errs := modEditor.Restore(env); len(errs) > 0 {
+			log.Printf("%sFailed to restore module files (%d): %v", ErrorLogPrefix, len(errs), errs[0])
 		}
 	}()
+	updateFiles := make([]string, 0, len(goModPaths)*2+2)
 	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
+		updateFiles = append(updateFiles, gm, filepath.Join(filepath.Dir(gm), "go.sum"))
+	}
+	if workFile := filepath.Join(projectDir, "go.work"); FileExists(workFile) {
+		updateFiles = append(updateFiles, workFile, workFile+".sum")
+	}
+	for _, file := range updateFiles {
+		if !FileExists(file) {
+			modEditor.addCleanupAction(func() error { return removeIfExists(file) }) // may be created by the update
+		} else if err := modEditor.backupOrigFile(file); err != nil {
 			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-				fmt.Errorf("backup go.mod failed: %w", err)
-		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
-				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
-			}
+				fmt.Errorf("backup %s failed: %w", filepath.Base(file), err)
 		}
-		backups = append(backups, info)
 	}
 
 	for _, gm := range goModPaths {
-- 
2.43.0


From 51566d3c308acb7061c98e0f6c85a6cad66b3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:24 +0000
Subject: [PATCH 31/76] fix: comments within instrumented functions could make
 the file invalid

---
 lens/asttweak.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 314894d..dd99e30 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -463,11 +463,20 @@ func (m *ASTModifier) injectPoint(filePath, pkg, funcIdent string, modify func(b
 	if err != nil {
 		return 0, err
 	}
+	dropBodyComments(fileNode, target.Body)
 	modify(target.Body, pointID)
 
 	return pointID, nil
 }
 
+// dropBodyComments removes the comments within a function body which is about to be changed. Comments are placed by
+// position, between nodes which have none they could end up within a statement and make the file invalid.
+func dropBodyComments(f *ast.File, body *ast.BlockStmt) {
+	f.Comments = slices.DeleteFunc(f.Comments, func(c *ast.CommentGroup) bool {
+		return c.Pos() > body.Lbrace && c.End() <= body.Rbrace
+	})
+}
+
 func hasPatchlensMarker(funcDecl *ast.FuncDecl, marker string) bool {
 	if funcDecl.Doc == nil {
 		return false
@@ -574,6 +583,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 
 	// Try to build *types.Info; fall back to nil on any error
 	info := buildTypesInfo(fset, fileNode) // may return nil
+	dropBodyComments(fileNode, funcDecl.Body)
 
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
@@ -755,6 +765,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		}
 	}
 
+	dropBodyComments(fileNode, funcDecl.Body)
 	pointMap := make(map[uint32]any)
 	var buf bytes.Buffer
 
-- 
2.43.0


From 34f0eafc0baebc88285c4a195c567c9173db427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:25 +0000
Subject: [PATCH 32/76] fix: the injected client wrote to the standard output
 of the program

---
 lens/astclient.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2412df1..e3b7ad8 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -180,11 +180,11 @@ func sendLensError(id uint32, origErr error) {
 	// Note: cannot use postLensMonitorMessage to avoid infinite recursion on POST failure
 	resp, err := lensHttpClient.Post(lensMonitorEndpointError, "application/octet-stream", &buf)
 	if err != nil {
-		fmt.Printf("POST LensMonitorMessageError failed: %v, original error: %v\n", err, origErr)
+		_, _ = fmt.Fprintf(os.Stderr, "POST LensMonitorMessageError failed: %v, original error: %v\n", err, origErr)
 	} else {
 		defer func() { _ = resp.Body.Close() }()
 		if resp.StatusCode >= 300 {
-			fmt.Printf("error endpoint returned status %d, original error: %v\n", resp.StatusCode, origErr)
+			_, _ = fmt.Fprintf(os.Stderr, "error endpoint returned status %d, original error: %v\n", resp.StatusCode, origErr)
 		}
 	}
 }
-- 
2.43.0


From 103d40f7342c3a8ffff74f73e9c2f2c3cc25c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:25 +0000
Subject: [PATCH 33/76] fix: the injected client did not compile in packages
 with declarations named like a package it imports

---
 lens/asttweak.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index dd99e30..c7a0bfa 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -17,6 +17,7 @@ import (
 	"io/fs"
 	"os"
 	"os/exec"
+	"path"
 	"path/filepath"
 	"runtime"
 	"slices"
@@ -342,6 +343,9 @@ func rewriteAstClientTemplate(buf *bytes.Buffer, src []byte, newPkg string,
 	// mutate targeted consts inside the AST
 	updateConstLiterals(file, constantReplacements)
 
+	// the package may have declarations with the name of an imported package
+	aliasImports(file, "lensImport_")
+
 	buf.Reset()
 	if err := format.Node(buf, fset, file); err != nil {
 		return nil, err
@@ -349,6 +353,27 @@ func rewriteAstClientTemplate(buf *bytes.Buffer, src []byte, newPkg string,
 	return buf.Bytes(), nil
 }
 
+// aliasImports gives every import of the file a name with the prefix, and updates what refers to it.
+func aliasImports(f *ast.File, prefix string) {
+	aliases := make(map[string]string, len(f.Imports))
+	for _, imp := range f.Imports {
+		if imp.Name != nil {
+			continue
+		}
+		name := path.Base(strings.Trim(imp.Path.Value, `"`))
+		aliases[name] = prefix + name
+		imp.Name = ast.NewIdent(aliases[name])
+	}
+	ast.Inspect(f, func(n ast.Node) bool {
+		if sel, ok := n.(*ast.SelectorExpr); ok {
+			if id, ok := sel.X.(*ast.Ident); ok && id.Obj == nil && aliases[id.Name] != "" {
+				id.Name = aliases[id.Name]
+			}
+		}
+		return true
+	})
+}
+
 // updateConstLiterals walks every const and var declaration and, if it finds an
 // identifier that matches one of the keys in `values`, replaces the *literal*
 // on the same index position within the ValueSpec.
-- 
2.43.0


From 62507507b3a82d4fdaee8fe626c0fc522ba1a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 34/76] fix: returns within select, labeled and else-if
 statements, and the end of functions with an early return, had no state point

---
 lens/asttweak.go | 142 ++++++++++++++++++++++++-----------------------
 1 file changed, 72 insertions(+), 70 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index c7a0bfa..272b536 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -613,90 +613,83 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
 	var foundExplicitReturn bool
-	// helper function that recursively rewrites a *ast.BlockStmt in-place
+	// helper functions that recursively rewrite the statements in-place
 	var buf bytes.Buffer
-	var rewriteBlock func(*ast.BlockStmt) error
-	rewriteBlock = func(blk *ast.BlockStmt) error {
-		for i, st := range blk.List {
-			switch s := st.(type) {
-			case *ast.ReturnStmt:
-				foundExplicitReturn = true
-				pointID, err := m.nextPointId()
-				if err != nil {
-					return err
-				}
-				pointIDs = append(pointIDs, pointID)
+	var rewriteStmt func(ast.Stmt) (ast.Stmt, error)
+	rewriteList := func(list []ast.Stmt) error {
+		for i, st := range list {
+			newNode, err := rewriteStmt(st)
+			if err != nil {
+				return err
+			}
+			list[i] = newNode
+		}
+		return nil
+	}
+	rewriteStmt = func(st ast.Stmt) (ast.Stmt, error) {
+		switch s := st.(type) {
+		case *ast.ReturnStmt:
+			foundExplicitReturn = true
+			pointID, err := m.nextPointId()
+			if err != nil {
+				return nil, err
+			}
+			pointIDs = append(pointIDs, pointID)
 
-				decls := visibleDeclsBefore(funcDecl, s.Pos())
-				newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+			decls := visibleDeclsBefore(funcDecl, s.Pos())
+			newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+			if err != nil {
+				return nil, err
+			}
+			return newNode, nil // replace old return with block
+		case *ast.LabeledStmt:
+			newNode, err := rewriteStmt(s.Stmt)
+			if err != nil {
+				return nil, err
+			}
+			s.Stmt = newNode
+		case *ast.BlockStmt:
+			return s, rewriteList(s.List)
+		case *ast.IfStmt:
+			if err := rewriteList(s.Body.List); err != nil {
+				return nil, err
+			} else if s.Else != nil { // else block, or the next if of the chain
+				newNode, err := rewriteStmt(s.Else)
 				if err != nil {
-					return err
-				}
-				blk.List[i] = newNode // replace old return with block
-			case *ast.BlockStmt:
-				if err := rewriteBlock(s); err != nil {
-					return err
-				}
-			case *ast.IfStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-				if s.Else != nil {
-					switch e := s.Else.(type) {
-					case *ast.BlockStmt:
-						if err := rewriteBlock(e); err != nil {
-							return err
-						}
-					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
-							return err
-						}
-					}
-				}
-			case *ast.ForStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.RangeStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.SwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
-			case *ast.TypeSwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
+					return nil, err
 				}
+				s.Else = newNode
 			}
+		case *ast.ForStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.RangeStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.SwitchStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.TypeSwitchStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.SelectStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.CaseClause:
+			return s, rewriteList(s.Body)
+		case *ast.CommClause:
+			return s, rewriteList(s.Body)
 		}
-		return nil
+		return st, nil
 	}
 
-	if err := rewriteBlock(funcDecl.Body); err != nil {
+	implicitReturn := len(funcResultTypes) == 0 && !endsWithReturn(funcDecl.Body)
+	if err := rewriteList(funcDecl.Body.List); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || implicitReturn {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
@@ -753,6 +746,15 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	return pointIDs, nil
 }
 
+// endsWithReturn reports whether the last statement of the block is a return.
+func endsWithReturn(body *ast.BlockStmt) bool {
+	if len(body.List) == 0 {
+		return false
+	}
+	_, ok := body.List[len(body.List)-1].(*ast.ReturnStmt)
+	return ok
+}
+
 // InjectFuncPointBeforeCall injects monitoring points before call expressions that match the predicate.
 // The predicate function is called for each CallExpr in the function body.
 // If it returns true for inject, a state monitoring point is injected immediately before that call,
@@ -1326,7 +1328,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From 923e0bbfc3d89b945868a629e2b4beaac9775924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 35/76] fix: instrumenting a file which is not part of the
 package build panicked

---
 lens/asttweak.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 272b536..c368893 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1243,17 +1243,27 @@ func buildTypesInfo(fset *token.FileSet, targetFile *ast.File) *types.Info {
 		return nil
 	}
 	// There should be exactly one non-test package in this directory
-	pkgFiles := bulk.MapValuesSlice(pkgs[targetFile.Name.Name].Files)
+	pkg, ok := pkgs[targetFile.Name.Name]
+	if !ok {
+		return nil // a file which is not part of the build
+	}
+	pkgFiles := bulk.MapValuesSlice(pkg.Files)
 	files := make([]*ast.File, 0, len(pkgFiles))
 	targetPath := fset.File(targetFile.Pos()).Name()
+	var found bool
 	for _, f := range pkgFiles {
 		if fset.File(f.Pos()).Name() == targetPath {
+			found = true
 			files = append(files, targetFile) // reuse parsed node so pointer matches
 		} else {
 			files = append(files, f)
 		}
 	}
 
+	if !found {
+		return nil
+	}
+
 	info := &types.Info{
 		Defs:  make(map[*ast.Ident]types.Object),
 		Uses:  make(map[*ast.Ident]types.Object),
-- 
2.43.0


From 4081d7346f177c91d604a84ad76e0d461d569e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 36/76] fix: untyped constants without a representable default
 type made the instrumented file invalid

---
 lens/asttweak.go | 74 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index c368893..0a1d758 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/build"
+	"go/constant"
 	"go/format"
 	"go/importer"
 	"go/parser"
@@ -15,6 +16,7 @@ import (
 	"go/token"
 	"go/types"
 	"io/fs"
+	"math"
 	"os"
 	"os/exec"
 	"path"
@@ -607,7 +609,11 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	}
 
 	// Try to build *types.Info; fall back to nil on any error
-	info := buildTypesInfo(fset, fileNode) // may return nil
+	partialInfo, complete := buildPartialTypesInfo(fset, fileNode)
+	var info *types.Info
+	if complete {
+		info = partialInfo
+	}
 	dropBodyComments(fileNode, funcDecl.Body)
 
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
@@ -636,7 +642,14 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			}
 			pointIDs = append(pointIDs, pointID)
 
-			decls := visibleDeclsBefore(funcDecl, s.Pos())
+			decls := dropLargeConsts(visibleDeclsBefore(funcDecl, s.Pos()), partialInfo)
+			if info == nil {
+				for i, e := range s.Results {
+					if id, ok := e.(*ast.Ident); ok && isLargeConst(id, partialInfo) {
+						s.Results[i] = &ast.ParenExpr{X: id} // must be converted to the result type
+					}
+				}
+			}
 			newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
 			if err != nil {
 				return nil, err
@@ -688,7 +701,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 		}
 		pointIDs = append(pointIDs, pointID)
 
-		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
+		decls := dropLargeConsts(visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1), partialInfo)
 		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
@@ -1231,21 +1244,30 @@ type declInfo struct {
 // package as targetFile.  On any failure it returns nil so callers can fall
 // back to a syntactic scan.
 func buildTypesInfo(fset *token.FileSet, targetFile *ast.File) *types.Info {
+	info, complete := buildPartialTypesInfo(fset, targetFile)
+	if !complete {
+		return nil
+	}
+	return info
+}
+
+// buildPartialTypesInfo provides what is known of the types, even if there have been failures (complete is false).
+func buildPartialTypesInfo(fset *token.FileSet, targetFile *ast.File) (result *types.Info, complete bool) {
 	// Locate the directory that contains the target file
 	targetPos := fset.File(targetFile.Pos())
 	if targetPos == nil {
-		return nil
+		return nil, false
 	}
 	dir := filepath.Dir(targetPos.Name())
 
 	pkgs, err := parseDir(fset, dir, makeFileFilter(dir), 0)
 	if err != nil || len(pkgs) == 0 {
-		return nil
+		return nil, false
 	}
 	// There should be exactly one non-test package in this directory
 	pkg, ok := pkgs[targetFile.Name.Name]
 	if !ok {
-		return nil // a file which is not part of the build
+		return nil, false // a file which is not part of the build
 	}
 	pkgFiles := bulk.MapValuesSlice(pkg.Files)
 	files := make([]*ast.File, 0, len(pkgFiles))
@@ -1261,7 +1283,7 @@ func buildTypesInfo(fset *token.FileSet, targetFile *ast.File) *types.Info {
 	}
 
 	if !found {
-		return nil
+		return nil, false
 	}
 
 	info := &types.Info{
@@ -1273,10 +1295,42 @@ func buildTypesInfo(fset *token.FileSet, targetFile *ast.File) *types.Info {
 		Importer: importer.Default(),
 		Error:    func(error) {}, // ignore type errors – we’ll fall back on any failure
 	}
-	if _, err := cfg.Check("", fset, files, info); err != nil {
-		return nil
+	_, err = cfg.Check("", fset, files, info)
+	return info, err == nil
+}
+
+// isLargeConst reports whether the identifier is an untyped constant which is not representable by its default type.
+func isLargeConst(id *ast.Ident, info *types.Info) bool {
+	if info == nil {
+		return false
 	}
-	return info
+	c, ok := info.ObjectOf(id).(*types.Const)
+	if !ok {
+		return false
+	}
+	basic, ok := c.Type().(*types.Basic)
+	if !ok || basic.Info()&types.IsUntyped == 0 {
+		return false
+	}
+	switch basic.Kind() {
+	case types.UntypedInt, types.UntypedRune:
+		v, exact := constant.Int64Val(constant.ToInt(c.Val()))
+		return !exact || int64(int(v)) != v || basic.Kind() == types.UntypedRune && int64(rune(v)) != v
+	case types.UntypedFloat:
+		v, _ := constant.Float64Val(c.Val())
+		return math.IsInf(v, 0)
+	case types.UntypedComplex:
+		re, _ := constant.Float64Val(constant.Real(c.Val()))
+		im, _ := constant.Float64Val(constant.Imag(c.Val()))
+		return math.IsInf(re, 0) || math.IsInf(im, 0)
+	default:
+		return false
+	}
+}
+
+// dropLargeConsts removes the constants which can't be captured because there is no type for their value.
+func dropLargeConsts(decls []declInfo, info *types.Info) []declInfo {
+	return slices.DeleteFunc(decls, func(d declInfo) bool { return isLargeConst(d.ident, info) })
 }
 
 // isPrevStmtSendLensPoint checks if the previous statement in the slice (at idx-1)
-- 
2.43.0


From 8206e8054b809aa1cc464b8daa0b71b5a400128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:48 +0000
Subject: [PATCH 37/76] fix: return types shadowed by a declaration made the
 instrumented file invalid

---
 lens/asttweak.go | 160 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 155 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 0a1d758..aa40555 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -37,6 +37,7 @@ const (
 	syntheticFieldNamePrefixTemp      = "lenSyntheticTmp"
 	syntheticFieldNamePrefixReturn    = "lenSyntheticRet"
 	syntheticFieldNamePrefixRecursive = "lenSyntheticRec"
+	syntheticFieldNamePrefixResult    = "lenSyntheticResult"
 	syntheticFieldNamePrefixArg       = "lenSyntheticArg"
 	syntheticFieldNamePrefixReceiver  = "lenSyntheticRecv"
 	literalNil                        = "nil"
@@ -619,6 +620,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
 	var foundExplicitReturn bool
+	hiddenResults := make(map[int]string) // results which are assigned where another declaration hides them
 	// helper functions that recursively rewrite the statements in-place
 	var buf bytes.Buffer
 	var rewriteStmt func(ast.Stmt) (ast.Stmt, error)
@@ -642,7 +644,16 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			}
 			pointIDs = append(pointIDs, pointID)
 
-			decls := dropLargeConsts(visibleDeclsBefore(funcDecl, s.Pos()), partialInfo)
+			decls := capturableDecls(visibleDeclsBefore(funcDecl, s.Pos()), partialInfo)
+			if resultTypesShadowed(funcDecl, s, funcResultTypes) {
+				results := assignableResults(funcDecl, s.Pos())
+				for i, r := range results {
+					if r.hidden {
+						hiddenResults[i] = r.ident.Name
+					}
+				}
+				return buildShadowedReturnInstrumentation(&buf, s, pointID, fn, decls, results)
+			}
 			if info == nil {
 				for i, e := range s.Results {
 					if id, ok := e.(*ast.Ident); ok && isLargeConst(id, partialInfo) {
@@ -701,7 +712,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 		}
 		pointIDs = append(pointIDs, pointID)
 
-		decls := dropLargeConsts(visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1), partialInfo)
+		decls := capturableDecls(visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1), partialInfo)
 		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
@@ -748,6 +759,14 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			}
 		}
 	}
+	for i, name := range hiddenResults {
+		// lenSyntheticResultPtrX := &name
+		funcDecl.Body.List = slices.Insert(funcDecl.Body.List, 0, ast.Stmt(&ast.AssignStmt{
+			Lhs: []ast.Expr{ast.NewIdent(syntheticFieldNamePrefixResult + "Ptr" + strconv.Itoa(i))},
+			Tok: token.DEFINE,
+			Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(name)}},
+		}))
+	}
 	// mark as updated
 	if funcDecl.Doc == nil {
 		funcDecl.Doc = &ast.CommentGroup{}
@@ -1328,9 +1347,12 @@ func isLargeConst(id *ast.Ident, info *types.Info) bool {
 	}
 }
 
-// dropLargeConsts removes the constants which can't be captured because there is no type for their value.
-func dropLargeConsts(decls []declInfo, info *types.Info) []declInfo {
-	return slices.DeleteFunc(decls, func(d declInfo) bool { return isLargeConst(d.ident, info) })
+// capturableDecls removes the constants which can't be captured because there is no type for their value, and results
+// which have no name in the original source.
+func capturableDecls(decls []declInfo, info *types.Info) []declInfo {
+	return slices.DeleteFunc(decls, func(d declInfo) bool {
+		return isLargeConst(d.ident, info) || strings.HasPrefix(d.ident.Name, syntheticFieldNamePrefixResult)
+	})
 }
 
 // isPrevStmtSendLensPoint checks if the previous statement in the slice (at idx-1)
@@ -1659,6 +1681,134 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 	}, nil
 }
 
+// resultTypesShadowed reports whether the types of the results can't be named at the return.
+func resultTypesShadowed(fn *ast.FuncDecl, ret *ast.ReturnStmt, resultTypes []ast.Expr) bool {
+	if len(ret.Results) == 0 || len(resultTypes) == 0 {
+		return false
+	}
+	names := make(map[string]bool)
+	if fn.Recv != nil {
+		for _, f := range fn.Recv.List {
+			for _, id := range f.Names {
+				names[id.Name] = true
+			}
+		}
+	}
+	for _, d := range visibleDeclsBefore(fn, ret.Pos()) {
+		names[d.ident.Name] = true
+	}
+	ast.Inspect(fn.Body, func(n ast.Node) bool {
+		if spec, ok := n.(*ast.TypeSpec); ok && spec.Pos() < ret.Pos() {
+			names[spec.Name.Name] = true // may be out of scope, in which case the results are still assignable
+		}
+		return true
+	})
+	for i, typ := range resultTypes {
+		if len(ret.Results) == len(resultTypes) && exprContainsTypeShadow(ret.Results[i], typ) {
+			return true
+		}
+		var shadowed bool
+		ast.Inspect(typ, func(n ast.Node) bool {
+			if id, ok := n.(*ast.Ident); ok && names[id.Name] {
+				shadowed = true
+			}
+			return !shadowed
+		})
+		if shadowed {
+			return true
+		}
+	}
+	return false
+}
+
+// resultVar is a result which can be assigned at a return.
+type resultVar struct {
+	ident  *ast.Ident
+	added  bool // not named in the original source
+	hidden bool // by another declaration, must be assigned through a pointer
+}
+
+// assignableResults provides a variable for each of the results, results without a name are given one.
+func assignableResults(fn *ast.FuncDecl, retPos token.Pos) []resultVar {
+	latest := make(map[string]token.Pos)
+	for _, d := range visibleDeclsBefore(fn, retPos) {
+		latest[d.ident.Name] = d.pos
+	}
+	ast.Inspect(fn.Body, func(n ast.Node) bool {
+		if spec, ok := n.(*ast.TypeSpec); ok {
+			latest[spec.Name.Name] = spec.Pos()
+		}
+		return true
+	})
+	isAdded := func(name string) bool { return strings.HasPrefix(name, syntheticFieldNamePrefixResult) }
+	var results []resultVar
+	for _, field := range fn.Type.Results.List {
+		if len(field.Names) == 0 {
+			field.Names = []*ast.Ident{{NamePos: field.Type.Pos(), Name: "_"}}
+		}
+		for _, id := range field.Names {
+			if id.Name == "_" {
+				id.Name = syntheticFieldNamePrefixResult + strconv.Itoa(len(results))
+			}
+			added := isAdded(id.Name)
+			results = append(results, resultVar{ident: id, added: added, hidden: !added && latest[id.Name] != id.Pos()})
+		}
+	}
+	return results
+}
+
+// buildShadowedReturnInstrumentation inserts instrumentation around an explicit return of a function where the types of
+// the results can't be used to declare variables. The results are assigned instead.
+func buildShadowedReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID uint32, fn *Function,
+	decls []declInfo, results []resultVar) (*ast.BlockStmt, error) {
+	assign := &ast.AssignStmt{Tok: token.ASSIGN}
+	for _, expr := range ret.Results {
+		rhs, err := cloneExprNoPos(buf, expr)
+		if err != nil {
+			return nil, err
+		}
+		assign.Rhs = append(assign.Rhs, rhs)
+	}
+	var stmts []ast.Stmt
+	var returned, retSnaps []ast.Expr
+	before := make(map[string]ast.Expr)
+	for i, r := range results {
+		var id ast.Expr = ast.NewIdent(r.ident.Name)
+		if r.hidden {
+			id = &ast.StarExpr{X: ast.NewIdent(syntheticFieldNamePrefixResult + "Ptr" + strconv.Itoa(i))}
+		}
+		assign.Lhs = append(assign.Lhs, id)
+		returned = append(returned, id)
+		if !r.added && !r.hidden { // the value before the return is captured
+			tmpId := ast.NewIdent(syntheticFieldNamePrefixTemp + strconv.Itoa(i))
+			before[r.ident.Name] = tmpId
+			stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{tmpId}, Tok: token.DEFINE, Rhs: []ast.Expr{id}})
+		}
+		prefix := syntheticFieldNamePrefixReturn
+		if len(ret.Results) == len(results) && isRecursiveCall(ret.Results[i], fn.FunctionName) {
+			prefix = syntheticFieldNamePrefixRecursive
+		}
+		retSnaps = append(retSnaps, makeSnapshotLit(prefix+strconv.Itoa(i), id))
+	}
+	snaps := make([]ast.Expr, 0, len(decls)+len(retSnaps))
+	for _, d := range decls {
+		if name := d.ident.Name; name == literalNil {
+			continue
+		} else if tmpId, ok := before[name]; ok {
+			snaps = append(snaps, makeSnapshotLit(name, tmpId))
+		} else {
+			snaps = append(snaps, makeSnapshotLit(name, ast.NewIdent(name)))
+		}
+	}
+	sendStmt, err := makeSendLensPointStateMessageStmt(buf, pointID, append(snaps, retSnaps...))
+	if err != nil {
+		return nil, err
+	}
+	return &ast.BlockStmt{
+		List: append(stmts, assign, sendStmt, &ast.ReturnStmt{Results: returned}),
+	}, nil
+}
+
 // zeroValueForType generates a zero value AST expression for the given type expression.
 // buf is used for cloning type expressions when needed.
 func zeroValueForType(buf *bytes.Buffer, typ ast.Expr) (ast.Expr, error) {
-- 
2.43.0


From 7bcd17e6418c2d7ea32909119a11b9ab2a2d1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:36 +0000
Subject: [PATCH 38/76] fix: points reached by the initialization of package
 variables were lost

---
 lens/astclient.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index e3b7ad8..4a88768 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -35,13 +35,16 @@ var (
 		},
 		Timeout: 10 * time.Second,
 	}
-	lensMonitorEndpointError string
-	lensMonitorEndpointPoint string
-	lensMonitorEndpointState string
-	lensMonitorEndpointPanic string
+	// lensMonitorServerURL is the base URL for messaging endpoints. The endpoints are not set within init so that they
+	// are available to points which are reached by the initialization of package variables.
+	lensMonitorServerURL     = lensMonitorMakeServerURL()
+	lensMonitorEndpointError = lensMonitorServerURL + lensMonitorEndpointPathError
+	lensMonitorEndpointPoint = lensMonitorServerURL + lensMonitorEndpointPathPoint
+	lensMonitorEndpointState = lensMonitorServerURL + lensMonitorEndpointPathState
+	lensMonitorEndpointPanic = lensMonitorServerURL + lensMonitorEndpointPathPanic
 )
 
-func init() {
+func lensMonitorMakeServerURL() string {
 	port := lensMonitorServerPort
 	if portOverride := os.Getenv("LENS_MONITOR_PORT"); portOverride != "" {
 		parsedPort, err := strconv.Atoi(portOverride)
@@ -50,12 +53,7 @@ func init() {
 		}
 		port = parsedPort
 	}
-	// serverURL is the base URL for messaging endpoints
-	serverURL := fmt.Sprintf("http://%s:%d", lensMonitorServerHost, port)
-	lensMonitorEndpointError = serverURL + lensMonitorEndpointPathError
-	lensMonitorEndpointPoint = serverURL + lensMonitorEndpointPathPoint
-	lensMonitorEndpointState = serverURL + lensMonitorEndpointPathState
-	lensMonitorEndpointPanic = serverURL + lensMonitorEndpointPathPanic
+	return fmt.Sprintf("http://%s:%d", lensMonitorServerHost, port)
 }
 
 // sendLensPointMessage sends a LensMonitorMessagePoint to the backend.
-- 
2.43.0


From c4b38bc3e0a7cddcc79132cb3ed7801c97dca358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 39/76] fix: the injected client shared http.DefaultTransport
 with the program

---
 lens/astclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 4a88768..3865cfa 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -29,7 +29,8 @@ const (
 var (
 	lensClientStartTime = time.Now()
 	lensHttpClient      = &http.Client{
-		Transport: http.DefaultTransport,
+		// not the default transport, its state belongs to the monitored program
+		Transport: &http.Transport{IdleConnTimeout: 90 * time.Second},
 		CheckRedirect: func(req *http.Request, via []*http.Request) error {
 			return errors.New("redirect not allowed")
 		},
-- 
2.43.0


From fe1563936f9b2f081724bca23eead7ab699d3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:24 +0000
Subject: [PATCH 40/76] fix: comments and directives were moved into
 instrumented functions

---
 lens/asttweak.go | 91 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 29 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index aa40555..fb22a62 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -120,28 +120,66 @@ func (m *ASTModifier) addCleanupAction(f func() error) {
 }
 
 type parsedFile struct {
-	fset *token.FileSet
-	file *ast.File
+	fset    *token.FileSet
+	file    *ast.File
+	src     []byte
+	changed map[*ast.FuncDecl]bool
+}
+
+// source provides the file with the changed functions. Everything else remains as it is in the original source, the
+// position of comments (which may be directives) in particular.
+func (pf *parsedFile) source(buf *bytes.Buffer) ([]byte, error) {
+	buf.Reset()
+	offset := func(pos token.Pos) int { return pf.fset.PositionFor(pos, false).Offset }
+	var last int
+	for _, decl := range pf.file.Decls {
+		fn, ok := decl.(*ast.FuncDecl)
+		if !ok || !pf.changed[fn] {
+			continue
+		}
+		buf.Write(pf.src[last:offset(fn.Type.Func)])
+		last = offset(fn.End())
+		if fn.Doc != nil {
+			for _, c := range fn.Doc.List { // comments added to the function
+				if o := offset(c.Slash); !bytes.HasPrefix(pf.src[o:], []byte(c.Text)) {
+					buf.WriteString(c.Text + "\n")
+				}
+			}
+		}
+		withoutDoc := *fn
+		withoutDoc.Doc = nil
+		if err := format.Node(buf, pf.fset, &withoutDoc); err != nil {
+			return nil, err
+		}
+	}
+	buf.Write(pf.src[last:])
+	return format.Source(buf.Bytes())
 }
 
 // loadParsedFileNode provides the currently parsed file.
 // fileLock must be held before invoking, and until fileNode changes are done.
-func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.File, error) {
+func (m *ASTModifier) loadParsedFileNode(filepath string) (*parsedFile, error) {
 	file, ok := m.fileNodeMap.Load(filepath)
 	if ok {
-		pf := file.(*parsedFile)
-		return pf.fset, pf.file, nil
+		return file.(*parsedFile), nil
 	}
 
+	src, err := os.ReadFile(filepath)
+	if err != nil {
+		return nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
+	}
 	fset := token.NewFileSet()
-	fileNode, err := parser.ParseFile(fset, filepath, nil, parser.ParseComments)
+	fileNode, err := parser.ParseFile(fset, filepath, src, parser.ParseComments)
 	if err != nil {
-		return nil, nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
+		return nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
 	}
-	m.fileNodeMap.Store(filepath, &parsedFile{
-		fset: fset,
-		file: fileNode,
-	})
+	pf := &parsedFile{
+		fset:    fset,
+		file:    fileNode,
+		src:     src,
+		changed: make(map[*ast.FuncDecl]bool),
+	}
+	m.fileNodeMap.Store(filepath, pf)
 
 	m.commitLock.Lock()
 	defer m.commitLock.Unlock()
@@ -149,17 +187,17 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 		m.commitActions = make(map[string]func(*bytes.Buffer) error)
 	}
 	m.commitActions[filepath] = func(buf *bytes.Buffer) error {
-		buf.Reset()
-		if err := format.Node(buf, fset, fileNode); err != nil {
+		newSrc, err := pf.source(buf)
+		if err != nil {
 			return fmt.Errorf("ast format failure %s: %w", filepath, err)
 		} else if err := m.backupOrigFile(filepath); err != nil {
 			return err
-		} else if err := os.WriteFile(filepath, buf.Bytes(), 0o644); err != nil {
+		} else if err := os.WriteFile(filepath, newSrc, 0o644); err != nil {
 			return fmt.Errorf("ast write failure %s: %w", filepath, err)
 		}
 		return nil
 	}
-	return fset, fileNode, nil
+	return pf, nil
 }
 
 // CommitFile writes pending edits for a single file.
@@ -476,10 +514,11 @@ func (m *ASTModifier) injectPoint(filePath, pkg, funcIdent string, modify func(b
 	lock := astFileLock.Lock(filePath)
 	defer lock.Unlock()
 
-	_, fileNode, err := m.loadParsedFileNode(filePath)
+	parsed, err := m.loadParsedFileNode(filePath)
 	if err != nil {
 		return 0, err
 	}
+	fileNode := parsed.file
 	target := findFuncDecl(fileNode, pkg, funcIdent)
 	if target == nil {
 		return 0, fmt.Errorf("function %s not found in %s", funcIdent, filePath)
@@ -491,20 +530,12 @@ func (m *ASTModifier) injectPoint(filePath, pkg, funcIdent string, modify func(b
 	if err != nil {
 		return 0, err
 	}
-	dropBodyComments(fileNode, target.Body)
+	parsed.changed[target] = true
 	modify(target.Body, pointID)
 
 	return pointID, nil
 }
 
-// dropBodyComments removes the comments within a function body which is about to be changed. Comments are placed by
-// position, between nodes which have none they could end up within a statement and make the file invalid.
-func dropBodyComments(f *ast.File, body *ast.BlockStmt) {
-	f.Comments = slices.DeleteFunc(f.Comments, func(c *ast.CommentGroup) bool {
-		return c.Pos() > body.Lbrace && c.End() <= body.Rbrace
-	})
-}
-
 func hasPatchlensMarker(funcDecl *ast.FuncDecl, marker string) bool {
 	if funcDecl.Doc == nil {
 		return false
@@ -577,10 +608,11 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	lock := astFileLock.Lock(fn.FilePath)
 	defer lock.Unlock()
 
-	fset, fileNode, err := m.loadParsedFileNode(fn.FilePath)
+	parsed, err := m.loadParsedFileNode(fn.FilePath)
 	if err != nil {
 		return nil, err
 	}
+	fset, fileNode := parsed.fset, parsed.file
 	funcDecl := findFuncDecl(fileNode, fn.PackageName, fn.FunctionIdent)
 	if funcDecl == nil {
 		return nil, fmt.Errorf("function %s not found in %s", fn.FunctionIdent, fn.FilePath)
@@ -615,7 +647,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	if complete {
 		info = partialInfo
 	}
-	dropBodyComments(fileNode, funcDecl.Body)
+	parsed.changed[funcDecl] = true
 
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
@@ -800,10 +832,11 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 	lock := astFileLock.Lock(fn.FilePath)
 	defer lock.Unlock()
 
-	_, fileNode, err := m.loadParsedFileNode(fn.FilePath)
+	parsed, err := m.loadParsedFileNode(fn.FilePath)
 	if err != nil {
 		return nil, err
 	}
+	fileNode := parsed.file
 	funcDecl := findFuncDecl(fileNode, fn.PackageName, fn.FunctionIdent)
 	if funcDecl == nil {
 		return nil, fmt.Errorf("function %s not found in %s", fn.FunctionIdent, fn.FilePath)
@@ -824,7 +857,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		}
 	}
 
-	dropBodyComments(fileNode, funcDecl.Body)
+	parsed.changed[funcDecl] = true
 	pointMap := make(map[uint32]any)
 	var buf bytes.Buffer
 
-- 
2.43.0


From 97a07964658632a15f6d19d9782323860f16dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:47 +0000
Subject: [PATCH 41/76] fix: returns of a parenthesised call with several
 results made the instrumented file invalid

---
 lens/asttweak.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index fb22a62..e02f90c 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1538,7 +1538,7 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 	}
 	// special-case: one CallExpr returning multiple values
 	if len(ret.Results) == 1 {
-		if call, ok := ret.Results[0].(*ast.CallExpr); ok && len(funcResultTypes) > 1 {
+		if call, ok := ast.Unparen(ret.Results[0]).(*ast.CallExpr); ok && len(funcResultTypes) > 1 {
 			// make temporaries lenSyntheticRet0, lenSyntheticRet1, etc
 			temps := make([]ast.Expr, len(funcResultTypes))
 			for i := range funcResultTypes {
-- 
2.43.0


From 9726dd89a603511b8bd2a550e6a52c52a1e5e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 42/76] fix: every module panic was reported as removed by the
 update

---
 lens/astexec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index e003add..4f78dac 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -208,6 +208,7 @@ func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 			srv := <-srvChan
 			defer func() { srvChan <- srv }()
 			var stableResults *monitorStableResults
+			var stableModulePanics map[string][]string
 			if stableResultsStorage != nil {
 				if stableResultBlob, found, err := stableResultsStorage.LoadState(tFunc.FunctionIdent); err != nil {
 					return fmt.Errorf("failed to load stable results: %w", err)
@@ -220,6 +221,7 @@ func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 						caller:    stableTestResult.CallerResults,
 						extension: stableTestResult.ExtensionFrames,
 					}
+					stableModulePanics = stableTestResult.ModulePanics
 				} else {
 					log.Printf("%sUnexpected missing stable results for function: %s", ErrorLogPrefix, tFunc.FunctionName)
 				}
@@ -236,6 +238,9 @@ func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 			if err != nil {
 				return err
 			}
+			if len(moduleChanges) == 0 { // module functions are not monitored, their panics are unknown and not removed
+				testResult.ModulePanics = stableModulePanics
+			}
 			enc := msgpack.GetEncoder()
 			defer msgpack.PutEncoder(enc)
 			b, err := testResult.marshalMsgpack(enc, buf)
-- 
2.43.0


From 395b3b7a1c957fe43c3eb7929914e11a7a67a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 43/76] fix: panics which do not repeat were reported as added
 by the update

---
 lens/astexec.go | 58 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 4f78dac..33fede5 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -220,6 +220,7 @@ func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 					stableResults = &monitorStableResults{
 						caller:    stableTestResult.CallerResults,
 						extension: stableTestResult.ExtensionFrames,
+						panics:    stableTestResult.ProjectPanics,
 					}
 					stableModulePanics = stableTestResult.ModulePanics
 				} else {
@@ -528,7 +529,9 @@ func runMonitoredTest(env []string, goroot, projectDir string, srv *astServer, e
 	test1ModuleChangesReached := pointHandler1.getModuleChangesReached()
 	pointHandler1 = nil //nolint:wastedassign // allow garbage collection
 
-	if stableResults != nil && !forceSecondRun {
+	// a panic which was not stable before the update is only an added one if it repeats
+	confirmPanics := stableResults != nil && hasAddedPanics(stableResults.panics, test1Result.ProjectPanics)
+	if stableResults != nil && !forceSecondRun && !confirmPanics {
 		// we already know the field selection, skip second test run
 		return failureOutput, test1Result, test1FieldCheckCount, test1ModuleChangesReached, nil
 	}
@@ -550,6 +553,10 @@ func runMonitoredTest(env []string, goroot, projectDir string, srv *astServer, e
 	}
 	test2Result := pointHandler2.makeTestResult(tFunc, testFailure2)
 
+	if stableResults != nil && !forceSecondRun {
+		test1Result.ProjectPanics = intersectPanics(test1Result.ProjectPanics, test2Result.ProjectPanics)
+		return failureOutput, test1Result, test1FieldCheckCount, test1ModuleChangesReached, nil
+	}
 	stable := testResultStableFields(test1Result, test2Result)
 	fieldCheckCount := min(test1FieldCheckCount, int(pointHandler2.fieldCheckCount.Load()))
 	return failureOutput, stable, fieldCheckCount, test1ModuleChangesReached, nil
@@ -563,6 +570,7 @@ func cleanExecOutput(execOutput *bytes.Buffer) string {
 type monitorStableResults struct {
 	caller    map[string][]CallFrame
 	extension map[string][]CallFrame
+	panics    map[string][]string // of project functions
 }
 
 func newTestMonitor(stableResults *monitorStableResults, goroot, projectDir string, projectStatePointIdToIdent, projectPanicPointIdToIdent,
@@ -1010,24 +1018,6 @@ func testResultStableFields(r1, r2 TestResult) TestResult {
 	commonCallerResults := computeStableFrames(r1.CallerResults, r2.CallerResults, true)
 	commonExtensionFrames := computeStableFrames(r1.ExtensionFrames, r2.ExtensionFrames, false)
 
-	intersectPanics := func(m1, m2 map[string][]string) map[string][]string {
-		out := make(map[string][]string, len(m1))
-		for ident, list1 := range m1 {
-			list2, ok := m2[ident]
-			if !ok {
-				continue
-			}
-			counts := bulk.SliceToCounts(list2)
-			for _, msg := range list1 {
-				if counts[msg] > 0 {
-					out[ident] = append(out[ident], msg)
-					counts[msg]--
-				}
-			}
-		}
-		return out
-	}
-
 	return TestResult{
 		TestFunction:     r1.TestFunction,
 		CallerResults:    commonCallerResults,
@@ -1039,6 +1029,36 @@ func testResultStableFields(r1, r2 TestResult) TestResult {
 	}
 }
 
+// intersectPanics returns the panic messages of each function which are in both maps.
+func intersectPanics(m1, m2 map[string][]string) map[string][]string {
+	out := make(map[string][]string, len(m1))
+	for ident, list1 := range m1 {
+		list2, ok := m2[ident]
+		if !ok {
+			continue
+		}
+		counts := bulk.SliceToCounts(list2)
+		for _, msg := range list1 {
+			if counts[msg] > 0 {
+				out[ident] = append(out[ident], msg)
+				counts[msg]--
+			}
+		}
+	}
+	return out
+}
+
+// hasAddedPanics returns true if a panic message is in m which is not in prior.
+func hasAddedPanics(prior, m map[string][]string) bool {
+	common := intersectPanics(m, prior)
+	for ident, list := range m {
+		if len(common[ident]) < len(list) {
+			return true
+		}
+	}
+	return false
+}
+
 // stableFieldValues returns a new FieldValues containing only keys whose
 // leaf Value pointers are identical or whose nested Children contain matches
 func stableFieldValues(f1, f2 FieldValues) FieldValues {
-- 
2.43.0


From f02c16c732f0d1ef9511f45ff09b021b46b84d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 44/76] fix: lists of strings with different elements could be
 recorded as the same value

---
 lens/astexec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 33fede5..2a6b947 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -875,6 +875,9 @@ func collectFields(dst FieldValues, key string, val interface{}, typ string, chi
 	dst[key] = value
 	if len(children) == 0 {
 		str := fmt.Sprint(val)
+		if list, ok := val.([]string); ok {
+			str = fmt.Sprintf("%q", list) // plain formatting does not tell where one element ends
+		}
 		if !strings.HasSuffix(typ, "string") && len(str) > nonStringHashSizeLimit {
 			sha := sha1.Sum([]byte(str))
 			str = HashFieldValuePrefix + base91.StdEncoding.EncodeToString(sha[:])
-- 
2.43.0


From 1b522c072a53fd924a68864d7fa69ac563c8c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 45/76] fix: code addresses inside a testing.T were reported as
 changed by the update

---
 lens/astexec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2a6b947..e80146b 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -856,6 +856,14 @@ func shouldCaptureField(fieldName string, fieldType string, parentType string) b
 		}
 	}
 
+	// Code addresses are different in each build
+	if parentType == "testing.common" {
+		switch fieldName {
+		case "creator", "helperPCs", "cleanupPc":
+			return false
+		}
+	}
+
 	// For fields with reflect internal types, filter them out
 	// These are typically nested inside reflect.Value
 	if fieldType == "reflect.rtype" || fieldType == "reflect.flag" {
-- 
2.43.0


From e15758e992b13129ab5db6cba2adc2aac2f9eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 46/76] fix: an analysis could fail while a package's first
 file was being rewritten

The AST client of a package was injected concurrently with the rewrite of the package's files, whose package clause it
reads: a file that had just been truncated made the whole run fail.
---
 lens/astexec.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index e80146b..d2bc6c2 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -369,12 +369,11 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 		if dir := filepath.Dir(cf.FilePath); !slices.Contains(projectPkgs, dir) {
 			projectPkgs = append(projectPkgs, dir)
 
-			errGrp.Go(func() error {
-				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-					return fmt.Errorf("failed to inject project AST client: %w", err)
-				}
-				return nil
-			})
+			// completed before any file of the package is rewritten, the client's package name is read from those files
+			if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+				_ = errGrp.Wait()
+				return nil, nil, nil, nil, nil, fmt.Errorf("failed to inject project AST client: %w", err)
+			}
 		}
 
 		fileFunctions := currentFileFunctions
@@ -448,12 +447,11 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 			if dir := filepath.Dir(mf.FilePath); !slices.Contains(modulePkgs, dir) {
 				modulePkgs = append(modulePkgs, dir)
 
-				errGrp.Go(func() error {
-					if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-						return fmt.Errorf("failed to inject module AST client: %w", err)
-					}
-					return nil
-				})
+				// completed before any file of the package is rewritten, the client's package name is read from those files
+				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+					_ = errGrp.Wait()
+					return nil, nil, nil, nil, nil, fmt.Errorf("failed to inject module AST client: %w", err)
+				}
 			}
 
 			fileFunctions := currentFileFunctions
-- 
2.43.0


From 4c246ac9c16dc8807c7b70a5372863e073a728b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:24 +0000
Subject: [PATCH 47/76] fix: methods and functions which go test does not run
 were selected as tests

A method such as (suite).TestPart(t *testing.T) or a helper such as Testable(t *testing.T) was selected as a test. It can not
be run, and the search stopped at it, so that the real tests which call it were not selected.
---
 lens/static.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..13d7a92 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -640,8 +642,8 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
-		return false
+	} else if fn.Signature.Recv() != nil || fn.Signature.TypeParams().Len() > 0 || !isGoTestName(fn.Name()) {
+		return false // the go tool only runs plain functions as tests
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
 	} else if fn.Signature.Params().Len() != 1 {
@@ -660,6 +662,17 @@ func isGoTestFunction(fn *ssa.Function) bool {
 	return obj.Pkg() != nil && obj.Pkg().Path() == "testing" && obj.Name() == "T"
 }
 
+// isGoTestName reports if the go tool considers the function name as that of a test, "TestXxx" where Xxx does not start
+// with a lower case letter.
+func isGoTestName(name string) bool {
+	suffix, ok := strings.CutPrefix(name, "Test")
+	if !ok {
+		return false
+	}
+	first, _ := utf8.DecodeRuneInString(suffix)
+	return suffix == "" || !unicode.IsLower(first)
+}
+
 func compilesForBuildContext(filePath string) (bool, error) {
 	dir, file := filepath.Split(filePath)
 	return build.Default.MatchFile(dir, file)
-- 
2.43.0


From bdbc12ca153298ba9e1ac349426b48a8ef5575c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:33 +0000
Subject: [PATCH 48/76] fix: tests which call main, or another test, were not
 selected

The search for tests stops at main and at test functions, because their signature makes them a possible callee of unrelated
code. Calls which name the function are now followed: a test with main() or TestOther(t) in its body runs the caller too.
---
 lens/static.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lens/static.go b/lens/static.go
index 13d7a92..fa15345 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -563,12 +563,13 @@ func reverseDFS(start *callgraph.Node, rootNodes map[*callgraph.Node]bool,
 		// first, invoke the callback on the current chain
 		if err := visitFunc(f.chain); err != nil {
 			return err
-		} else if rootNodes[f.node] {
-			continue // if we've reached a root, do NOT traverse its parents
 		}
 
 		// walk to each caller
 		for _, inEdge := range f.node.In {
+			if rootNodes[f.node] && !isDirectCall(inEdge) {
+				continue // a root is only called where the code names it, every other caller is an assumption from its signature
+			}
 			caller := inEdge.Caller
 			if caller == nil {
 				continue
@@ -593,6 +594,11 @@ func reverseDFS(start *callgraph.Node, rootNodes map[*callgraph.Node]bool,
 	return nil
 }
 
+// isDirectCall returns true if the edge is a call which names the called function.
+func isDirectCall(edge *callgraph.Edge) bool {
+	return edge.Site != nil && edge.Callee != nil && edge.Callee.Func != nil && edge.Site.Common().StaticCallee() == edge.Callee.Func
+}
+
 // logStackChain logs the call chain in a human-readable format.
 // The chain is expected to be in invocation order (e.g., top-level caller first).
 func logStackChain(chain []*callgraph.Node) {
-- 
2.43.0


From 9c0fe98f1000105e5013b8874cd09ed86ebe7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:02 +0000
Subject: [PATCH 49/76] fix: calls which depend on type arguments were missing
 from the call graph

Without instantiated generics the body of a generic function is analysed for its type parameters only: a function value or an
interface whose type has type arguments, such as the comparison given to slices.SortFunc, had no callers, so that the project
functions and tests which reach it were not found.
---
 lens/static.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/lens/static.go b/lens/static.go
index fa15345..02dcc9b 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -36,19 +36,19 @@ func CallerStaticAnalysis(moduleChanges []*ModuleFunction, projectDir, gopath, g
 	}
 
 	// Match changed Functions -> *ssa.Function nodes for quick comparison
-	cgNodeFunctions := make(map[string]*ssa.Function)
+	cgNodeFunctions := make(map[string][]*ssa.Function) // a generic function has one for each of its instances
 	// Identify any root callgraph.Nodes (package main, func main) to limit calls above the roots
 	rootNodes := make(map[*callgraph.Node]bool)
 	for fn, node := range cg.Nodes {
 		ident, _ := MakeSSAFunctionIdent(fn) // ignore supported here, try to capture all
-		cgNodeFunctions[ident] = fn
+		cgNodeFunctions[ident] = append(cgNodeFunctions[ident], fn)
 		if isMainFunction(fn) || isInitFunction(fn) {
 			rootNodes[node] = true
 		}
 	}
 	changedSSAFunctions := make(map[*ssa.Function]*ModuleFunction, len(moduleChanges))
 	for _, ch := range moduleChanges {
-		if ssaFn := cgNodeFunctions[ch.FunctionIdent]; ssaFn != nil {
+		for _, ssaFn := range cgNodeFunctions[ch.FunctionIdent] {
 			changedSSAFunctions[ssaFn] = ch
 		}
 	}
@@ -61,7 +61,11 @@ func CallerStaticAnalysis(moduleChanges []*ModuleFunction, projectDir, gopath, g
 			return reverseDFS(cg.Nodes[changedSSA], rootNodes, func(chain []*callgraph.Node) error {
 				callerNode := chain[len(chain)-1]
 				fn := callerNode.Func
-				if fn == nil || fn == changedSSA || fn.Package() == nil || fn.Package().Pkg == nil {
+				if fn == nil || fn == changedSSA {
+					return nil
+				}
+				origin := originSSAFunction(fn)
+				if origin.Package() == nil || origin.Package().Pkg == nil {
 					return nil
 				} else if rootNodes[callerNode] {
 					return nil // don't include root nodes as part of the analysis, they will confuse testing
@@ -95,9 +99,9 @@ func CallerStaticAnalysis(moduleChanges []*ModuleFunction, projectDir, gopath, g
 					callerFuncMap[ident] = &CallerFunction{
 						Function: Function{
 							FilePath:        fnFile,
-							PackageName:     fn.Package().Pkg.Path(),
+							PackageName:     origin.Package().Pkg.Path(),
 							FunctionIdent:   ident,
-							FunctionName:    fn.Name(),
+							FunctionName:    origin.Name(),
 							EntryLineNumber: entryLineNumber,
 							ReturnPoints:    returnPoints,
 							ReturnPanic:     endsInPanic,
@@ -150,15 +154,18 @@ func extractCallGraphEdges(cg *callgraph.Graph) map[string][]string {
 
 		if len(outEdges) == 0 {
 			// Store nil for leaf functions (memory efficiency)
-			edges[callerIdent] = nil
+			if _, exists := edges[callerIdent]; !exists {
+				edges[callerIdent] = nil
+			}
 		} else {
 			calleeSet := bulk.SliceToSetBy(func(edge *callgraph.Edge) string {
 				calleeIdent, _ := MakeSSAFunctionIdent(edge.Callee.Func)
 				return calleeIdent
 			}, outEdges)
-			callees := make([]string, 0, len(calleeSet))
+			existing := edges[callerIdent] // from another instance of a generic function
+			callees := existing
 			for calleeIdent := range calleeSet {
-				if calleeIdent != "" {
+				if calleeIdent != "" && !slices.Contains(existing, calleeIdent) {
 					callees = append(callees, calleeIdent)
 				}
 			}
@@ -335,7 +342,8 @@ func LoadProjectCallGraph(projectDir, gopath, gomodcache string, includeTests bo
 		return nil, nil, nil, nil, nil
 	}
 
-	prog := ssa.NewProgram(pkgs[0].Fset, ssa.GlobalDebug)
+	// generics are instantiated so that the calls which depend on the type arguments are part of the call graph
+	prog := ssa.NewProgram(pkgs[0].Fset, ssa.GlobalDebug|ssa.InstantiateGenerics)
 
 	created := make(map[*types.Package]*ssa.Package)
 	var modulePkgs []*packages.Package
@@ -398,6 +406,7 @@ func MakeSSAFunctionIdent(fn *ssa.Function) (string, bool) {
 	if fn == nil {
 		return "", false
 	}
+	fn = originSSAFunction(fn)
 	var pkgName string
 	if fn.Package() != nil && fn.Package().Pkg != nil {
 		pkgName = fn.Package().Pkg.Path()
@@ -409,6 +418,14 @@ func MakeSSAFunctionIdent(fn *ssa.Function) (string, bool) {
 	return makeFunctionIdentStr(pkgName, "", fn.Name()), false // unexpected type fallback
 }
 
+// originSSAFunction returns the declared function, which is different to fn only when fn is the instance of a generic function.
+func originSSAFunction(fn *ssa.Function) *ssa.Function {
+	if origin := fn.Origin(); origin != nil {
+		return origin
+	}
+	return fn
+}
+
 // MakeFunctionIdent creates a normalized key with package and receiver type.
 func MakeFunctionIdent(pkgName string, funcDecl *ast.FuncDecl) string {
 	var recv string
-- 
2.43.0


From 9aba6b93a59a3ba022ac98aa29912f0d4c881565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:19 +0000
Subject: [PATCH 50/76] fix: temporary copies lost the permissions of files

Scripts and other executables of the project could not be run in the copy that is analysed.
---
 lens/file.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 361329c..a115c46 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -67,9 +67,10 @@ func replaceFile(source, destination string) error {
 }
 
 // CopyFile copies src to dst. If src is a symlink, it recreates the symlink at dst pointing to the same target.
-// Otherwise, it copies the file’s contents (using os.Create’s default mode).
+// Otherwise, it copies the file’s contents and permissions, the copy is always writable for the owner.
 func CopyFile(src, dst string) (err error) {
-	if info, err := os.Lstat(src); err != nil {
+	info, err := os.Lstat(src)
+	if err != nil {
 		return err
 	} else if info.Mode()&os.ModeSymlink != 0 {
 		target, err := os.Readlink(src)
@@ -85,7 +86,7 @@ func CopyFile(src, dst string) (err error) {
 	}
 	defer func() { _ = in.Close() }()
 
-	out, err := os.Create(dst) // uses default file mode (0666 & umask)
+	out, err := os.Create(dst)
 	if err != nil {
 		return err
 	}
@@ -97,6 +98,8 @@ func CopyFile(src, dst string) (err error) {
 
 	if _, err = io.Copy(out, in); err != nil {
 		return err
+	} else if err = out.Chmod(info.Mode().Perm() | 0o200); err != nil {
+		return err
 	}
 	return out.Sync()
 }
@@ -124,7 +127,10 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			if progressNotify != nil {
 				progressNotify(target, info)
 			}
-			return os.MkdirAll(target, 0755)
+			if err := os.MkdirAll(target, 0755); err != nil {
+				return err
+			}
+			return os.Chmod(target, info.Mode().Perm()|0o700)
 		} else {
 			eg.Go(func() error { // copy operations may be slower, done async
 				if progressNotify != nil {
-- 
2.43.0


From 95cf899ae840ddc37e04c5457022f75c84baf687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 51/76] fix: a failed temporary copy was left behind

The copied files stayed in the temp directory when copying the project, GOPATH or module cache failed. CopyDir did not wait for
the running copies on failure, which could create files after the directory was removed.
---
 lens/engine.go | 7 ++++++-
 lens/file.go   | 7 ++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 31b5f22..85d25b6 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -990,7 +990,7 @@ func (e *AnalysisEngine) parseInitialModules() (*initialModulesResult, error) {
 	}, nil
 }
 
-func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
+func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 	tempRoot, err := os.MkdirTemp("", "patchlens-*")
 	if err != nil {
 		return nil, fmt.Errorf("unable to create temp dir: %w", err)
@@ -1003,6 +1003,11 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 			log.Printf("%sFailed to remove temp dir %s: %v", ErrorLogPrefix, tempRoot, err)
 		}
 	}
+	defer func() {
+		if err != nil {
+			cleanup()
+		}
+	}()
 
 	fmt.Printf("Copying files for analysis")
 	const logSize = 1024 * 1024 * 200
diff --git a/lens/file.go b/lens/file.go
index a115c46..fba3529 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -141,10 +141,11 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
-		return err
+	// also on failure, nothing may be written into dst once this returns; the reason for an aborted walk is the failed copy
+	if copyErr := eg.Wait(); copyErr != nil {
+		return copyErr
 	}
-	return eg.Wait()
+	return err
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From 997920c2b18841d0ea165bd1e4f2194c20392c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:21 +0000
Subject: [PATCH 52/76] fix: a module cache elsewhere within GOPATH was not
 found in the temporary copy

The analysis used <copy>/pkg/mod, whatever the location of the module cache within GOPATH is.
---
 lens/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 85d25b6..dd41c7b 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1044,8 +1044,10 @@ func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 		}
 		e.Config.Gomodcache = newModCache
+	} else if rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache); err != nil {
+		return nil, fmt.Errorf("unable to locate GOMODCACHE: %w", err)
 	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+		e.Config.Gomodcache = filepath.Join(newGOPATH, rel)
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
-- 
2.43.0


From 043929e80b34004baeab196c6145d648664b93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:35 +0000
Subject: [PATCH 53/76] fix: an analysis of a temporary copy changed linked
 files of the original project

Absolute links within the project, GOPATH or module cache still referred to the original in the copy, so that instrumenting a
linked source file changed the original file.
---
 lens/file.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/lens/file.go b/lens/file.go
index fba3529..d2bd54c 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -104,7 +104,34 @@ func CopyFile(src, dst string) (err error) {
 	return out.Sync()
 }
 
-// CopyDir recursively copies src directory contents into dst.
+// copyLink recreates a link found in srcDir. An absolute link which refers to a location within srcDir is changed to refer to
+// the copied location, so that the copy does not provide access to the original.
+func copyLink(path, target, srcDir, dstDir string) error {
+	linkTo, err := os.Readlink(path)
+	if err != nil {
+		return err
+	}
+	if filepath.IsAbs(linkTo) {
+		if within, err := fileWithinDir(linkTo, srcDir); err != nil {
+			return err
+		} else if within {
+			if srcDir, err = filepath.Abs(srcDir); err != nil {
+				return err
+			} else if dstDir, err = filepath.Abs(dstDir); err != nil {
+				return err
+			}
+			rel, err := filepath.Rel(srcDir, linkTo)
+			if err != nil {
+				return err
+			}
+			linkTo = filepath.Join(dstDir, rel)
+		}
+	}
+	return os.Symlink(linkTo, target)
+}
+
+// CopyDir recursively copies src directory contents into dst. Links are recreated, an absolute link within src refers to the
+// same location of dst.
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.SetLimit(runtime.NumCPU() * 4)
@@ -136,6 +163,9 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 				if progressNotify != nil {
 					defer progressNotify(target, info)
 				}
+				if info.Mode()&os.ModeSymlink != 0 {
+					return copyLink(path, target, src, dst)
+				}
 				return CopyFile(path, target)
 			})
 			return nil
-- 
2.43.0


From 13fd5108a6b02dc9ee3d55acd322fa6330c135ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:34 +0000
Subject: [PATCH 54/76] fix: files with names starting with two dots were taken
 as outside of their directory

---
 lens/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index d2bd54c..bec8c1b 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -41,8 +41,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If the first element of rel is "..", file is outside the directory
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From ef27547c9f679f22fefda23ea959ab1f00908663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:14 +0000
Subject: [PATCH 55/76] fix: surviving mutants were reported as the detected
 ones

---
 lens/mutation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..1d8b447 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -181,11 +181,11 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	logMsg := strings.ReplaceAll(m[0], "The mutation score is", "Mutation score:")
 	suffixIndex := strings.Index(logMsg, "failed")
 	if suffixIndex > 0 {
-		logMsg = logMsg[:suffixIndex] + "detected)"
+		logMsg = logMsg[:suffixIndex] + "alive)"
 	}
-	logMsg = strings.ReplaceAll(logMsg, "passed", "alive")
+	logMsg = strings.ReplaceAll(logMsg, "passed", "detected")
 	log.Println(logMsg)
-	killed, _ := strconv.Atoi(m[2])
+	killed, _ := strconv.Atoi(m[1]) // a mutant passes if the tests failed, see scriptFinishCheck
 	total, _ := strconv.Atoi(m[5])
 
 	// remove unnecessary report.json report (for now)
-- 
2.43.0


From 0d166ef3ffb6aa8f2b6460c493f4c5909175b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 56/76] fix: functions whose name contains the name of a
 changed function were mutated

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 1d8b447..ad04179 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,7 +152,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
-	args := []string{"--exec", execScript, "--match", "(" + strings.Join(mutationFunctions, "|") + ")"}
+	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
 		for _, test := range disabledMutations {
-- 
2.43.0


From 2fbec6d0a8c10877042808a1a14cc46bb87ca718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:21 +0000
Subject: [PATCH 57/76] fix: mutants which do not compile were counted as
 detected

---
 lens/mutation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index ad04179..a5efcdb 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -197,7 +197,13 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
-const scriptFinishCheck = `if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
+const scriptFinishCheck = `# a build failure has the same exit code as a test failure
+if [ "$GOMUTESTING_RESULT" -eq 1 ] && grep -qE '\[(build|setup) failed\]$' <<< "$GOMUTESTING_TEST" &&
+	! grep -qE '^FAIL[[:space:]]+[^[:space:]]+[[:space:]]+[0-9.]+s$' <<< "$GOMUTESTING_TEST" ; then
+	GOMUTESTING_RESULT=2
+fi
+
+if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
 	echo "$GOMUTESTING_TEST"
 fi
 
-- 
2.43.0


From 139b9047e974aaddbd14b65d42f4d218586ed432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:26 +0000
Subject: [PATCH 58/76] fix: mutation testing removed a project's own
 report.json or left its own behind

---
 lens/mutation.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index a5efcdb..df79be7 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,6 +152,19 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
+	// remove unnecessary report.json report (for now), but keep a file of that name which the project has
+	reportFile := filepath.Join(projectDir, "report.json")
+	reportOrig, err := os.ReadFile(reportFile)
+	if err == nil {
+		defer func() {
+			if err := os.WriteFile(reportFile, reportOrig, 0o644); err != nil {
+				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, reportFile, err)
+			}
+		}()
+	} else if os.IsNotExist(err) {
+		defer func() { _ = os.Remove(reportFile) }()
+	}
+
 	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
@@ -188,9 +201,6 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	killed, _ := strconv.Atoi(m[1]) // a mutant passes if the tests failed, see scriptFinishCheck
 	total, _ := strconv.Atoi(m[5])
 
-	// remove unnecessary report.json report (for now)
-	go func() { _ = os.Remove(filepath.Join(projectDir, "report.json")) }()
-
 	return MutationResult{
 		MutationCount: total,
 		SquashedCount: killed,
-- 
2.43.0


From e2f88e38f273471b7ffa73898acc7ee8b2e4aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:19 +0000
Subject: [PATCH 59/76] fix: mutation scripts failed for paths with spaces or
 special characters

---
 lens/mutation.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index df79be7..f893f21 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -238,6 +238,15 @@ case $GOMUTESTING_RESULT in
 	;;
 esac`
 
+// shellQuote joins the values to words of a shell script, whatever characters they contain.
+func shellQuote(values ...string) string {
+	quoted := make([]string, len(values))
+	for i, v := range values {
+		quoted[i] = "'" + strings.ReplaceAll(v, "'", `'\''`) + "'"
+	}
+	return strings.Join(quoted, " ")
+}
+
 func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
@@ -249,7 +258,7 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 `); err != nil {
 		return "", err
 	}
-	if _, err := fmt.Fprintf(file, "PKGS=\"%s\"\n", strings.Join(packages, " ")); err != nil {
+	if _, err := fmt.Fprintf(file, "PKGS=(%s)\n", shellQuote(packages...)); err != nil {
 		return "", err
 	}
 
@@ -265,9 +274,7 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 		tests := fileToTests[fp]
 		// Sort test names so the regex is deterministic
 		sort.Strings(tests)
-		// Escape any special characters by wrapping in quotes
-		if _, err := fmt.Fprintf(file, `FILE_TEST_MAP["%s"]="%s"
-`, fp, strings.Join(tests, " ")); err != nil {
+		if _, err := fmt.Fprintf(file, "FILE_TEST_MAP[%s]=%s\n", shellQuote(fp), shellQuote(strings.Join(tests, " "))); err != nil {
 			return "", err
 		}
 	}
@@ -294,7 +301,7 @@ cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 # Run only the affected tests
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
-GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%ds' $MUTATE_TIMEOUT) -run "$pattern" $PKGS 2>&1)
+GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%ds' $MUTATE_TIMEOUT) -run "$pattern" "${PKGS[@]}" 2>&1)
 export GOMUTESTING_RESULT=$?
 
 `); err != nil {
@@ -313,23 +320,23 @@ export GOMUTESTING_RESULT=$?
 
 func buildExecAllTestsScript(packages []string) (string, error) {
 	const scriptTmpl = `#!/usr/bin/env bash
-PKGS="%s"
+PKGS=(%s)
 if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
-export GOMUTESTING_DIFF=$(diff -u $MUTATE_ORIGINAL $MUTATE_CHANGED)
+export GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
 
-mv $MUTATE_ORIGINAL $MUTATE_ORIGINAL.mbkp || {
+mv "$MUTATE_ORIGINAL" "$MUTATE_ORIGINAL.mbkp" || {
  echo "skip: cannot rename $MUTATE_ORIGINAL (need to run with tmpcopy enabled?)" 1>&2
  exit 2
 }
 trap 'mv "$MUTATE_ORIGINAL.mbkp" "$MUTATE_ORIGINAL"' EXIT
-cp $MUTATE_CHANGED $MUTATE_ORIGINAL || { exit 2; }
+cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
 
-GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%%ds' $MUTATE_TIMEOUT) $PKGS 2>&1)
+GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%%ds' $MUTATE_TIMEOUT) "${PKGS[@]}" 2>&1)
 export GOMUTESTING_RESULT=$?
 
 ` + scriptFinishCheck
@@ -337,7 +344,7 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
+	} else if _, err = fmt.Fprintf(file, scriptTmpl, shellQuote(packages...)); err != nil {
 		_ = file.Close()
 		return "", err
 	} else if err = file.Close(); err != nil {
-- 
2.43.0


From dea5e5a2dcde3e2ab68982eff330970f5a739e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:51 +0000
Subject: [PATCH 60/76] fix: comments inserted into functions became a part of
 raw strings

---
 lens/asttweak.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index e02f90c..eaf1b3d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -2215,6 +2215,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 
 	// classify every line inside the body
 	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1) // false by default
+	insideToken := make(map[int]bool)                      // lines which start within a token of multiple lines
 	var sc scanner.Scanner
 	sc.Init(fset.File(decl.Body.Pos()), data, nil, scanner.ScanComments)
 	prevLine := bodyOpenLine
@@ -2230,6 +2231,10 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 		if lno != prevLine {
 			prevLine = lno
 		}
+		if strings.Contains(lit, "\n") && lit != "\n" {
+			// text inserted above the last line of a raw string or comment would become a part of it
+			insideToken[lno+strings.Count(lit, "\n")] = true
+		}
 		switch tok {
 		case token.COMMENT:
 			// skip comment-only lines
@@ -2263,7 +2268,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	for lineNo := bodyOpenLine; lineNo <= bodyCloseLine; lineNo++ {
 		srcLine := lines[lineNo-1]
 
-		if codeLine[bodyIdx] {
+		if codeLine[bodyIdx] && !insideToken[lineNo] {
 			fullIdx := lineNo - funcStartLine
 			insertText, cont := cb(fullIdx, srcLine)
 			if insertText != "" {
-- 
2.43.0


From cfcbeaa74a8bbaa195ae776398117362c8ac476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:55 +0000
Subject: [PATCH 61/76] fix: line directives misled the insertion of comments
 into functions

---
 lens/asttweak.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index eaf1b3d..a505e32 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -2203,10 +2203,11 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	} else if decl.Body == nil {
 		return fmt.Errorf("%w: %s in %s", ErrNoFunctionBody, fn.FunctionIdent, fn.FilePath)
 	}
-	funcStartLine := fset.Position(decl.Pos()).Line
+	lineOf := func(pos token.Pos) int { return fset.PositionFor(pos, false).Line } // regardless of line directives
+	funcStartLine := lineOf(decl.Pos())
 	// determine which lines are "inside" the function body (exclude the braces themselves)
-	bodyOpenLine := fset.Position(decl.Body.Lbrace).Line + 1  // first line after '{'
-	bodyCloseLine := fset.Position(decl.Body.Rbrace).Line - 1 // last line before '}'
+	bodyOpenLine := lineOf(decl.Body.Lbrace) + 1  // first line after '{'
+	bodyCloseLine := lineOf(decl.Body.Rbrace) - 1 // last line before '}'
 	lines := strings.Split(string(data), "\n")
 
 	if bodyOpenLine > bodyCloseLine { // empty body or single line function like "func() {}"
@@ -2224,7 +2225,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 		if tok == token.EOF {
 			break
 		}
-		lno := fset.Position(pos).Line
+		lno := lineOf(pos)
 		if lno < bodyOpenLine || lno > bodyCloseLine {
 			continue
 		}
-- 
2.43.0


From c93574ee00d45184e92cae6be17475fb1385beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:20 +0000
Subject: [PATCH 62/76] fix: comments in changed functions shifted the lines
 excluded from mutation

---
 lens/mutation.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index f893f21..4a86239 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -2,6 +2,9 @@ package lens
 
 import (
 	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
 	"log"
 	"os"
 	"path/filepath"
@@ -100,8 +103,12 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 				mutationFiles = append(mutationFiles, abs)
 			}
 			errGrp.Go(func() error {
+				var lineChanged []bool
 				err := astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
-					if i < len(change.LineChangeBitmap) && !change.LineChangeBitmap[i] {
+					if lineChanged == nil { // the file remains locked until all lines are inserted
+						lineChanged = sourceLineBitmap(change)
+					}
+					if i < len(lineChanged) && !lineChanged[i] {
 						return "// mutator-disable-next-line *", true
 					}
 					return "", true
@@ -207,6 +214,49 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
+// sourceLineBitmap translates the LineChangeBitmap to the lines the function has in its file. The definition it describes is
+// printed without comments, which leaves it with different lines if there are any (or if the source is not formatted).
+func sourceLineBitmap(change *ModuleFunction) []bool {
+	srcFset, defFset := token.NewFileSet(), token.NewFileSet()
+	srcFile, err := parser.ParseFile(srcFset, change.FilePath, nil, 0)
+	if err != nil {
+		return change.LineChangeBitmap
+	}
+	defFile, err := parser.ParseFile(defFset, "", "package p;"+change.Definition, 0)
+	if err != nil || len(defFile.Decls) == 0 {
+		return change.LineChangeBitmap
+	}
+	srcDecl := findFuncDecl(srcFile, change.PackageName, change.FunctionIdent)
+	if srcDecl == nil {
+		return change.LineChangeBitmap
+	}
+
+	srcLines, defLines := nodeLines(srcFset, srcDecl), nodeLines(defFset, defFile.Decls[0])
+	if len(srcLines) != len(defLines) {
+		return change.LineChangeBitmap
+	}
+	bitmap := make([]bool, srcFset.PositionFor(srcDecl.End(), false).Line-srcLines[0]+1)
+	for i, line := range defLines {
+		if line <= len(change.LineChangeBitmap) && change.LineChangeBitmap[line-1] {
+			bitmap[srcLines[i]-srcLines[0]] = true
+		}
+	}
+	return bitmap
+}
+
+// nodeLines returns the lines of all nodes of the declaration, except those which a printed declaration may not include.
+func nodeLines(fset *token.FileSet, decl ast.Node) (lines []int) {
+	ast.Inspect(decl, func(n ast.Node) bool {
+		switch n.(type) {
+		case nil, *ast.ParenExpr, *ast.EmptyStmt:
+		default:
+			lines = append(lines, fset.PositionFor(n.Pos(), false).Line)
+		}
+		return true
+	})
+	return lines
+}
+
 const scriptFinishCheck = `# a build failure has the same exit code as a test failure
 if [ "$GOMUTESTING_RESULT" -eq 1 ] && grep -qE '\[(build|setup) failed\]$' <<< "$GOMUTESTING_TEST" &&
 	! grep -qE '^FAIL[[:space:]]+[^[:space:]]+[[:space:]]+[0-9.]+s$' <<< "$GOMUTESTING_TEST" ; then
-- 
2.43.0


From ed58e54b5bd6fd49d4a0e0470c173497cf958e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:15 +0000
Subject: [PATCH 63/76] fix: comments of declarations within functions were
 taken as a part of the code

---
 lens/module.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lens/module.go b/lens/module.go
index 08b3b09..660e836 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -668,6 +668,7 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 	ast.Inspect(file, func(n ast.Node) bool {
 		if funcDecl, ok := n.(*ast.FuncDecl); ok {
 			funcDecl.Doc = nil // exclude from definition to avoid comparing docs
+			removeNodeComments(funcDecl)
 
 			p := &printer.Config{
 				Mode:     printer.TabIndent,
@@ -700,6 +701,23 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 	return
 }
 
+// removeNodeComments drops the comments which are printed with the declarations and fields they belong to.
+func removeNodeComments(node ast.Node) {
+	ast.Inspect(node, func(n ast.Node) bool {
+		switch d := n.(type) {
+		case *ast.GenDecl:
+			d.Doc = nil
+		case *ast.ValueSpec:
+			d.Doc, d.Comment = nil, nil
+		case *ast.TypeSpec:
+			d.Doc, d.Comment = nil, nil
+		case *ast.Field:
+			d.Doc, d.Comment = nil, nil
+		}
+		return true
+	})
+}
+
 // methodKey identifies a function independent of a pointer receiver or the names of receiver type parameters.
 func methodKey(f *ModuleFunction) string {
 	name := strings.TrimPrefix(f.FunctionIdent, f.PackageName+":")
-- 
2.43.0


From e277e70cef97d22fa5d3211d63812173402ad49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 64/76] fix: monitored calls of defer and go statements saw
 later arguments and could not recover

---
 lens/asttweak.go | 85 +++++-------------------------------------------
 1 file changed, 9 insertions(+), 76 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index a505e32..99d4013 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -929,83 +929,11 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 			case *ast.ReturnStmt:
 				matchedCall, metadata = findMatchingCall(stmt)
 			case *ast.DeferStmt:
-				if metadata, inject := shouldInject(stmt.Call); inject {
-					// Special handling for defer: wrap in inline function to preserve semantics
-					pointID, err := m.nextPointId()
-					if err != nil {
-						return err
-					}
-					pointMap[pointID] = metadata
-
-					// Build instrumentation for the deferred call
-					preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, stmt.Call, filePackageNames)
-					if err != nil {
-						return err
-					}
-
-					// Wrap in inline function: defer func() { preStmts...; call }()
-					blockList := make([]ast.Stmt, 0, len(preStmts)+1)
-					blockList = append(blockList, preStmts...)
-					// Add the call as the last statement (already modified by buildCallInstrumentationWithArgs)
-					blockList = append(blockList, &ast.ExprStmt{X: stmt.Call})
-
-					// Replace the defer's call with the inline function
-					stmt.Call = &ast.CallExpr{
-						Fun: &ast.FuncLit{
-							Type: &ast.FuncType{Params: &ast.FieldList{}},
-							Body: &ast.BlockStmt{List: blockList},
-						},
-					}
-
-					// Recurse into any FuncLits in the preStmts (extracted arguments).
-					// These contain FuncLits from the original call arguments that may have
-					// target calls inside them. We do this here rather than using
-					// rewriteFuncLitsIn on the whole statement to avoid re-instrumenting
-					// the call we just wrapped.
-					for _, preStmt := range preStmts {
-						if err := rewriteFuncLitsIn(preStmt); err != nil {
-							return err
-						}
-					}
-
-					newStmts = append(newStmts, st)
-					continue // Skip rewriteFuncLitsIn on the whole statement
-				}
+				// The arguments are evaluated by the defer statement. The call remains as it is: wrapped into a function
+				// it would see arguments of a later time, and could no longer recover.
+				matchedCall, metadata = findMatchingCall(stmt.Call)
 			case *ast.GoStmt:
-				if metadata, inject := shouldInject(stmt.Call); inject {
-					// Same transformation as DeferStmt
-					pointID, err := m.nextPointId()
-					if err != nil {
-						return err
-					}
-					pointMap[pointID] = metadata
-
-					preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, stmt.Call, filePackageNames)
-					if err != nil {
-						return err
-					}
-
-					blockList := make([]ast.Stmt, 0, len(preStmts)+1)
-					blockList = append(blockList, preStmts...)
-					blockList = append(blockList, &ast.ExprStmt{X: stmt.Call})
-
-					stmt.Call = &ast.CallExpr{
-						Fun: &ast.FuncLit{
-							Type: &ast.FuncType{Params: &ast.FieldList{}},
-							Body: &ast.BlockStmt{List: blockList},
-						},
-					}
-
-					// Recurse into any FuncLits in the preStmts (same as DeferStmt)
-					for _, preStmt := range preStmts {
-						if err := rewriteFuncLitsIn(preStmt); err != nil {
-							return err
-						}
-					}
-
-					newStmts = append(newStmts, st)
-					continue // Skip rewriteFuncLitsIn on the whole statement
-				}
+				matchedCall, metadata = findMatchingCall(stmt.Call)
 			case *ast.DeclStmt:
 				// Handle var x = call()
 				matchedCall, metadata = findMatchingCall(stmt)
@@ -1072,6 +1000,11 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				if err != nil {
 					return err
 				}
+				for _, preStmt := range preStmts { // function literals which were a part of the call
+					if err := rewriteFuncLitsIn(preStmt); err != nil {
+						return err
+					}
+				}
 
 				// Append instrumentation statements directly to maintain variable scope
 				// Do not wrap in a block as this would scope any variables declared in st
-- 
2.43.0


From fbdf08c9d5f01188f1e4b8f3a51ea762f1a811e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 65/76] fix: arguments of a monitored call in a loop condition
 were evaluated only once

---
 lens/asttweak.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 99d4013..fc95a5b 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -953,10 +953,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				if stmt.Init != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Init)
 				}
-				if matchedCall == nil && stmt.Cond != nil {
-					matchedCall, metadata = findMatchingCall(stmt.Cond)
-				}
-				// Post statement handled separately in recursion section
+				// Condition and post statement handled separately in recursion section
 			case *ast.RangeStmt:
 				// Handle for x := range call()
 				matchedCall, metadata = findMatchingCall(stmt.X)
@@ -1066,6 +1063,32 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				if err := rewriteBlock(s.Body); err != nil {
 					return err
 				}
+				// The condition is evaluated before every iteration, with a matching call it becomes a part of the body
+				if s.Cond != nil {
+					if condCall, condMetadata := findMatchingCall(s.Cond); condCall != nil {
+						pointID, err := m.nextPointId()
+						if err != nil {
+							return err
+						}
+						pointMap[pointID] = condMetadata
+						preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, condCall, filePackageNames)
+						if err != nil {
+							return err
+						}
+						for _, preStmt := range preStmts {
+							if err := rewriteFuncLitsIn(preStmt); err != nil {
+								return err
+							}
+						}
+
+						preStmts = append(preStmts, &ast.IfStmt{
+							Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}},
+							Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}},
+						})
+						s.Cond = nil
+						s.Body.List = append(preStmts, s.Body.List...)
+					}
+				}
 			case *ast.RangeStmt:
 				if err := rewriteBlock(s.Body); err != nil {
 					return err
-- 
2.43.0


From 38156a2c5cdca0edeaec2b703781e05375645f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:43 +0000
Subject: [PATCH 66/76] fix: points of calls which use a variable of their if
 or switch statement did not compile

---
 lens/asttweak.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index fc95a5b..ce62109 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -910,6 +910,18 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return firstErr
 	}
 
+	// withoutInit provides a block for statements like if x := init(); call(x) { }, so that the point can be after the init.
+	withoutInit := func(st ast.Stmt, init *ast.Stmt, value ast.Node) *ast.BlockStmt {
+		if *init == nil {
+			return nil
+		} else if call, _ := findMatchingCall(value); call == nil {
+			return nil
+		}
+		blk := &ast.BlockStmt{List: []ast.Stmt{*init, st}}
+		*init = nil
+		return blk
+	}
+
 	rewriteBlock = func(blk *ast.BlockStmt) error {
 		newStmts := make([]ast.Stmt, 0, len(blk.List))
 		for _, st := range blk.List {
@@ -921,6 +933,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 			// Check if this statement contains a matching call (excluding nested blocks)
 			var matchedCall *ast.CallExpr
 			var metadata any
+			var scope *ast.BlockStmt // replaces the statement
 			switch stmt := st.(type) {
 			case *ast.ExprStmt:
 				matchedCall, metadata = findMatchingCall(stmt.X)
@@ -942,10 +955,11 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				matchedCall, metadata = findMatchingCall(stmt.Value)
 			case *ast.IfStmt:
 				// Handle if x := call(); condition and if call() { }
-				if stmt.Init != nil {
+				if scope = withoutInit(stmt, &stmt.Init, stmt.Cond); scope != nil {
+					break
+				} else if stmt.Init != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Init)
-				}
-				if matchedCall == nil && stmt.Cond != nil {
+				} else {
 					matchedCall, metadata = findMatchingCall(stmt.Cond)
 				}
 			case *ast.ForStmt:
@@ -959,18 +973,23 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				matchedCall, metadata = findMatchingCall(stmt.X)
 			case *ast.SwitchStmt:
 				// Handle switch x := call(); x and switch call() { }
+				if stmt.Tag != nil {
+					if scope = withoutInit(stmt, &stmt.Init, stmt.Tag); scope != nil {
+						break
+					}
+				}
 				if stmt.Init != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Init)
-				}
-				if matchedCall == nil && stmt.Tag != nil {
+				} else if stmt.Tag != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Tag)
 				}
 			case *ast.TypeSwitchStmt:
 				// Handle switch x := call().(type) and switch call().(type) { }
-				if stmt.Init != nil {
+				if scope = withoutInit(stmt, &stmt.Init, stmt.Assign); scope != nil {
+					break
+				} else if stmt.Init != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Init)
-				}
-				if matchedCall == nil {
+				} else {
 					matchedCall, metadata = findMatchingCall(stmt.Assign)
 				}
 			case *ast.SelectStmt:
@@ -986,6 +1005,13 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 			}
 
+			if scope != nil {
+				if err := rewriteBlock(scope); err != nil {
+					return err
+				}
+				newStmts = append(newStmts, scope)
+				continue
+			}
 			if matchedCall != nil {
 				pointID, err := m.nextPointId()
 				if err != nil {
-- 
2.43.0


From c6c30053b2b1ffe32139b6dce47242827318231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:57 +0000
Subject: [PATCH 67/76] fix: monitored calls of else branches after an else if
 had no point

---
 lens/asttweak.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index ce62109..396be76 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1054,9 +1054,15 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 							return err
 						}
 					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
+						elseBlock := &ast.BlockStmt{List: []ast.Stmt{e}}
+						if err := rewriteBlock(elseBlock); err != nil {
 							return err
 						}
+						if len(elseBlock.List) > 1 {
+							s.Else = elseBlock
+						} else {
+							s.Else = elseBlock.List[0]
+						}
 					}
 				}
 			case *ast.ForStmt:
-- 
2.43.0


From 4330c9c6f2be8f634a77d7d0a5a1f7bf32b19a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:50 +0000
Subject: [PATCH 68/76] fix: arguments of monitored calls were evaluated
 although the condition before the call was not met

---
 lens/asttweak.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 396be76..32358d6 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1168,6 +1168,37 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return nil
 	}
 
+	// Calls which are evaluated depending on an earlier condition get a scope of their own for the point
+	ownScope := func(cond ast.Expr) ast.Expr {
+		if call, _ := findMatchingCall(cond); call == nil {
+			return cond
+		}
+		return &ast.CallExpr{Fun: &ast.FuncLit{
+			Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}},
+			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{cond}}}},
+		}}
+	}
+	ast.Inspect(funcDecl.Body, func(n ast.Node) bool {
+		switch e := n.(type) {
+		case *ast.BinaryExpr:
+			if e.Op == token.LAND || e.Op == token.LOR {
+				e.Y = ownScope(e.Y)
+			}
+		case *ast.SwitchStmt:
+			if e.Tag != nil {
+				break
+			}
+			for _, clause := range e.Body.List {
+				if cc, ok := clause.(*ast.CaseClause); ok {
+					for i := range cc.List {
+						cc.List[i] = ownScope(cc.List[i])
+					}
+				}
+			}
+		}
+		return true
+	})
+
 	if err := rewriteBlock(funcDecl.Body); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 	}
-- 
2.43.0


From 275501e39e3a87affa511c14c08cbe7f0f39646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 69/76] fix: monitored calls changed a copy of their receiver,
 and packages and types were taken for receivers

---
 lens/asttweak.go | 76 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 32358d6..df5650f 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -860,6 +860,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 	parsed.changed[funcDecl] = true
 	pointMap := make(map[uint32]any)
 	var buf bytes.Buffer
+	var info *types.Info // what is known of the types of the original function
 
 	// Helper to find a matching call in a node, returns the call and its metadata if found.
 	// Does NOT descend into function literals - they have their own scope and are processed
@@ -1019,7 +1020,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 				pointMap[pointID] = metadata
 
-				preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, matchedCall, filePackageNames)
+				preStmts, err := buildCallInstrumentationTyped(&buf, pointID, matchedCall, filePackageNames, info)
 				if err != nil {
 					return err
 				}
@@ -1074,7 +1075,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 							return err
 						}
 						pointMap[pointID] = postMetadata
-						preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, postCall, filePackageNames)
+						preStmts, err := buildCallInstrumentationTyped(&buf, pointID, postCall, filePackageNames, info)
 						if err != nil {
 							return err
 						}
@@ -1103,7 +1104,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 							return err
 						}
 						pointMap[pointID] = condMetadata
-						preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, condCall, filePackageNames)
+						preStmts, err := buildCallInstrumentationTyped(&buf, pointID, condCall, filePackageNames, info)
 						if err != nil {
 							return err
 						}
@@ -1199,6 +1200,9 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return true
 	})
 
+	if call, _ := findMatchingCall(funcDecl.Body); call != nil || hasFuncLit(funcDecl.Body) {
+		info, _ = buildPartialTypesInfo(parsed.fset, fileNode)
+	}
 	if err := rewriteBlock(funcDecl.Body); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 	}
@@ -1220,6 +1224,41 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 // CallExpr.Ellipsis field set to the position of the ... token, not as an ast.Ellipsis node in the Args.
 // The arguments themselves are just regular expressions, so we capture them as-is.
 func buildCallInstrumentationWithArgs(buf *bytes.Buffer, pointID uint32, call *ast.CallExpr, filePackageNames map[string]bool) ([]ast.Stmt, error) {
+	return buildCallInstrumentationTyped(buf, pointID, call, filePackageNames, nil)
+}
+
+// hasFuncLit reports whether there is a function literal within the node.
+func hasFuncLit(node ast.Node) (found bool) {
+	ast.Inspect(node, func(n ast.Node) bool {
+		if _, ok := n.(*ast.FuncLit); ok {
+			found = true
+		}
+		return !found
+	})
+	return found
+}
+
+// isOperandPath reports whether expr only refers to variables and their fields and elements, so that evaluating it again
+// has no effect.
+func isOperandPath(expr ast.Expr) bool {
+	switch e := expr.(type) {
+	case *ast.Ident, *ast.BasicLit:
+		return true
+	case *ast.SelectorExpr:
+		return isOperandPath(e.X)
+	case *ast.IndexExpr:
+		return isOperandPath(e.X) && isOperandPath(e.Index)
+	case *ast.StarExpr:
+		return isOperandPath(e.X)
+	case *ast.ParenExpr:
+		return isOperandPath(e.X)
+	default:
+		return false
+	}
+}
+
+// buildCallInstrumentationTyped is buildCallInstrumentationWithArgs with what is known of the types (info may be nil).
+func buildCallInstrumentationTyped(buf *bytes.Buffer, pointID uint32, call *ast.CallExpr, filePackageNames map[string]bool, info *types.Info) ([]ast.Stmt, error) {
 	// Build snapshots for receiver (if any) and the call's arguments
 	snaps := make([]ast.Expr, 0, len(call.Args)+1)
 	stmts := make([]ast.Stmt, 0, len(call.Args)+2)
@@ -1230,15 +1269,33 @@ func buildCallInstrumentationWithArgs(buf *bytes.Buffer, pointID uint32, call *a
 		if ident, isSimpleIdent := sel.X.(*ast.Ident); isSimpleIdent {
 			// Simple identifier like obj.Method() or fmt.Printf()
 			// Only capture if it's receiver, not an imported package
-			if ident.Name != "_" && !filePackageNames[ident.Name] {
+			isValue := ident.Name != "_" && !filePackageNames[ident.Name]
+			if info != nil {
+				switch info.Uses[ident].(type) {
+				case *types.Var, *types.Const:
+					isValue = true
+				default: // a package or type
+					isValue = false
+				}
+			}
+			if isValue {
 				snaps = append(snaps, makeSnapshotLit(ident.Name, ident))
 			}
-		} else {
+		} else if info == nil || !info.Types[sel.X].IsType() {
 			// Complex receiver expression like (&Foo{}).Method() or outer.inner.Method()
 			// Create a synthetic receiver variable with unique name using pointID
 			recvVarName := fmt.Sprintf("%s%d", syntheticFieldNamePrefixReceiver, pointID)
 			recvIdent := ast.NewIdent(recvVarName)
 			origRecv := sel.X
+			isPath := isOperandPath(origRecv)
+			if info != nil && !isPath && info.Types[origRecv].Addressable() {
+				// The method may change the variable, which must not be a copy
+				switch info.Types[origRecv].Type.Underlying().(type) {
+				case *types.Pointer, *types.Interface:
+				default:
+					origRecv = &ast.UnaryExpr{Op: token.AND, X: origRecv}
+				}
+			}
 			stmts = append(stmts, &ast.AssignStmt{
 				Lhs: []ast.Expr{recvIdent},
 				Tok: token.DEFINE,
@@ -1246,9 +1303,12 @@ func buildCallInstrumentationWithArgs(buf *bytes.Buffer, pointID uint32, call *a
 			})
 			// Create a new SelectorExpr with the synthetic receiver instead of modifying the original
 			// to avoid position-related formatting issues. Use a fresh Sel identifier with no position.
-			call.Fun = &ast.SelectorExpr{
-				X:   recvIdent,
-				Sel: ast.NewIdent(sel.Sel.Name),
+			// A variable remains the receiver, as the method may change it.
+			if !isPath {
+				call.Fun = &ast.SelectorExpr{
+					X:   recvIdent,
+					Sel: ast.NewIdent(sel.Sel.Name),
+				}
 			}
 			snaps = append(snaps, makeSnapshotLitWithCustomName("recv", recvIdent))
 		}
-- 
2.43.0


From 524d2d7b1b57b760c528a4b3385ee78c230d882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:44 +0000
Subject: [PATCH 70/76] fix: an argument which is a field of a call's result
 was evaluated twice

---
 lens/asttweak.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index df5650f..87b3411 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1326,7 +1326,7 @@ func buildCallInstrumentationTyped(buf *bytes.Buffer, pointID uint32, call *ast.
 
 		// SelectorExpr (pkg.Const or obj.Field): capture but don't replace
 		// These often involve implicit type conversions (e.g., syscall.SYS_IOCTL -> uintptr)
-		if sel, ok := origArg.(*ast.SelectorExpr); ok {
+		if sel, ok := origArg.(*ast.SelectorExpr); ok && isOperandPath(sel) {
 			snaps = append(snaps, makeSnapshotLitWithCustomName(fmt.Sprintf("arg%d", i), sel))
 			continue
 		}
-- 
2.43.0


From 0d9769758f0256a3f8e6e0e8ba9fc231a1286295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:45 +0000
Subject: [PATCH 71/76] fix: constant arguments of monitored calls could make
 the instrumented file invalid

---
 lens/asttweak.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 87b3411..86a6b01 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1238,6 +1238,23 @@ func hasFuncLit(node ast.Node) (found bool) {
 	return found
 }
 
+// constantSnapshot provides expr in a form which can be captured: an integer may need more than its default type.
+func constantSnapshot(expr ast.Expr, value constant.Value) ast.Expr {
+	if value.Kind() != constant.Int {
+		return expr
+	}
+	convert := func(typ string) ast.Expr { return &ast.CallExpr{Fun: ast.NewIdent(typ), Args: []ast.Expr{expr}} }
+	if v, exact := constant.Int64Val(value); exact {
+		if v < math.MinInt32 || v > math.MaxInt32 {
+			return convert("int64")
+		}
+		return expr
+	} else if _, exact := constant.Uint64Val(value); exact {
+		return convert("uint64")
+	}
+	return convert("float64")
+}
+
 // isOperandPath reports whether expr only refers to variables and their fields and elements, so that evaluating it again
 // has no effect.
 func isOperandPath(expr ast.Expr) bool {
@@ -1318,6 +1335,16 @@ func buildCallInstrumentationTyped(buf *bytes.Buffer, pointID uint32, call *ast.
 	for i := range call.Args {
 		origArg := call.Args[i]
 
+		// Constants: the type of their value depends on the parameter, so they are never replaced
+		if info != nil {
+			if tv := info.Types[origArg]; tv.IsType() {
+				continue // argument of a builtin function
+			} else if tv.Value != nil {
+				snaps = append(snaps, makeSnapshotLitWithCustomName(fmt.Sprintf("arg%d", i), constantSnapshot(origArg, tv.Value)))
+				continue
+			}
+		}
+
 		// Identifiers: snapshot directly, no temp needed
 		if ident, ok := origArg.(*ast.Ident); ok {
 			snaps = append(snaps, makeSnapshotLitWithCustomName(fmt.Sprintf("arg%d", i), ident))
@@ -1349,10 +1376,15 @@ func buildCallInstrumentationTyped(buf *bytes.Buffer, pointID uint32, call *ast.
 		// Complex expressions: create synthetic variable and replace
 		argVarName := fmt.Sprintf("%s%d_%d", syntheticFieldNamePrefixArg, pointID, i)
 		argIdent := ast.NewIdent(argVarName)
+		if shift, ok := origArg.(*ast.BinaryExpr); ok && info != nil && (shift.Op == token.SHL || shift.Op == token.SHR) {
+			if basic, ok := info.Types[origArg].Type.(*types.Basic); ok { // a shifted constant has the type of the parameter
+				call.Args[i] = &ast.CallExpr{Fun: ast.NewIdent(basic.Name()), Args: []ast.Expr{origArg}}
+			}
+		}
 		stmts = append(stmts, &ast.AssignStmt{
 			Lhs: []ast.Expr{argIdent},
 			Tok: token.DEFINE,
-			Rhs: []ast.Expr{origArg},
+			Rhs: []ast.Expr{call.Args[i]},
 		})
 		call.Args[i] = argIdent
 		snaps = append(snaps, makeSnapshotLitWithCustomName(fmt.Sprintf("arg%d", i), argIdent))
-- 
2.43.0


From 27d8928a62a474eebf9f32a8ba47877ccf7eaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 72/76] fix: monitored calls with all arguments from another
 call made the instrumented file invalid

---
 lens/asttweak.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 86a6b01..5dd8dfd 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1331,6 +1331,20 @@ func buildCallInstrumentationTyped(buf *bytes.Buffer, pointID uint32, call *ast.
 		}
 	}
 
+	// A single call may provide all arguments
+	if len(call.Args) == 1 && info != nil {
+		if tuple, ok := info.Types[call.Args[0]].Type.(*types.Tuple); ok && tuple.Len() > 1 {
+			assign := &ast.AssignStmt{Tok: token.DEFINE, Rhs: call.Args}
+			call.Args = nil
+			for i := range tuple.Len() {
+				argIdent := ast.NewIdent(fmt.Sprintf("%s%d_%d", syntheticFieldNamePrefixArg, pointID, i))
+				assign.Lhs = append(assign.Lhs, argIdent)
+				call.Args = append(call.Args, argIdent)
+			}
+			stmts = append(stmts, assign)
+		}
+	}
+
 	// Build snapshots for the call's arguments
 	for i := range call.Args {
 		origArg := call.Args[i]
-- 
2.43.0


From abac38ab180212d4868c400f8882982d9dbca4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:57 +0000
Subject: [PATCH 73/76] fix: monitored calls in labeled statements had no
 point, and a goto made the instrumented file invalid

---
 lens/asttweak.go | 66 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 5dd8dfd..d313178 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -923,6 +923,55 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return blk
 	}
 
+	// A goto must not jump over the declarations of a point
+	gotoLabels := make(map[string]bool)
+	ast.Inspect(funcDecl.Body, func(n ast.Node) bool {
+		if branch, ok := n.(*ast.BranchStmt); ok && branch.Tok == token.GOTO {
+			gotoLabels[branch.Label.Name] = true
+		}
+		return true
+	})
+	declares := func(st ast.Stmt) bool {
+		switch s := st.(type) {
+		case *ast.AssignStmt:
+			return s.Tok == token.DEFINE
+		case *ast.DeclStmt:
+			return true
+		default:
+			return false
+		}
+	}
+
+	// rewriteLabeled provides the statements for a labeled statement. The label remains at what can be left or continued.
+	rewriteLabeled := func(labeled *ast.LabeledStmt) ([]ast.Stmt, error) {
+		inner := labeled.Stmt
+		blk := &ast.BlockStmt{List: []ast.Stmt{inner}}
+		if err := rewriteBlock(blk); err != nil {
+			return nil, err
+		}
+		var relabel func(list []ast.Stmt) bool
+		relabel = func(list []ast.Stmt) bool {
+			for i, st := range list {
+				if st == inner {
+					list[i] = labeled
+					return true
+				} else if b, ok := st.(*ast.BlockStmt); ok && relabel(b.List) {
+					return true
+				}
+			}
+			return false
+		}
+		switch inner.(type) {
+		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
+			if (!gotoLabels[labeled.Label.Name] || len(blk.List) > 1) && relabel(blk.List) {
+				return blk.List, nil
+			}
+		}
+		labeled.Stmt = blk.List[0]
+		blk.List[0] = labeled
+		return blk.List, nil
+	}
+
 	rewriteBlock = func(blk *ast.BlockStmt) error {
 		newStmts := make([]ast.Stmt, 0, len(blk.List))
 		for _, st := range blk.List {
@@ -931,6 +980,15 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				continue
 			}
 
+			if labeled, ok := st.(*ast.LabeledStmt); ok {
+				list, err := rewriteLabeled(labeled)
+				if err != nil {
+					return err
+				}
+				newStmts = append(newStmts, list...)
+				continue
+			}
+
 			// Check if this statement contains a matching call (excluding nested blocks)
 			var matchedCall *ast.CallExpr
 			var metadata any
@@ -1032,8 +1090,12 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 
 				// Append instrumentation statements directly to maintain variable scope
 				// Do not wrap in a block as this would scope any variables declared in st
-				newStmts = append(newStmts, preStmts...)
-				newStmts = append(newStmts, st)
+				if len(gotoLabels) > 0 && !declares(st) {
+					newStmts = append(newStmts, &ast.BlockStmt{List: append(preStmts, st)})
+				} else {
+					newStmts = append(newStmts, preStmts...)
+					newStmts = append(newStmts, st)
+				}
 			} else {
 				newStmts = append(newStmts, st)
 			}
-- 
2.43.0


From 1175afea6bd6b27e0503ddeb867efc88f3c2e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:12 +0000
Subject: [PATCH 74/76] fix: monitored calls of increments and of the channel
 expression of a send had no point

---
 lens/asttweak.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index d313178..711cc16 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1011,7 +1011,10 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				matchedCall, metadata = findMatchingCall(stmt)
 			case *ast.SendStmt:
 				// Handle ch <- call()
-				matchedCall, metadata = findMatchingCall(stmt.Value)
+				matchedCall, metadata = findMatchingCall(stmt)
+			case *ast.IncDecStmt:
+				// Handle values[call()]++
+				matchedCall, metadata = findMatchingCall(stmt)
 			case *ast.IfStmt:
 				// Handle if x := call(); condition and if call() { }
 				if scope = withoutInit(stmt, &stmt.Init, stmt.Cond); scope != nil {
-- 
2.43.0


From 9f44386daeb4b9329250aa479e39e44f1d60e786 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:48:16 +0000
Subject: [PATCH 75/76] fix: comparisons as arguments of monitored calls could
 make the instrumented file invalid

So could conditions with a boolean type of their own, large constants as floating point arguments, and return points
in functions which have call points already.
---
 lens/asttweak.go | 49 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 711cc16..f261c28 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1234,15 +1234,28 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return nil
 	}
 
+	if call, _ := findMatchingCall(funcDecl.Body); call != nil || hasFuncLit(funcDecl.Body) {
+		info, _ = buildPartialTypesInfo(parsed.fset, fileNode)
+	}
+
 	// Calls which are evaluated depending on an earlier condition get a scope of their own for the point
 	ownScope := func(cond ast.Expr) ast.Expr {
 		if call, _ := findMatchingCall(cond); call == nil {
 			return cond
 		}
-		return &ast.CallExpr{Fun: &ast.FuncLit{
+		isBool := info == nil || info.Types[cond].Type == types.Typ[types.Bool]
+		result := cond
+		if !isBool {
+			result = &ast.BinaryExpr{X: &ast.ParenExpr{X: cond}, Op: token.EQL, Y: ast.NewIdent("true")}
+		}
+		scoped := &ast.CallExpr{Fun: &ast.FuncLit{
 			Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}},
-			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{cond}}}},
+			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{result}}}},
 		}}
+		if isBool {
+			return scoped
+		}
+		return &ast.ParenExpr{X: &ast.BinaryExpr{X: scoped, Op: token.EQL, Y: ast.NewIdent("true")}} // assignable to any boolean type
 	}
 	ast.Inspect(funcDecl.Body, func(n ast.Node) bool {
 		switch e := n.(type) {
@@ -1265,9 +1278,6 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return true
 	})
 
-	if call, _ := findMatchingCall(funcDecl.Body); call != nil || hasFuncLit(funcDecl.Body) {
-		info, _ = buildPartialTypesInfo(parsed.fset, fileNode)
-	}
 	if err := rewriteBlock(funcDecl.Body); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 	}
@@ -1305,6 +1315,9 @@ func hasFuncLit(node ast.Node) (found bool) {
 
 // constantSnapshot provides expr in a form which can be captured: an integer may need more than its default type.
 func constantSnapshot(expr ast.Expr, value constant.Value) ast.Expr {
+	if value.Kind() == constant.Float {
+		value = constant.ToInt(value) // like a large integer as argument of a float parameter
+	}
 	if value.Kind() != constant.Int {
 		return expr
 	}
@@ -1320,6 +1333,27 @@ func constantSnapshot(expr ast.Expr, value constant.Value) ast.Expr {
 	return convert("float64")
 }
 
+// isUntypedBool reports whether expr is a comparison or made of comparisons, so that its type depends on where it is used.
+func isUntypedBool(expr ast.Expr, info *types.Info) bool {
+	if info.Types[expr].Value != nil {
+		return true
+	}
+	switch e := expr.(type) {
+	case *ast.ParenExpr:
+		return isUntypedBool(e.X, info)
+	case *ast.UnaryExpr:
+		return e.Op == token.NOT && isUntypedBool(e.X, info)
+	case *ast.BinaryExpr:
+		switch e.Op {
+		case token.LAND, token.LOR:
+			return isUntypedBool(e.X, info) && isUntypedBool(e.Y, info)
+		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
+			return true
+		}
+	}
+	return false
+}
+
 // isOperandPath reports whether expr only refers to variables and their fields and elements, so that evaluating it again
 // has no effect.
 func isOperandPath(expr ast.Expr) bool {
@@ -1466,6 +1500,9 @@ func buildCallInstrumentationTyped(buf *bytes.Buffer, pointID uint32, call *ast.
 			Rhs: []ast.Expr{call.Args[i]},
 		})
 		call.Args[i] = argIdent
+		if info != nil && isUntypedBool(origArg, info) && info.Types[origArg].Type != types.Typ[types.Bool] {
+			call.Args[i] = &ast.BinaryExpr{X: argIdent, Op: token.EQL, Y: ast.NewIdent("true")}
+		}
 		snaps = append(snaps, makeSnapshotLitWithCustomName(fmt.Sprintf("arg%d", i), argIdent))
 	}
 
@@ -1607,6 +1644,8 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 	addIdent := func(id *ast.Ident) {
 		if id == nil || id.Name == "_" || id.Pos() > retPos {
 			return
+		} else if !id.Pos().IsValid() {
+			return // added for a monitored call
 		} else if cur, ok := latest[id.Name]; !ok || id.Pos() > cur.pos {
 			latest[id.Name] = declInfo{id, id.Pos()}
 		}
-- 
2.43.0


From 523b09a0e7e9dfb6da9f42055bd8cb71b58df334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:56 +0000
Subject: [PATCH 76/76] fix: arguments of a monitored call could be evaluated
 before another call of the statement

The point was for the last of several matching calls of a statement, its arguments were evaluated before the others ran.
---
 lens/asttweak.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index f261c28..ceab1dc 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -871,8 +871,8 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		ast.Inspect(node, func(n ast.Node) bool {
 			// Don't descend into function literals - they have their own scope
 			// and will be processed separately via rewriteFuncLitsIn
-			if _, isFuncLit := n.(*ast.FuncLit); isFuncLit {
-				return false
+			if _, isFuncLit := n.(*ast.FuncLit); isFuncLit || matchedCall != nil {
+				return false // the first call, so that its arguments are not evaluated before another call
 			}
 			if call, ok := n.(*ast.CallExpr); ok {
 				if m, inject := shouldInject(call); inject {
-- 
2.43.0

