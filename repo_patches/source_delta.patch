From a4fb8f6c565a024379cd474564ac85f90d5b9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 01/63] fix: encode optional attributes explicitly set to their
 zero value

---
 encoding/encoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..ace1771 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -70,6 +70,10 @@ func getFieldEncoder(t reflect.Type) (fieldEncoder, error) {
 	switch t.Kind() {
 	case reflect.Pointer:
 		child, err := getFieldEncoder(t.Elem())
+		if _, ok := child.(rawFieldEncoder); ok {
+			// the pointer tells whether the attribute is set
+			child = rawFieldEncoder{zeroIsSet: true}
+		}
 		return pointerEncoder{child}, err
 	case reflect.String, reflect.Uint64, reflect.Int64, reflect.Uint32, reflect.Int32:
 		return rawFieldEncoder{}, nil
@@ -81,10 +85,11 @@ func getFieldEncoder(t reflect.Type) (fieldEncoder, error) {
 }
 
 type rawFieldEncoder struct {
+	zeroIsSet bool // encode zero values instead of leaving them out
 }
 
 func (e rawFieldEncoder) encode(v reflect.Value) (interface{}, error) {
-	if v.IsZero() {
+	if v.IsZero() && !e.zeroIsSet {
 		return nil, ErrAttributeNotSet
 	}
 	return v.Interface(), nil
-- 
2.43.0


From 4d410901e742b4f067e5cdec40ef1a3d83ef2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 02/63] fix: refuse null attributes instead of panicking when
 decoding a record

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..346d0df 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -97,6 +97,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 		return fmt.Errorf("field not addressable")
 	}
 	attrV := reflect.ValueOf(attr)
+	if !attrV.IsValid() {
+		return fmt.Errorf("cannot assign nil attribute")
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
-- 
2.43.0


From c986d8b99e856f4b66336553d0d6acbe14cdf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 03/63] fix: make every registered record type usable in record
 messages

---
 records.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/records.go b/records.go
index bba20eb..50cd99e 100644
--- a/records.go
+++ b/records.go
@@ -183,22 +183,57 @@ type ImageRecord struct {
 	BaseRecord
 }
 
+func (r ImageRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ImageRecord",
+	}
+}
+
 type IngressRecord struct {
 	BaseRecord
 }
 
+func (r IngressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "IngressRecord",
+	}
+}
+
 type EgressRecord struct {
 	BaseRecord
 }
 
+func (r EgressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "EgressRecord",
+	}
+}
+
 type CollectorRecord struct {
 	BaseRecord
 }
 
+func (r CollectorRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "CollectorRecord",
+	}
+}
+
 type ProcessGroupRecord struct {
 	BaseRecord
 }
 
+func (r ProcessGroupRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ProcessGroupRecord",
+	}
+}
+
 type HostRecord struct {
 	BaseRecord
 	Provider *string `vflow:"10"`
-- 
2.43.0


From 69d5aea2f89af6ba29760633f4ee7f719ce9429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 04/63] fix: refuse nil record pointers instead of panicking
 when encoding

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index ace1771..0db9738 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -44,6 +44,9 @@ func Encode(record any) (RecordAttributeSet, error) {
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
+			if recordV.IsNil() {
+				return nil, fmt.Errorf("cannot encode nil record %T", record)
+			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
-- 
2.43.0


From a2f669711da7713c29589a6bc26f0db32d1dbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 05/63] fix: refuse times that overflow the timestamp encoding

---
 base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base.go b/base.go
index 6d1e37d..05f319f 100644
--- a/base.go
+++ b/base.go
@@ -61,6 +61,9 @@ func (t Time) EncodeRecordAttribute() (any, error) {
 	if ts < 0 {
 		return nil, fmt.Errorf("cannot represent times before epoch in this encoding: %d", ts)
 	}
+	if time.UnixMicro(ts).Unix() != t.Time.Unix() {
+		return nil, fmt.Errorf("cannot represent times this far in the future in this encoding: %s", t.Time)
+	}
 	return uint64(ts), nil
 }
 
-- 
2.43.0


From 4f19ec9f739baea00acbd0640812eb775b5d7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 06/63] fix: never reuse the version of a deleted store entry

---
 store/internal/cache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..42de27c 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,9 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// version of the latest change to any item. Versions are never reused, so
+	// that one is not mistaken for another after an item is re-created.
+	version int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -57,7 +60,8 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +85,8 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +117,8 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		m.version++
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.version}
 	}
 	m.items = itemcc
 
-- 
2.43.0


From dde1b9c5106142241296bca6f0b62e076aac1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 07/63] fix: raise no event and do not panic when accumulating
 fails

---
 store/cache.go   |  5 ++++-
 store/patcher.go | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..bb8aba1 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -84,13 +84,16 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
 		c.eventHandlers.OnAdd(d.Next)
 	}
-	return err
+	return nil
 }
 
 func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, error error) {
diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..70491d1 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -49,6 +49,13 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	}
 	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	record, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record has unexpected type %T", rawOut)
+	}
+	entry.Record = record
+	return entry, nil
 }
-- 
2.43.0


From 0e41447f2f87faf8bdba82927df7da9b7c1d7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 08/63] fix: refuse negative selector offsets

---
 store/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/cache.go b/store/cache.go
index bb8aba1..da9e70b 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -129,6 +129,9 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 			return result, err
 		}
 	}
+	if offset < 0 {
+		return Set{}, fmt.Errorf("invalid negative offset: %d", offset)
+	}
 
 	if offset >= len(result.Entries) {
 		result.Entries = result.Entries[0:0] // empty resultset
-- 
2.43.0


From d6bbedf3450c3676ac306c192e77cfe3e171a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 09/63] fix: request the configured receiver credit

---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From e885640b0b52e645287c0c3367f09f23733816af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 10/63] fix: close connections without a session and do not
 wait for failed sessions to end

---
 session/container.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/session/container.go b/session/container.go
index 154bb0b..46a6b54 100644
--- a/session/container.go
+++ b/session/container.go
@@ -176,6 +176,7 @@ func (c *container) Start(ctx context.Context) {
 				}
 				sess, err := conn.NewSession(ctx, nil)
 				if err != nil {
+					conn.Close()
 					return fmt.Errorf("session create error: %s", err)
 				}
 				generation++
@@ -186,10 +187,10 @@ func (c *container) Start(ctx context.Context) {
 				c.mu.Unlock()
 
 				prevSessionTeardown()
-				prevSessionTeardown = func() {
-					sess.Close(ctx)
-					conn.Close()
-				}
+				// closing the connection ends the session with it. Do not wait
+				// for the peer to confirm the end of a session that may have
+				// failed.
+				prevSessionTeardown = func() { conn.Close() }
 
 				for {
 					select {
-- 
2.43.0


From 49a2359cfbef5398027f3a96da33f0d111fef808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 11/63] fix: call session error handlers without holding the
 container lock

---
 session/container.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/session/container.go b/session/container.go
index 46a6b54..c2feec4 100644
--- a/session/container.go
+++ b/session/container.go
@@ -209,12 +209,7 @@ func (c *container) Start(ctx context.Context) {
 			},
 			b,
 			func(err error, d time.Duration) {
-				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
-					handler(wErr)
-				}
-				c.mu.Unlock()
+				c.handleSessionError(errSessionRestart{Err: err, D: d})
 			},
 		)
 		defer prevSessionTeardown()
@@ -222,16 +217,22 @@ func (c *container) Start(ctx context.Context) {
 			if errors.Is(err, ctx.Err()) {
 				return
 			}
-			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
-				handler(wErr)
-			}
+			c.handleSessionError(fmt.Errorf("error caused contianer to close: %w", err))
 		}
 	}()
 }
 
+// handleSessionError calls the registered error handlers. They are free to
+// call back into the container.
+func (c *container) handleSessionError(err error) {
+	c.mu.Lock()
+	handlers := append([]func(error){}, c.errorHandlers...)
+	c.mu.Unlock()
+	for _, handler := range handlers {
+		handler(err)
+	}
+}
+
 type errSessionRestart struct {
 	Err error
 	D   time.Duration
-- 
2.43.0


From 8d2927115bc9b5c807528267f723c54ba9f04361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 12/63] fix: keep session links responsive, closable and free
 of races

Failures are reported for the session they happened on and without blocking.
Contexts and Close end every operation on a link, also while it waits for a
session or for the peer, and are not taken for failures of the session. Closing
a link closes its sender, and receiving on a closed link returns.
---
 session/container.go | 304 +++++++++++++++++++++++++++++--------------
 1 file changed, 208 insertions(+), 96 deletions(-)

diff --git a/session/container.go b/session/container.go
index c2feec4..51b77ac 100644
--- a/session/container.go
+++ b/session/container.go
@@ -102,8 +102,7 @@ func NewContainer(address string, config ContainerConfig) Container {
 		address:       address,
 		config:        config,
 		hasNext:       make(chan struct{}),
-		sessionErrors: make(chan sessionErr, 32),
-		notifyOK:      make(chan int, 32),
+		sessionErrors: make(chan sessionErr, 1),
 	}
 	return c
 }
@@ -117,9 +116,11 @@ type container struct {
 	gen           int
 	hasNext       chan struct{}
 	errorHandlers []func(error)
+	// okGen is the latest generation an operation has succeeded with
+	okGen int
 
+	// sessionErrors holds the first error reported for the current session
 	sessionErrors chan sessionErr
-	notifyOK      chan int
 }
 
 func (c *container) OnSessionError(handler func(error)) {
@@ -152,6 +153,36 @@ func (e sessionErr) Error() string {
 	return e.Err.Error()
 }
 
+// reportError signals that the session of a generation has failed. Ignores
+// reports about earlier sessions and any but the first one about the current
+// session.
+func (c *container) reportError(e sessionErr) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if e.Generation != c.gen {
+		return
+	}
+	select {
+	case c.sessionErrors <- e:
+	default:
+	}
+}
+
+// reportOK signals that the session of a generation has been of use.
+func (c *container) reportOK(generation int) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if generation > c.okGen {
+		c.okGen = generation
+	}
+}
+
+func (c *container) usedOK(generation int) bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.okGen == generation
+}
+
 // Start the container. It will run until the context is cancelled or until the
 // backoff strategy chosen finishes.
 func (c *container) Start(ctx context.Context) {
@@ -182,6 +213,10 @@ func (c *container) Start(ctx context.Context) {
 				generation++
 
 				c.mu.Lock()
+				select {
+				case <-c.sessionErrors: // late report about the previous session
+				default:
+				}
 				close(c.hasNext)
 				c.sess, c.gen, c.hasNext = sess, generation, make(chan struct{})
 				c.mu.Unlock()
@@ -192,19 +227,14 @@ func (c *container) Start(ctx context.Context) {
 				// failed.
 				prevSessionTeardown = func() { conn.Close() }
 
-				for {
-					select {
-					case <-ctx.Done():
-						return ctx.Err()
-					case gen := <-c.notifyOK:
-						if gen == generation {
-							b.Reset()
-						}
-					case recvErr := <-c.sessionErrors:
-						if recvErr.Generation == generation {
-							return fmt.Errorf("session receiver error: %s", recvErr)
-						}
+				select {
+				case <-ctx.Done():
+					return ctx.Err()
+				case recvErr := <-c.sessionErrors:
+					if c.usedOK(generation) {
+						b.Reset()
 					}
+					return fmt.Errorf("session receiver error: %s", recvErr)
 				}
 			},
 			b,
@@ -258,15 +288,15 @@ func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions)
 	c.mu.Lock()
 	defer c.mu.Unlock()
 	l := &link{
-		address:       address,
-		container:     c,
-		receiverOpts:  r.get(),
-		senderOpts:    s.get(),
-		sessionErrors: c.sessionErrors,
-		reportOK:      c.notifyOK,
-		curr:          c.sess,
-		currGen:       c.gen,
+		address:      address,
+		container:    c,
+		receiverOpts: r.get(),
+		senderOpts:   s.get(),
+		attach:       make(chan struct{}, 1),
+		curr:         c.sess,
+		currGen:      c.gen,
 	}
+	l.open, l.close = context.WithCancel(context.Background())
 	return l
 }
 
@@ -275,11 +305,14 @@ type link struct {
 	receiverOpts amqp.ReceiverOptions
 	senderOpts   amqp.SenderOptions
 
-	sessionErrors chan<- sessionErr
-	reportOK      chan<- int
-
 	container *container
 
+	// attach is held while creating the receiver or sender
+	attach chan struct{}
+	// open is done once the link is closed
+	open  context.Context
+	close context.CancelFunc
+
 	mu      sync.Mutex
 	closed  bool
 	currGen int
@@ -292,115 +325,193 @@ type link struct {
 
 var errLinkClosed = errors.New("link closed")
 
-func (r *link) awaitSession(ctx context.Context) error {
-	r.mu.Lock()
-	curr, currGen, closed := r.curr, r.currGen, r.closed
-	r.mu.Unlock()
-	if closed {
-		return errLinkClosed
-	}
-	if curr != nil {
-		return nil
+// awaitSession returns the session to use
+func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
+	for {
+		r.mu.Lock()
+		curr, currGen, closed := r.curr, r.currGen, r.closed
+		r.mu.Unlock()
+		if closed {
+			return nil, 0, errLinkClosed
+		}
+		if curr != nil {
+			return curr, currGen, nil
+		}
+		next, nextGen, err := r.container.awaitNextSession(ctx, currGen)
+		if err != nil {
+			return nil, 0, err
+		}
+		r.mu.Lock()
+		if nextGen > r.currGen && !r.closed {
+			r.curr, r.currGen = next, nextGen
+		}
+		r.mu.Unlock()
 	}
-	next, nextGen, err := r.container.awaitNextSession(ctx, currGen)
-	if err != nil {
-		return err
+}
+
+// startAttach prepares for creating the receiver or sender. The context it
+// returns is also done once the link is closed.
+func (r *link) startAttach(ctx context.Context) (attachCtx context.Context, finish func(), err error) {
+	attachCtx, cancel := context.WithCancel(ctx)
+	stop := context.AfterFunc(r.open, cancel)
+	select {
+	case <-attachCtx.Done():
+		stop()
+		cancel()
+		return nil, nil, attachCtx.Err()
+	case r.attach <- struct{}{}:
 	}
-	r.mu.Lock()
-	r.curr, r.currGen = next, nextGen
-	r.mu.Unlock()
-	return nil
+	return attachCtx, func() {
+		<-r.attach
+		stop()
+		cancel()
+	}, nil
 }
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
-	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
-	}
 	rcv, currGen, err := r.getReceiver(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
 	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
-	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
-	}
 	snd, currGen, err := r.getSender(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
 	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
-	if errors.Is(err, ctx.Err()) {
+// handleError of an operation that used the session of the given generation
+func (r *link) handleError(ctx context.Context, generation int, err error) error {
+	r.mu.Lock()
+	closed := r.closed
+	r.mu.Unlock()
+	if ctxErr := ctx.Err(); ctxErr != nil {
+		if !errors.Is(err, ctxErr) {
+			err = fmt.Errorf("%w: %s", ctxErr, err)
+		}
 		return err
 	}
-	if errors.Is(err, errLinkClosed) {
+	if closed {
+		if !errors.Is(err, errLinkClosed) {
+			err = fmt.Errorf("%w: %s", errLinkClosed, err)
+		}
 		return err
 	}
-	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
+	r.container.reportError(sessionErr{
+		Generation: generation,
 		Err:        err,
-	}
+	})
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	if r.currGen == generation {
+		r.curr, r.rcv, r.snd = nil, nil, nil
+	}
 	return err
 }
 
 func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.rcv != nil && r.rcvGen == r.currGen {
-		return r.rcv, r.rcvGen, nil
+	rcv, gen := r.rcv, r.rcvGen
+	r.mu.Unlock()
+	if rcv != nil {
+		return rcv, gen, nil
 	}
-	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
+	ctx, finish, err := r.startAttach(ctx)
 	if err != nil {
 		return nil, 0, err
 	}
-	r.rcv, r.rcvGen = rcv, r.currGen
-	return r.rcv, r.rcvGen, nil
+	defer finish()
+	sess, currGen, err := r.awaitSession(ctx)
+	if err != nil {
+		return nil, 0, fmt.Errorf("session await error: %w", err)
+	}
+	r.mu.Lock()
+	rcv, gen = r.rcv, r.rcvGen
+	r.mu.Unlock()
+	if rcv != nil {
+		return rcv, gen, nil
+	}
+	rcv, err = sess.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
+	if err != nil {
+		return nil, currGen, err
+	}
+	r.mu.Lock()
+	closed := r.closed
+	if !closed {
+		r.rcv, r.rcvGen = rcv, currGen
+	}
+	r.mu.Unlock()
+	if closed {
+		rcv.Close(ctx)
+		return nil, currGen, errLinkClosed
+	}
+	return rcv, currGen, nil
 }
 
 func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.snd != nil && r.sndGen == r.currGen {
-		return r.snd, r.sndGen, nil
+	snd, gen := r.snd, r.sndGen
+	r.mu.Unlock()
+	if snd != nil {
+		return snd, gen, nil
 	}
-	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
+	ctx, finish, err := r.startAttach(ctx)
 	if err != nil {
 		return nil, 0, err
 	}
-	r.snd, r.sndGen = snd, r.currGen
-	return r.snd, r.sndGen, nil
+	defer finish()
+	sess, currGen, err := r.awaitSession(ctx)
+	if err != nil {
+		return nil, 0, fmt.Errorf("session await error: %w", err)
+	}
+	r.mu.Lock()
+	snd, gen = r.snd, r.sndGen
+	r.mu.Unlock()
+	if snd != nil {
+		return snd, gen, nil
+	}
+	snd, err = sess.NewSender(ctx, r.address, &r.senderOpts)
+	if err != nil {
+		return nil, currGen, err
+	}
+	r.mu.Lock()
+	closed := r.closed
+	if !closed {
+		r.snd, r.sndGen = snd, currGen
+	}
+	r.mu.Unlock()
+	if closed {
+		snd.Close(ctx)
+		return nil, currGen, errLinkClosed
+	}
+	return snd, currGen, nil
 }
 
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
-	var (
-		result *amqp.Message
-	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
-		msg, err := rcv.Receive(ctx, nil)
-		if err != nil {
-			return fmt.Errorf("receive error: %w", err)
+	for {
+		var result *amqp.Message
+		err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
+			msg, err := rcv.Receive(ctx, nil)
+			if err != nil {
+				return fmt.Errorf("receive error: %w", err)
+			}
+			result = msg
+			return nil
+		})
+		if err == nil || ctx.Err() != nil || errors.Is(err, errLinkClosed) {
+			return result, err
 		}
-		result = msg
-		return nil
-	})
-	if err != nil && ctx.Err() == nil {
-		return r.Next(ctx)
 	}
-	return result, err
 }
 
 func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
@@ -419,10 +530,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		return acceptErr
 	}
 	if err == nil {
-		select {
-		case r.reportOK <- generation:
-		default:
-		}
+		r.container.reportOK(generation)
 	}
 	return err
 }
@@ -438,22 +546,26 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 		return nil
 	})
 	if err == nil {
-		select {
-		case r.reportOK <- generation:
-		default:
-		}
+		r.container.reportOK(generation)
 	}
 	return err
 }
 
 func (r *link) Close(ctx context.Context) error {
 	r.mu.Lock()
-	defer r.mu.Unlock()
 	r.closed = true
-	rcv := r.rcv
+	rcv, snd := r.rcv, r.snd
 	r.curr, r.rcv, r.snd = nil, nil, nil
+	r.mu.Unlock()
+	r.close()
+	var err error
 	if rcv != nil {
-		return rcv.Close(ctx)
+		err = rcv.Close(ctx)
 	}
-	return nil
+	if snd != nil {
+		if sndErr := snd.Close(ctx); err == nil {
+			err = sndErr
+		}
+	}
+	return err
 }
-- 
2.43.0


From 18d550c6695e8baacce9f2cdb0ea424bb2fcc6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 13/63] fix: do not share the state of a backoff policy between
 containers of a factory

---
 session/factory.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/session/factory.go b/session/factory.go
index 647fb4c..9f04469 100644
--- a/session/factory.go
+++ b/session/factory.go
@@ -4,6 +4,8 @@ import (
 	"crypto/rand"
 	"encoding/hex"
 	"io"
+
+	"github.com/cenkalti/backoff/v4"
 )
 
 // ContainerFactory creates Containers with a given configuration
@@ -36,7 +38,14 @@ type factory struct {
 }
 
 func (f factory) Create() Container {
-	return NewContainer(f.Address, f.Config)
+	cfg := f.Config
+	if b, ok := cfg.BackOff.(*backoff.ExponentialBackOff); ok {
+		// policies are stateful, do not share it between containers
+		own := *b
+		own.Reset()
+		cfg.BackOff = &own
+	}
+	return NewContainer(f.Address, cfg)
 }
 
 func randomID() string {
-- 
2.43.0


From 7897fbbe4e9b0f680ac7f01fb940f7f79b81431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 14/63] fix: keep mock router sends from hanging on closed
 links or past their context

---
 session/mock.go | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..55174d2 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -2,6 +2,7 @@ package session
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 
@@ -64,8 +65,8 @@ func (router *MockRouter) subscribe(address string, r *mockReceiver) {
 	router.get(address).subscribe(r)
 }
 
-func (router *MockRouter) send(ctx context.Context, address string, msg *amqp.Message) error {
-	return router.get(address).send(ctx, msg)
+func (router *MockRouter) send(ctx context.Context, done <-chan struct{}, address string, msg *amqp.Message) error {
+	return router.get(address).send(ctx, done, msg)
 }
 
 func (router *MockRouter) get(address string) *multicast {
@@ -89,21 +90,26 @@ func newMulticast() *multicast {
 	return &multicast{update: make(chan struct{})}
 }
 
-func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
+// send delivers the message to every open receiver until the context or the
+// sender is done. Waits for the first receiver when there has been none.
+func (m *multicast) send(ctx context.Context, done <-chan struct{}, msg *amqp.Message) error {
 	m.mu.Lock()
 	update := m.update
-	var sent bool
-	for _, r := range m.receivers {
-		sent = true
-		r.send(msg)
-	}
+	receivers := append([]*mockReceiver{}, m.receivers...)
 	m.mu.Unlock()
-	if !sent {
+	if len(receivers) == 0 {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-done:
+			return errMockSenderClosed
 		case <-update:
-			return m.send(ctx, msg)
+			return m.send(ctx, done, msg)
+		}
+	}
+	for _, r := range receivers {
+		if err := r.send(ctx, done, msg); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -123,14 +129,25 @@ type mockReceiver struct {
 	done      chan struct{}
 }
 
-func (r *mockReceiver) send(msg *amqp.Message) {
+// send the message to the receiver unless it is closed
+func (r *mockReceiver) send(ctx context.Context, done <-chan struct{}, msg *amqp.Message) error {
 	select {
 	case <-r.done:
-		return
+		return nil
 	default:
-		r.channel <- msg
+	}
+	select {
+	case <-r.done:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-done:
+		return errMockSenderClosed
+	case r.channel <- msg:
+		return nil
 	}
 }
+
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
 	select {
 	case <-ctx.Done():
@@ -151,6 +168,8 @@ func (r *mockReceiver) Close(context.Context) error {
 	return nil
 }
 
+var errMockSenderClosed = errors.New("sender closed")
+
 type mockSender struct {
 	router    *MockRouter
 	address   string
@@ -161,11 +180,11 @@ type mockSender struct {
 func (s *mockSender) Send(ctx context.Context, msg *amqp.Message) error {
 	select {
 	case <-s.done:
-		return fmt.Errorf("sender closed")
+		return errMockSenderClosed
 	case <-ctx.Done():
 		return ctx.Err()
 	default:
-		return s.router.send(ctx, s.address, msg)
+		return s.router.send(ctx, s.done, s.address, msg)
 	}
 }
 
-- 
2.43.0


From aad6b2eb9528bd75c81a8dbf95edef1b20b62635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 15/63] fix: let clients be closed more than once and while
 messages are handled

---
 eventsource/client.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..ac657e0 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -26,6 +26,7 @@ type Client struct {
 	eventSource Info
 
 	lock              sync.Mutex
+	closed            bool
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
@@ -85,11 +86,13 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 // listener configuration until the context is cancelled or client.Close() is
 // called.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
-	listenerCtx, listenerCancel := context.WithCancel(ctx)
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	if c.closed {
+		return errors.New("client is closed")
+	}
+	c.wg.Add(1)
+	listenerCtx, listenerCancel := context.WithCancel(ctx)
 	c.cleanup = append(c.cleanup, listenerCancel)
 
 	go func(ctx context.Context) {
@@ -139,8 +142,10 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 // Close stops all listeners
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
-	for _, cancel := range c.cleanup {
+	cleanup := c.cleanup
+	c.closed, c.cleanup = true, nil
+	c.lock.Unlock()
+	for _, cancel := range cleanup {
 		cancel()
 	}
 	c.wg.Wait()
-- 
2.43.0


From 557e72542279ee6c0fc43b8066fb9554f0e89ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 16/63] fix: survive messages without a subject on the beacon
 address

---
 eventsource/discovery.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..02cd157 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -61,11 +61,17 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
-		if *msg.Properties.Subject != "BEACON" {
+		decoded, err := vanflow.Decode(msg)
+		if err != nil {
+			slog.Error("discovery skipping message that could not be decoded", slog.Any("error", err))
+			continue
+		}
+		beacon, ok := decoded.(vanflow.BeaconMessage)
+		if !ok {
 			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
 			continue
 		}
-		d.observe(vanflow.DecodeBeacon(msg))
+		d.observe(beacon)
 	}
 }
 
-- 
2.43.0


From 1185cafc16d35b8d5320f80d7267a847b5e2ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 17/63] fix: queue discovery events in order and without
 blocking on handlers

---
 eventsource/discovery.go | 57 +++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index 02cd157..4cb1733 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -19,11 +19,17 @@ type Discovery struct {
 	container     session.Container
 	lock          sync.Mutex
 	state         map[string]Info
-	discovered    chan Info
-	forgotten     chan Info
+	events        []discoveryEvent
+	notify        chan struct{}
 	beaconAddress string
 }
 
+// discoveryEvent is a pending call to a discovery handler
+type discoveryEvent struct {
+	forgotten bool
+	source    Info
+}
+
 type DiscoveryHandlers struct {
 	Discovered func(source Info)
 	Forgotten  func(source Info)
@@ -40,8 +46,7 @@ func NewDiscovery(container session.Container, opts DiscoveryOptions) *Discovery
 	return &Discovery{
 		container:     container,
 		state:         make(map[string]Info),
-		discovered:    make(chan Info, 32),
-		forgotten:     make(chan Info, 32),
+		notify:        make(chan struct{}, 1),
 		beaconAddress: opts.BeaconAddress,
 	}
 }
@@ -80,18 +85,44 @@ func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandl
 		select {
 		case <-ctx.Done():
 			return
-		case info := <-d.discovered:
-			if handlers.Discovered != nil {
-				handlers.Discovered(info)
+		case <-d.notify:
+		}
+		for ctx.Err() == nil {
+			event, ok := d.nextEvent()
+			if !ok {
+				break
 			}
-		case info := <-d.forgotten:
-			if handlers.Forgotten != nil {
-				handlers.Forgotten(info)
+			if event.forgotten {
+				if handlers.Forgotten != nil {
+					handlers.Forgotten(event.source)
+				}
+			} else if handlers.Discovered != nil {
+				handlers.Discovered(event.source)
 			}
 		}
 	}
 }
 
+func (d *Discovery) nextEvent() (event discoveryEvent, ok bool) {
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	if len(d.events) == 0 {
+		return event, false
+	}
+	event, d.events = d.events[0], d.events[1:]
+	return event, true
+}
+
+// queueEvent for the handlers without waiting on them. Called with the lock
+// held.
+func (d *Discovery) queueEvent(event discoveryEvent) {
+	d.events = append(d.events, event)
+	select {
+	case d.notify <- struct{}{}:
+	default:
+	}
+}
+
 // Get an EventSource by ID
 func (d *Discovery) Get(id string) (source Info, ok bool) {
 	d.lock.Lock()
@@ -111,7 +142,7 @@ func (d *Discovery) Add(info Info) bool {
 		return false
 	}
 	d.state[info.ID] = info
-	d.discovered <- info
+	d.queueEvent(discoveryEvent{source: info})
 	return true
 }
 
@@ -126,7 +157,7 @@ func (d *Discovery) Forget(id string) bool {
 	state, forget = d.state[id]
 	delete(d.state, id)
 	if forget {
-		d.forgotten <- state
+		d.queueEvent(discoveryEvent{source: state, forgotten: true})
 	}
 	return forget
 }
@@ -286,7 +317,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
 	if discovered {
-		d.discovered <- state
+		d.queueEvent(discoveryEvent{source: state})
 	}
 }
 
-- 
2.43.0


From 34df7197d632425a8ad9cdd297af09913e9f285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 18/63] fix: give up beacon and heartbeat sends after their
 timeout

---
 eventsource/manager.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..a4bdd5f 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -330,11 +330,9 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
-	if err != nil {
-		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
-			return errSendTimeoutExceeded
-		}
+	err := sender.Send(requestCtx, msg)
+	if err != nil && requestCtx.Err() != nil && ctx.Err() == nil {
+		return errSendTimeoutExceeded
 	}
 	return err
 }
-- 
2.43.0


From 27e6774a44754a6e7caa570ddab6c5c713834b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 19/63] fix: do not spin on or wait for the initial beacon

---
 eventsource/manager.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index a4bdd5f..3e2f80b 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -258,22 +258,20 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	heartbeatSender := m.container.NewSender(heartbeatAddr, session.SenderOptions{})
 	defer heartbeatSender.Close(ctx)
 
-	// start with sending beacon
-	for {
-		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
-			slog.Error("error sending initial beacon message", slog.Any("error", err))
-			continue
-		}
-		break
-	}
-
 	messageDeliveryTimeout := heartbeatInterval
 	if messageDeliveryTimeout > beaconInterval {
 		messageDeliveryTimeout = beaconInterval
 	}
 
+	// start with sending beacon
+	if err := sendWithTimeout(ctx, messageDeliveryTimeout, beaconSender, beaconMessage.Encode()); err != nil {
+		slog.Error("error sending initial beacon message", slog.Any("error", err))
+	}
+
 	beaconTimer := time.NewTicker(beaconInterval)
+	defer beaconTimer.Stop()
 	heartbeatTimer := time.NewTicker(heartbeatInterval)
+	defer heartbeatTimer.Stop()
 	heartbeatTimeouts := 0
 	firstHeartbeatSent := false
 	for {
-- 
2.43.0


From b2d4974793a70858751cc027df36b71696a2b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 20/63] fix: answer flush messages only

---
 eventsource/manager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 3e2f80b..44e940d 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -314,8 +314,17 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
+		decoded, err := vanflow.Decode(msg)
+		if err != nil {
+			slog.Error("skipping message that could not be decoded", slog.Any("error", err))
+			continue
+		}
+		if _, ok := decoded.(vanflow.FlushMessage); !ok {
+			continue
+		}
 		select {
 		case m.flushQueue <- struct{}{}:
 		default: // drop flush if queue is full
-- 
2.43.0


From e78915e6f52036032e93b54775195eadaa2b5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 21/63] fix: answer flushes completely despite deletes and
 failing stores

---
 eventsource/manager.go | 64 ++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 44e940d..ee080d0 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"log/slog"
+	"math"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -180,45 +181,46 @@ func (m *Manager) serve(ctx context.Context) {
 			// handle a flush
 			if m.FlushDelay > 0 {
 				drainCtx, cancelDrain := context.WithTimeout(ctx, m.FlushDelay)
-				nextN(drainCtx, m.flushQueue, 2048)
+				nextN(drainCtx, m.flushQueue, math.MaxInt)
 				cancelDrain()
 				if ctx.Err() != nil {
 					return
 				}
 			}
 			slog.Info("servicing flush", slog.String("source", m.Source.ID))
-			flushStoreQ := make([]store.Interface, len(m.Stores))
-			copy(flushStoreQ, m.Stores)
-			selector := &store.Selector{
-				Limit: m.FlushBatchSize,
-			}
-			for len(flushStoreQ) > 0 {
-				stor := flushStoreQ[0]
-				result, err := stor.List(ctx, selector)
-				if err != nil {
-					if errors.Is(err, ctx.Err()) {
-						return
+			for _, stor := range m.Stores {
+				// List everything at once. When paging with a limit, entries
+				// deleted along the way would shift others past the next page.
+				var entries []store.Entry
+				selector := &store.Selector{}
+				for more := true; more; more = selector.Continue != "" {
+					result, err := stor.List(ctx, selector)
+					if err != nil {
+						if ctx.Err() != nil {
+							return
+						}
+						slog.Error("flush error listing resources", slog.Any("error", err))
+						break
 					}
-					slog.Error("flush error listing resources", slog.Any("error", err))
-					continue // probably bad.
-				}
-				selector.Continue = result.Continue
-				if result.Continue == "" {
-					flushStoreQ = flushStoreQ[1:]
-				}
-
-				if len(result.Entries) == 0 {
-					continue
+					entries = append(entries, result.Entries...)
+					selector.Continue = result.Continue
 				}
-				var record vanflow.RecordMessage
-				record.Records = make([]vanflow.Record, len(result.Entries))
-				for i := range result.Entries {
-					record.Records[i] = result.Entries[i].Record
-				}
-				select {
-				case <-ctx.Done():
-					return
-				case m.sendQueue <- record:
+				for len(entries) > 0 {
+					n := len(entries)
+					if m.FlushBatchSize > 0 && n > m.FlushBatchSize {
+						n = m.FlushBatchSize
+					}
+					var record vanflow.RecordMessage
+					record.Records = make([]vanflow.Record, n)
+					for i := range record.Records {
+						record.Records[i] = entries[i].Record
+					}
+					entries = entries[n:]
+					select {
+					case <-ctx.Done():
+						return
+					case m.sendQueue <- record:
+					}
 				}
 			}
 		}
-- 
2.43.0


From 763e3822eae3155f7a648e6e172755b6e14ca5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 22/63] fix: skip only the records that cannot be encoded

---
 eventsource/manager.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ee080d0..019243a 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -86,7 +86,7 @@ func (m *Manager) sendRecords(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case record := <-m.sendQueue:
-			msg, err := record.Encode()
+			msg, err := encodeRecords(record)
 			if err != nil {
 				slog.Error("skipping record message after encoding error:", slog.Any("error", err))
 				continue
@@ -99,6 +99,28 @@ func (m *Manager) sendRecords(ctx context.Context) {
 	}
 }
 
+// encodeRecords encodes a record message leaving out the records that cannot
+// be encoded, so that these do not keep the others from being sent.
+func encodeRecords(message vanflow.RecordMessage) (*amqp.Message, error) {
+	msg, err := message.Encode()
+	if err == nil {
+		return msg, nil
+	}
+	var records []vanflow.Record
+	for _, record := range message.Records {
+		if _, encodeErr := encoding.Encode(record); encodeErr != nil {
+			slog.Error("skipping record after encoding error", slog.Any("error", encodeErr))
+			continue
+		}
+		records = append(records, record)
+	}
+	if len(records) == 0 {
+		return nil, err
+	}
+	message.Records = records
+	return message.Encode()
+}
+
 func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	if d.Prev == nil {
 		return d.Curr, true
-- 
2.43.0


From 91b1e03e1730204b4371cb2dcc89b3c96c6aad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 23/63] fix: do not block publishers after the event source
 stopped

---
 eventsource/manager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 019243a..0b6576f 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"log/slog"
 	"math"
+	"sync"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -55,6 +56,9 @@ type Manager struct {
 	flushQueue  chan struct{}
 	changeQueue chan RecordUpdate
 	sendQueue   chan vanflow.RecordMessage
+
+	stopOnce sync.Once
+	stopped  chan struct{}
 }
 
 func NewManager(container session.Container, cfg ManagerConfig) *Manager {
@@ -64,14 +68,21 @@ func NewManager(container session.Container, cfg ManagerConfig) *Manager {
 		flushQueue:    make(chan struct{}, 8),
 		changeQueue:   make(chan RecordUpdate, 256),
 		sendQueue:     make(chan vanflow.RecordMessage, 256),
+		stopped:       make(chan struct{}),
 	}
 }
 
+// PublishUpdate queues an update to be sent. Updates published after Run has
+// returned are dropped.
 func (m *Manager) PublishUpdate(update RecordUpdate) {
-	m.changeQueue <- update
+	select {
+	case m.changeQueue <- update:
+	case <-m.stopped:
+	}
 }
 
 func (m *Manager) Run(ctx context.Context) {
+	defer m.stopOnce.Do(func() { close(m.stopped) })
 	go m.listenFlushes(ctx)
 	go m.sendKeepalives(ctx)
 	go m.sendRecords(ctx)
-- 
2.43.0


From 5b1108eec863025b138b95c3f20d3844c0c38b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 24/63] fix: send no flush when the context ended before the
 first message

---
 eventsource/flush.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventsource/flush.go b/eventsource/flush.go
index f9ea88e..65b22bf 100644
--- a/eventsource/flush.go
+++ b/eventsource/flush.go
@@ -17,6 +17,9 @@ func FlushOnFirstMessage(ctx context.Context, client *Client) error {
 	client.OnHeartbeat(awaiter.Heartbeat)
 	select {
 	case <-done:
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		return client.SendFlush(ctx)
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From 03dbd9234e6209dcbeccf25d4491824fae23e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 25/63] fix: skip beacons that name no source

---
 eventsource/discovery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index 4cb1733..a9c8a38 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -76,6 +76,10 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
 			continue
 		}
+		if beacon.Identity == "" {
+			slog.Info("discovery skipping beacon without an identity")
+			continue
+		}
 		d.observe(beacon)
 	}
 }
-- 
2.43.0


From 26435a217cd8006b757d5e19390bda9a334459e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 26/63] fix: report activity seen before a watch got going

---
 eventsource/discovery.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a9c8a38..46e8b85 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -256,7 +256,6 @@ func (w *watch) run(ctx context.Context, cfg WatchConfig) {
 	defer w.client.Close()
 
 	var prevObserved time.Time
-	prevObserved, _ = w.advanceLastSeen(prevObserved)
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From e893d68e38cc1bba8f83ba1ea3d1e07c2b17aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 27/63] fix: do not let heartbeats that time out hold up
 beacons

---
 eventsource/manager.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 0b6576f..bc91c08 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -288,8 +288,6 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 		heartbeatAddr = heartbeatAddr + sourceSuffixHeartbeats
 	}
 
-	beaconSender := m.container.NewSender(beaconAddress, session.SenderOptions{})
-	defer beaconSender.Close(ctx)
 	heartbeatSender := m.container.NewSender(heartbeatAddr, session.SenderOptions{})
 	defer heartbeatSender.Close(ctx)
 
@@ -298,13 +296,9 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 		messageDeliveryTimeout = beaconInterval
 	}
 
-	// start with sending beacon
-	if err := sendWithTimeout(ctx, messageDeliveryTimeout, beaconSender, beaconMessage.Encode()); err != nil {
-		slog.Error("error sending initial beacon message", slog.Any("error", err))
-	}
+	// heartbeats that time out must not hold up beacons or the other way around
+	go m.sendBeacons(ctx, beaconMessage, beaconInterval, messageDeliveryTimeout)
 
-	beaconTimer := time.NewTicker(beaconInterval)
-	defer beaconTimer.Stop()
 	heartbeatTimer := time.NewTicker(heartbeatInterval)
 	defer heartbeatTimer.Stop()
 	heartbeatTimeouts := 0
@@ -313,11 +307,6 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 		select {
 		case <-ctx.Done():
 			return
-		case <-beaconTimer.C:
-			msg := beaconMessage.Encode()
-			if err := sendWithTimeout(ctx, messageDeliveryTimeout, beaconSender, msg); err != nil {
-				slog.Error("error sending event source beacon", slog.Any("error", err))
-			}
 		case <-heartbeatTimer.C:
 			heartbeatMessage.Now = uint64(time.Now().UnixMicro())
 			msg := heartbeatMessage.Encode()
@@ -339,6 +328,27 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	}
 }
 
+func (m *Manager) sendBeacons(ctx context.Context, beaconMessage vanflow.BeaconMessage, interval, timeout time.Duration) {
+	beaconSender := m.container.NewSender(beaconAddress, session.SenderOptions{})
+	defer beaconSender.Close(ctx)
+
+	beaconTimer := time.NewTicker(interval)
+	defer beaconTimer.Stop()
+
+	// start with sending beacon
+	for {
+		msg := beaconMessage.Encode()
+		if err := sendWithTimeout(ctx, timeout, beaconSender, msg); err != nil {
+			slog.Error("error sending event source beacon", slog.Any("error", err))
+		}
+		select {
+		case <-ctx.Done():
+			return
+		case <-beaconTimer.C:
+		}
+	}
+}
+
 func (m *Manager) listenFlushes(ctx context.Context) {
 	flushReceiver := m.container.NewReceiver(m.Source.Direct, session.ReceiverOptions{Credit: 256})
 	defer flushReceiver.Close(ctx)
-- 
2.43.0


From 31bd61ca6686980e719b68607957f7722efea54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 28/63] fix: end operations of a closed link without waiting
 for the peer

---
 session/container.go | 51 ++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/session/container.go b/session/container.go
index 51b77ac..fcbe900 100644
--- a/session/container.go
+++ b/session/container.go
@@ -349,42 +349,47 @@ func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
 	}
 }
 
-// startAttach prepares for creating the receiver or sender. The context it
-// returns is also done once the link is closed.
-func (r *link) startAttach(ctx context.Context) (attachCtx context.Context, finish func(), err error) {
-	attachCtx, cancel := context.WithCancel(ctx)
+// untilClosed returns a context that is also done once the link is closed.
+func (r *link) untilClosed(ctx context.Context) (context.Context, func()) {
+	ctx, cancel := context.WithCancel(ctx)
 	stop := context.AfterFunc(r.open, cancel)
-	select {
-	case <-attachCtx.Done():
+	return ctx, func() {
 		stop()
 		cancel()
-		return nil, nil, attachCtx.Err()
+	}
+}
+
+// startAttach prepares for creating the receiver or sender.
+func (r *link) startAttach(ctx context.Context) (finish func(), err error) {
+	select {
+	case <-ctx.Done():
+		return nil, ctx.Err()
 	case r.attach <- struct{}{}:
 	}
-	return attachCtx, func() {
-		<-r.attach
-		stop()
-		cancel()
-	}, nil
+	return func() { <-r.attach }, nil
 }
 
-func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
-	rcv, currGen, err := r.getReceiver(ctx)
+func (r *link) withReceiver(ctx context.Context, fn func(ctx context.Context, receiver *amqp.Receiver, generation int) error) error {
+	opCtx, cancel := r.untilClosed(ctx)
+	defer cancel()
+	rcv, currGen, err := r.getReceiver(opCtx)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
-	if err := fn(rcv, currGen); err != nil {
+	if err := fn(opCtx, rcv, currGen); err != nil {
 		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
-	snd, currGen, err := r.getSender(ctx)
+func (r *link) withSender(ctx context.Context, fn func(ctx context.Context, sender *amqp.Sender, generation int) error) error {
+	opCtx, cancel := r.untilClosed(ctx)
+	defer cancel()
+	snd, currGen, err := r.getSender(opCtx)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
-	if err := fn(snd, currGen); err != nil {
+	if err := fn(opCtx, snd, currGen); err != nil {
 		return r.handleError(ctx, currGen, err)
 	}
 	return nil
@@ -426,7 +431,7 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	if rcv != nil {
 		return rcv, gen, nil
 	}
-	ctx, finish, err := r.startAttach(ctx)
+	finish, err := r.startAttach(ctx)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -465,7 +470,7 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	if snd != nil {
 		return snd, gen, nil
 	}
-	ctx, finish, err := r.startAttach(ctx)
+	finish, err := r.startAttach(ctx)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -500,7 +505,7 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 	for {
 		var result *amqp.Message
-		err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
+		err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, _ int) error {
 			msg, err := rcv.Receive(ctx, nil)
 			if err != nil {
 				return fmt.Errorf("receive error: %w", err)
@@ -519,7 +524,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		acceptErr  error
 		generation int
 	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, gen int) error {
+	err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, gen int) error {
 		generation = gen
 		acceptErr = rcv.AcceptMessage(ctx, msg)
 		// accepting messages is a stateful operation, so don't report the error back
@@ -537,7 +542,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	var generation int
-	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
+	err := r.withSender(ctx, func(ctx context.Context, snd *amqp.Sender, gen int) error {
 		generation = gen
 		err := snd.Send(ctx, msg, nil)
 		if err != nil {
-- 
2.43.0


From dad320f13667a09beb6da0cc54815b18c541a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 29/63] fix: pass type and source of accumulated records to the
 key function

---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index da9e70b..c235eac 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	exemplar := Entry{Meta: Metadata{Source: source}, Record: partial}
+	if partial != nil {
+		exemplar.TypeMeta = partial.GetTypeMeta()
+	}
+	key, err := c.keyFunc(exemplar)
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From 750d6fc1287767be5e9d265d5dc4ad8dc0a77438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 30/63] fix: encode times beyond the year 9999 as JSON

---
 base.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/base.go b/base.go
index 05f319f..290ae6e 100644
--- a/base.go
+++ b/base.go
@@ -3,6 +3,7 @@ package vanflow
 import (
 	"fmt"
 	"math"
+	"strconv"
 	"time"
 
 	"github.com/c-kruse/vanflow/encoding"
@@ -53,6 +54,23 @@ type Time struct {
 	time.Time
 }
 
+// MarshalJSON encodes times RFC 3339 cannot represent as microseconds since
+// epoch instead.
+func (t Time) MarshalJSON() ([]byte, error) {
+	if year := t.Time.Year(); year < 0 || year > 9999 {
+		return strconv.AppendInt(nil, t.Time.UnixMicro(), 10), nil
+	}
+	return t.Time.MarshalJSON()
+}
+
+func (t *Time) UnmarshalJSON(data []byte) error {
+	if ts, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		t.Time = time.UnixMicro(ts)
+		return nil
+	}
+	return t.Time.UnmarshalJSON(data)
+}
+
 func (t Time) EncodeRecordAttribute() (any, error) {
 	if t.Time.IsZero() {
 		return nil, encoding.ErrAttributeNotSet
-- 
2.43.0


From 5f64e6174f7a6ba48e2d67f2f00081a7dda80ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 31/63] fix: end the connections of forgotten sources in
 vanflow-tool serve

---
 cmd/vanflow-tool/serve.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 55db735..5a26f4e 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -119,9 +119,12 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		slog.Error("container session error", slog.Any("error", err))
 	})
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	watches := map[string]context.CancelFunc{} // handlers are called sequentially
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", slog.Any("source", source))
+			ctx, cancel := context.WithCancel(ctx)
+			watches[source.ID] = cancel
 			ctr := factory.Create()
 			ctr.Start(ctx)
 			ctr.OnSessionError(func(err error) {
@@ -131,6 +134,7 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 			err := discovery.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
 			if err != nil {
 				slog.Error("discovery error", slog.Any("error", err))
+				cancel()
 				return
 			}
 
@@ -177,6 +181,10 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", slog.Any("source", source))
+			if cancel, ok := watches[source.ID]; ok {
+				delete(watches, source.ID)
+				cancel()
+			}
 			sources.Delete(source.ID)
 		},
 	})
-- 
2.43.0


From bc69f201418a98df766083172814b8f3df28685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 32/63] fix: end the connections of forgotten sources in
 vanflow-tool log

---
 cmd/vanflow-tool/log.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 9df3dbe..c72c983 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -53,15 +53,19 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 	})
 
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	watches := map[string]context.CancelFunc{} // handlers are called sequentially
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", "source", source)
+			ctx, cancel := context.WithCancel(ctx)
+			watches[source.ID] = cancel
 			ctr := factory.Create()
 			ctr.Start(ctx)
 			client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
 			err := discovery.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
 			if err != nil {
 				slog.Error("discovery error", "error", err)
+				cancel()
 				return
 			}
 			if EnableHeartbeat {
@@ -106,6 +110,10 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", "source", source)
+			if cancel, ok := watches[source.ID]; ok {
+				delete(watches, source.ID)
+				cancel()
+			}
 		},
 	})
 	enc := json.NewEncoder(os.Stdout)
-- 
2.43.0


From 797c826e28b3a3df1be0cfe98da8cf82e648cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 33/63] fix: end the connections of replaced fixtures

---
 cmd/vanflow-tool/fixture.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..cbd6b68 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -104,7 +104,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
 					container := f.factory.Create()
-					container.Start(ctx)
+					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
 						if _, ok := err.(session.RetryableError); !ok {
 							slog.Error("manager container non-retryable container error", slog.Any("error", err), slog.String("manager", src.Name))
-- 
2.43.0


From eb3feb19468e59033092b95f050f80231135ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 34/63] fix: data race on the source of a fixture error

---
 cmd/vanflow-tool/fixture.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index cbd6b68..a43d727 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -103,6 +103,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				defer manageCancel()
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
+					src := src
 					container := f.factory.Create()
 					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
-- 
2.43.0


From 232982020ff64ea5e413aeb5c2650476c10fdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 35/63] fix: skip fixture records without identity

---
 cmd/vanflow-tool/fixture.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index a43d727..7925cda 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -384,6 +384,10 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 			TypeMeta: partial.TypeMeta,
 			Record:   record.(vanflow.Record),
 		}
+		if entry.Record.Identity() == "" {
+			slog.Warn("ignoring record without identity", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
+			continue
+		}
 		entries[src] = append(entries[src], entry)
 	}
 	return entries
-- 
2.43.0


From c272c62a250a80f8b7d2f020dd6958035f37e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 36/63] fix: leave fixture flows without their counterflow out
 of the flow pairs

---
 cmd/vanflow-tool/fixture.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 7925cda..320ba0b 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -214,9 +214,13 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	var flowPairs []flowPair
 	for serverID, clientID := range flowPairsIDs {
+		client, ok := flowEntries[clientID]
+		if !ok {
+			continue
+		}
 		flowPairs = append(flowPairs, flowPair{
 			Server: flowEntries[serverID],
-			Client: flowEntries[clientID],
+			Client: client,
 		})
 	}
 	if r.Method == http.MethodPost {
-- 
2.43.0


From 1706377d26e838e3f04c64b2f43d805358eb7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 37/63] fix: return after failing to query the fixture flows

---
 cmd/vanflow-tool/fixture.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 320ba0b..da03f11 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -203,6 +203,7 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		if err != nil {
 			slog.Error("error querying flow records", slog.Any("error", err))
 			rw.WriteHeader(http.StatusInternalServerError)
+			return
 		}
 		for _, result := range result.Entries {
 			f := result.Record.(*vanflow.FlowRecord)
-- 
2.43.0


From a35e81c7f64e0aafa04a9b10649f05b2fad9aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 38/63] fix: read flow requests before locking the fixture

---
 cmd/vanflow-tool/fixture.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index da03f11..07134ae 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -190,6 +190,23 @@ type flowPair struct {
 }
 
 func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
+	var request struct {
+		Flows    int `json:"flows"`
+		Duration int `json:"duration"`
+	}
+	if r.Method == http.MethodPost {
+		defer r.Body.Close()
+		if err := json.NewDecoder(r.Body).Decode(&request); err != nil {
+			rw.WriteHeader(http.StatusBadRequest)
+			fmt.Fprintf(rw, "Bad request: %s\n", err)
+			fmt.Fprintln(rw, "")
+			fmt.Fprintln(rw, "expected:")
+			request.Flows = 100
+			request.Duration = 3
+			json.NewEncoder(rw).Encode(request)
+			return
+		}
+	}
 	stores := map[string]store.Interface{}
 	f.lock.Lock()
 	defer f.lock.Unlock()
@@ -225,22 +242,6 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		})
 	}
 	if r.Method == http.MethodPost {
-		var request struct {
-			Flows    int `json:"flows"`
-			Duration int `json:"duration"`
-		}
-		defer r.Body.Close()
-		if err := json.NewDecoder(r.Body).Decode(&request); err != nil {
-			rw.WriteHeader(http.StatusBadRequest)
-			fmt.Fprintf(rw, "Bad request: %s\n", err)
-			fmt.Fprintln(rw, "")
-			fmt.Fprintln(rw, "expected:")
-			request.Flows = 100
-			request.Duration = 3
-			json.NewEncoder(rw).Encode(request)
-			return
-		}
-
 		for _, pair := range flowPairs {
 			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
-- 
2.43.0


From 8682b51759f2bda3bee4e94dbf454a61a47400ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 39/63] fix: refuse flow requests with an impossible number of
 flows

---
 cmd/vanflow-tool/fixture.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 07134ae..6b5ecb7 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -184,6 +184,9 @@ func (f *fixtureServer) ServeFixture(rw http.ResponseWriter, r *http.Request) {
 	enc.Encode(response)
 }
 
+// maxFixtureFlows limits the flows of a request, which are held in memory
+const maxFixtureFlows = 1000000
+
 type flowPair struct {
 	Server store.Entry
 	Client store.Entry
@@ -206,6 +209,11 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 			json.NewEncoder(rw).Encode(request)
 			return
 		}
+		if request.Flows < 0 || request.Flows > maxFixtureFlows {
+			rw.WriteHeader(http.StatusBadRequest)
+			fmt.Fprintf(rw, "Bad request: flows must be between 0 and %d\n", maxFixtureFlows)
+			return
+		}
 	}
 	stores := map[string]store.Interface{}
 	f.lock.Lock()
-- 
2.43.0


From e50f9dd653c6e987fd66bf9d067efddeff7a4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 40/63] fix: answer fixture requests that wait when the server
 shuts down

---
 cmd/vanflow-tool/fixture.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 6b5ecb7..53e8d28 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -29,6 +29,7 @@ func serveFixture(ctx context.Context, factory session.ContainerFactory) {
 		factory: factory,
 		status:  "pending fixture data",
 		updates: make(chan map[store.SourceRef]store.Interface),
+		done:    ctx.Done(),
 	}
 
 	mux := &http.ServeMux{}
@@ -76,6 +77,7 @@ type fixtureServer struct {
 	flowsProcessed int
 
 	updates chan map[store.SourceRef]store.Interface
+	done    <-chan struct{}
 }
 
 func (f *fixtureServer) Start(ctx context.Context) {
@@ -180,7 +182,14 @@ func (f *fixtureServer) ServeFixture(rw http.ResponseWriter, r *http.Request) {
 		}
 		sourceStores[src] = stor
 	}
-	f.updates <- sourceStores
+	select {
+	case f.updates <- sourceStores:
+	case <-f.done:
+		rw.WriteHeader(http.StatusServiceUnavailable)
+		response.Error = "shutting down"
+	case <-r.Context().Done():
+		return
+	}
 	enc.Encode(response)
 }
 
-- 
2.43.0


From b81ec76f30f318aeb9a78ebac65d6a32004fe8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 41/63] fix: report when vancap cannot delete its deployment

---
 vancap/main.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 1d49559..3c4f624 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -93,11 +94,11 @@ type Vancap struct {
 	Namespace   string
 }
 
-func (v Vancap) Run(ctx context.Context) error {
+func (v Vancap) Run(ctx context.Context) (err error) {
 	deploymentsClient := v.Client.AppsV1().Deployments(v.Namespace)
 	podsClient := v.Client.CoreV1().Pods(v.Namespace)
 
-	_, err := deploymentsClient.Get(ctx, "skupper-router", metav1.GetOptions{})
+	_, err = deploymentsClient.Get(ctx, "skupper-router", metav1.GetOptions{})
 	if err != nil {
 		return fmt.Errorf("skupper not installed in namespace %q: %s", v.Namespace, err)
 	}
@@ -167,8 +168,9 @@ func (v Vancap) Run(ctx context.Context) error {
 	defer func() {
 		cleanupCtx, cancel := context.WithTimeout(context.Background(), time.Second*3)
 		defer cancel()
-		if err := deploymentsClient.Delete(cleanupCtx, deployment.Name, metav1.DeleteOptions{}); err != nil {
-			slog.Error("error cleaning up deployment", slog.String("name", deployment.Name), slog.Any("error", err))
+		if cleanupErr := deploymentsClient.Delete(cleanupCtx, deployment.Name, metav1.DeleteOptions{}); cleanupErr != nil {
+			slog.Error("error cleaning up deployment", slog.String("name", deployment.Name), slog.Any("error", cleanupErr))
+			err = errors.Join(err, fmt.Errorf("error deleting deployment %q: %s", deployment.Name, cleanupErr))
 			return
 		}
 		slog.Info("deployment deleted.", slog.String("name", deployment.Name))
-- 
2.43.0


From 64ee4df7883cfe9375c8fad182afbb6e5de01925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 42/63] fix: fail the capture when the deployment does not
 become ready

---
 vancap/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 3c4f624..4b208e4 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -178,7 +178,7 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 
 	b := backoff.WithContext(backoff.NewExponentialBackOff(), ctx)
 	var dep *appsv1.Deployment
-	backoff.RetryNotify(func() error {
+	err = backoff.RetryNotify(func() error {
 		dep, err = deploymentsClient.Get(ctx, deployment.Name, metav1.GetOptions{})
 		if err != nil {
 			return fmt.Errorf("deployment not found: %v", err)
@@ -190,6 +190,9 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 	}, b, func(err error, d time.Duration) {
 		slog.Debug("deployment not ready", slog.String("delay", d.String()), slog.Any("error", err))
 	})
+	if err != nil {
+		return fmt.Errorf("deployment did not become ready: %w", err)
+	}
 	slog.Debug("deployment ready.", slog.String("name", deployment.Name))
 
 	pods, err := podsClient.List(ctx, metav1.ListOptions{
-- 
2.43.0


From acdd4a72b1c92b2be3bf9b7a187704ab0848f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 43/63] fix: capture from a running pod of the deployment

---
 vancap/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 4b208e4..d2efd20 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -201,7 +201,17 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 	if err != nil {
 		return fmt.Errorf("failed to find deployment pod: %s", err)
 	}
-	first := pods.Items[0].Name
+	var first string
+	for _, pod := range pods.Items {
+		// pods of an earlier capture may still be terminating
+		if pod.DeletionTimestamp == nil && pod.Status.Phase == apiv1.PodRunning {
+			first = pod.Name
+			break
+		}
+	}
+	if first == "" {
+		return errors.New("failed to find deployment pod: no pod running")
+	}
 
 	slog.Info("deployment started. waiting for vanflow state to accumulate.", slog.String("delay", v.Duration.String()))
 	select {
-- 
2.43.0


From 772c774170df82903949fa8be51aedff81ad5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 44/63] fix: send the port forward request to the configured
 API server

---
 vancap/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index d2efd20..b232c2a 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -8,10 +8,8 @@ import (
 	"io"
 	"log/slog"
 	"net/http"
-	"net/url"
 	"os"
 	"os/signal"
-	"strings"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -227,10 +225,13 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 	}
 
 	path := fmt.Sprintf("/api/v1/namespaces/%s/pods/%s/portforward", v.Namespace, first)
-	hostIP := strings.TrimLeft(v.Restcfg.Host, "htps:/")
-	serverURL := url.URL{Scheme: "https", Path: path, Host: hostIP}
+	baseURL, _, err := rest.DefaultServerUrlFor(v.Restcfg)
+	if err != nil {
+		return fmt.Errorf("failed to determine API server address: %s", err)
+	}
+	serverURL := baseURL.JoinPath(path)
 
-	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, &serverURL)
+	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, serverURL)
 	stopChan, readyChan := make(chan struct{}, 1), make(chan struct{}, 1)
 	defer close(stopChan)
 	pOut, pErr := io.Discard, io.Discard
-- 
2.43.0


From 77b34726d0a0a5e623295d98dfd69e98faf86ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 45/63] fix: do not share the error of the port forward between
 goroutines

---
 vancap/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index b232c2a..993a098 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -245,7 +245,7 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 	forwardErr := make(chan error, 1)
 	go func() {
 		slog.Debug("starting port forward to capture vanflow state")
-		if err = forwarder.ForwardPorts(); err != nil {
+		if err := forwarder.ForwardPorts(); err != nil {
 			forwardErr <- err
 		}
 	}()
-- 
2.43.0


From 2ad30653a8a84779a3eaf18f21f97c4f0f71f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 46/63] fix: fail the capture when the collector answers with
 an error

---
 vancap/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vancap/main.go b/vancap/main.go
index 993a098..185bfc7 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -269,6 +269,9 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 		return fmt.Errorf("error requesting vanflow capture: %s", err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("error requesting vanflow capture: unexpected status %q", resp.Status)
+	}
 
 	slog.Debug("writing capture file", slog.String("name", v.Destination))
 	fLen, err := io.Copy(f, resp.Body)
-- 
2.43.0


From 725337c372fa6417459f53ce2f7bdde1a915622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 47/63] fix: do not capture from another server on the local
 port

---
 vancap/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 185bfc7..0461b80 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -238,7 +238,7 @@ func (v Vancap) Run(ctx context.Context) (err error) {
 	if Debug {
 		pOut, pErr = os.Stdout, os.Stderr
 	}
-	forwarder, err := portforward.New(dialer, []string{"9090"}, stopChan, readyChan, pOut, pErr)
+	forwarder, err := portforward.NewOnAddresses(dialer, []string{"127.0.0.1"}, []string{"9090"}, stopChan, readyChan, pOut, pErr)
 	if err != nil {
 		return fmt.Errorf("failed to create port forwarder: %s", err)
 	}
-- 
2.43.0


From 4f8065cf4e95ccfb8a70cc7cf9b583e842d10608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 48/63] fix: refuse to merge a partial record into a record of
 another type

---
 store/patcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/patcher.go b/store/patcher.go
index 70491d1..4b69229 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -36,6 +36,10 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	if err != nil {
 		return next, fmt.Errorf("error encoding incoming record for comparison: %w", err)
 	}
+	// a merge would lose the attributes the types do not have in common
+	if curr, next := entry.Record.GetTypeMeta(), p.Record.GetTypeMeta(); curr != next {
+		return Entry{}, fmt.Errorf("cannot merge %s into the %s stored under its key", next, curr)
+	}
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-- 
2.43.0


From e6679d0d99bd79660bd3bd13c2dd4be7244171ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 49/63] fix: do not hold the fixture lock while writing a
 response

---
 cmd/vanflow-tool/fixture.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 53e8d28..c6eccf4 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -226,8 +226,9 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	stores := map[string]store.Interface{}
 	f.lock.Lock()
-	defer f.lock.Unlock()
-	for id, manager := range f.managers {
+	managers, flowsProcessed := f.managers, f.flowsProcessed
+	f.lock.Unlock()
+	for id, manager := range managers {
 		stores[id] = manager.Stores[0]
 	}
 	flowEntries := make(map[string]store.Entry)
@@ -260,7 +261,7 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	if r.Method == http.MethodPost {
 		for _, pair := range flowPairs {
-			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
+			go f.fakeFlow(pair, managers[pair.Server.Meta.Source.Name], managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
 	}
 	var response = struct {
@@ -268,7 +269,7 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		FlowsReplayed int        `json:"fixtureFlowsResent"`
 	}{
 		FlowPairs:     flowPairs,
-		FlowsReplayed: f.flowsProcessed,
+		FlowsReplayed: flowsProcessed,
 	}
 	if err := json.NewEncoder(rw).Encode(response); err != nil {
 		slog.Error("error writing response", slog.Any("error", err))
-- 
2.43.0


From 4cf97d71122c56de65198ca6a841a1342c018e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 50/63] fix: refuse a CA file without certificates

---
 cmd/vanflow-tool/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index af34975..116032e 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -170,7 +170,9 @@ func (c tlsConfig) Parse() (*tls.Config, error) {
 		if err != nil {
 			return nil, err
 		}
-		certPool.AppendCertsFromPEM(file)
+		if !certPool.AppendCertsFromPEM(file) {
+			return nil, fmt.Errorf("no CA certificate found in %s", c.CA)
+		}
 		config.RootCAs = certPool
 		config.InsecureSkipVerify = false
 	}
-- 
2.43.0


From e92663e633b8693ed77519a4f0d06063b1e2a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 51/63] fix: refuse a server address that can never be
 connected to

---
 cmd/vanflow-tool/main.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index 116032e..9cbc76b 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -8,6 +8,7 @@ import (
 	"flag"
 	"fmt"
 	"log/slog"
+	"net/url"
 	"os"
 	"os/signal"
 	"time"
@@ -115,6 +116,12 @@ func main() {
 		}
 	}
 
+	if err := checkServer(connURL); err != nil {
+		fmt.Printf("error: cannot connect to AMQP server %q: %s\n", connURL, err)
+		flags.Usage()
+		os.Exit(1)
+	}
+
 	var sasl session.SASLType
 	if tlsCfg != nil {
 		sasl = session.SASLTypeExternal
@@ -147,6 +154,23 @@ func main() {
 	cmdHandler(ctx, factory)
 }
 
+// checkServer returns an error when the address can never be connected to.
+func checkServer(address string) error {
+	u, err := url.Parse(address)
+	if err != nil {
+		return err
+	}
+	switch u.Scheme {
+	case "", "amqp", "amqps", "amqp+ssl":
+	default:
+		return fmt.Errorf("unsupported scheme %q", u.Scheme)
+	}
+	if u.Host == "" {
+		return fmt.Errorf("no host")
+	}
+	return nil
+}
+
 type tlsConfig struct {
 	CA     string `json:"ca,omitempty"`
 	Cert   string `json:"cert,omitempty"`
-- 
2.43.0


From 36ffbe4bc96719004067dc93049da14a14503514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 52/63] fix: use the CA from the flags without a client
 certificate too

---
 cmd/vanflow-tool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index 9cbc76b..6ee4615 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -101,7 +101,7 @@ func main() {
 		connURL = fmt.Sprintf("%s://%s:%s", cfg.Scheme, cfg.Host, cfg.Port)
 	}
 
-	if TLSCert != "" {
+	if TLSCert != "" || TLSCACert != "" {
 		var err error
 		tlsCfg, err = tlsConfig{
 			CA:     TLSCACert,
-- 
2.43.0


From 7cbe2fe3dd655aa24d748b22dc855b48d8c905c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 53/63] fix: refuse record fields with the code of the record
 type

---
 encoding/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 24ee817..9f88bde 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -121,6 +121,9 @@ func parseFieldOpts(f reflect.StructField) (field, bool) {
 	if err != nil {
 		panic(fmt.Sprintf("vflow struct tag parse error for field %s: %s", f.Name, err))
 	}
+	if uint32(code) == typeOfRecord {
+		panic(fmt.Sprintf("vflow struct tag error for field %s: code %d is used for the record type", f.Name, code))
+	}
 	opts.Codepoint = uint32(code)
 	switch suffix := sOpt; suffix {
 	case "required":
-- 
2.43.0


From 7ff3cf59e283c54fe2d21c647066fc0923839e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 54/63] fix: encode fields of defined string and number types

---
 encoding/decoder.go |  4 ++--
 encoding/encoder.go | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 346d0df..1fbded4 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -100,10 +100,10 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 	if !attrV.IsValid() {
 		return fmt.Errorf("cannot assign nil attribute")
 	}
-	if !v.Type().AssignableTo(attrV.Type()) {
+	if attrV.Type() != rawTypes[v.Kind()] {
 		return fmt.Errorf("cannot assign value to type")
 	}
-	v.Set(attrV)
+	v.Set(attrV.Convert(v.Type()))
 	return nil
 }
 
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 0db9738..33555f2 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -87,6 +87,16 @@ func getFieldEncoder(t reflect.Type) (fieldEncoder, error) {
 	}
 }
 
+// rawTypes are the types of the attributes by the kind of their fields, which
+// may be of a defined type.
+var rawTypes = map[reflect.Kind]reflect.Type{
+	reflect.String: reflect.TypeOf(""),
+	reflect.Uint64: reflect.TypeOf(uint64(0)),
+	reflect.Int64:  reflect.TypeOf(int64(0)),
+	reflect.Uint32: reflect.TypeOf(uint32(0)),
+	reflect.Int32:  reflect.TypeOf(int32(0)),
+}
+
 type rawFieldEncoder struct {
 	zeroIsSet bool // encode zero values instead of leaving them out
 }
@@ -95,7 +105,7 @@ func (e rawFieldEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsZero() && !e.zeroIsSet {
 		return nil, ErrAttributeNotSet
 	}
-	return v.Interface(), nil
+	return v.Convert(rawTypes[v.Kind()]).Interface(), nil
 }
 
 type pointerEncoder struct {
-- 
2.43.0


From b09568c7ddf9f94c219f86a7119cd502950bbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:37 +0000
Subject: [PATCH 55/63] fix: refuse records with a required field that encodes
 to nothing

---
 encoding/encoding.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9f88bde..224dff1 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -153,9 +153,13 @@ func (e typeEncoding) encode(root reflect.Value) (RecordAttributeSet, error) {
 			}
 			return attributeSet, fmt.Errorf("error encoding field %q: %w", field.Name, err)
 		}
-		if out != nil {
-			attributeSet[field.Codepoint] = out
+		if out == nil {
+			if field.Identity {
+				return attributeSet, fmt.Errorf("missing or empty required field %s", field.Name)
+			}
+			continue
 		}
+		attributeSet[field.Codepoint] = out
 	}
 	return attributeSet, nil
 }
-- 
2.43.0


From 0a962e5b4327cbaa5e75a0fadb47cb32930aab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 56/63] fix: do not call attribute encoders and decoders with
 the registry locked

---
 encoding/decoder.go |  2 +-
 encoding/encoder.go | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 1fbded4..3337195 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -34,8 +34,8 @@ func Decode(recordset RecordAttributeSet) (interface{}, error) {
 	}
 
 	mu.RLock()
-	defer mu.RUnlock()
 	encoding, ok := decodings[codepoint]
+	mu.RUnlock()
 	if !ok {
 		return nil, fmt.Errorf("decode error: unknown record type for %d", recordTypeCode)
 	}
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 33555f2..a9e3a5e 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -34,14 +34,12 @@ type RecordAttributeEncoder interface {
 // vanflow protocol. Only records types that have been registered with
 // MustRegisterRecord can be encoded.
 func Encode(record any) (RecordAttributeSet, error) {
-	mu.RLock()
-	defer mu.RUnlock()
 	if record == nil {
 		return nil, errors.New("cannot encode nil record")
 	}
 	recordV := reflect.ValueOf(record)
 	recordT := recordV.Type()
-	encoding, ok := encodings[recordT]
+	encoding, ok := encodingFor(recordT)
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
 			if recordV.IsNil() {
@@ -49,7 +47,7 @@ func Encode(record any) (RecordAttributeSet, error) {
 			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
-			encoding, ok = encodings[recordT]
+			encoding, ok = encodingFor(recordT)
 		}
 		if !ok {
 			return nil, fmt.Errorf("encode error: unregistered record type %T", record)
@@ -62,6 +60,13 @@ func Encode(record any) (RecordAttributeSet, error) {
 	return result, err
 }
 
+func encodingFor(t reflect.Type) (*typeEncoding, bool) {
+	mu.RLock()
+	defer mu.RUnlock()
+	encoding, ok := encodings[t]
+	return encoding, ok
+}
+
 type fieldEncoder interface {
 	encode(v reflect.Value) (interface{}, error)
 }
-- 
2.43.0


From e4579031736aa01fc155b3bf76f3a4a65f3d7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 57/63] fix: compare record attributes that are not comparable
 with ==

---
 eventsource/manager.go | 3 ++-
 store/patcher.go       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index bc91c08..2776c40 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"log/slog"
 	"math"
+	"reflect"
 	"sync"
 	"time"
 
@@ -155,7 +156,7 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 			delta[k] = next[k]
 			continue
 		}
-		if next[k] != pv {
+		if !reflect.DeepEqual(next[k], pv) {
 			isDiff = true
 			delta[k] = next[k]
 		}
diff --git a/store/patcher.go b/store/patcher.go
index 4b69229..0fc7f9c 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -2,6 +2,7 @@ package store
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/c-kruse/vanflow"
@@ -43,7 +44,7 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-		if !ok || cV != nV {
+		if !ok || !reflect.DeepEqual(cV, nV) {
 			changed = true
 			currAttrs[nK] = nV
 		}
-- 
2.43.0


From 43d69e4c441121ecceba6ac2a778531ceac65414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:57 +0000
Subject: [PATCH 58/63] fix: send updates of record types that require other
 attributes than the identity

---
 eventsource/manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 2776c40..3483885 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -170,8 +170,8 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	}
 	deltaRecord, err := encoding.Decode(delta)
 	if err != nil {
-		slog.Error("record update diff error decoding delta", slog.Any("error", err))
-		return nil, false
+		// the type requires more than its identity to be set
+		return d.Curr, true
 	}
 	return deltaRecord.(vanflow.Record), true
 }
-- 
2.43.0


From 4614aea7dad6d4d2c492d96204fd2a4d45a39914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 59/63] fix: refuse entries without a record instead of
 panicking

---
 store/cache.go   | 3 +++
 store/patcher.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/store/cache.go b/store/cache.go
index c235eac..f6e40c0 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -255,6 +255,9 @@ func (c *objectCache) Replace(_ context.Context, entries []Entry) error {
 }
 
 func keyByRecordID(obj Entry) (string, error) {
+	if obj.Record == nil {
+		return "", errors.New("entry without record")
+	}
 	return obj.Record.Identity(), nil
 }
 
diff --git a/store/patcher.go b/store/patcher.go
index 0fc7f9c..960dbba 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -18,6 +18,9 @@ type recordPatcher struct {
 }
 
 func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
+	if p.Record == nil {
+		return next, fmt.Errorf("cannot accumulate a nil record")
+	}
 	if curr == nil {
 		return Entry{
 			Record: p.Record,
-- 
2.43.0


From db041f37539c95c32762b4ca319ef2483f70a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 60/63] fix: do not share the annotations of stored entries
 with callers

---
 store/cache.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/store/cache.go b/store/cache.go
index f6e40c0..7933c2f 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"maps"
 	"sort"
 	"strings"
 	"time"
@@ -93,9 +94,9 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
-		c.eventHandlers.OnChange(*d.Prev, d.Next)
+		c.eventHandlers.OnChange(copyOf(*d.Prev), copyOf(d.Next))
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
-		c.eventHandlers.OnAdd(d.Next)
+		c.eventHandlers.OnAdd(copyOf(d.Next))
 	}
 	return nil
 }
@@ -108,7 +109,7 @@ func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, e
 	cc, ok := c.storage.Get(key)
 	if ok {
 		result.Found = true
-		result.Entry = cc.Resource
+		result.Entry = copyOf(cc.Resource)
 		result.ETag = getETag(cc)
 	}
 	return result, nil
@@ -155,7 +156,7 @@ func (c *objectCache) List(ctx context.Context, opts *Selector) (Set, error) {
 	all := c.storage.List()
 	result.Entries = make([]Entry, len(all))
 	for i := range all {
-		result.Entries[i] = all[i].Resource
+		result.Entries[i] = copyOf(all[i].Resource)
 	}
 	if opts != nil {
 		return c.applySelector(result, *opts)
@@ -175,7 +176,7 @@ func (c *objectCache) Index(ctx context.Context, idx string, obj Entry, opts *Se
 	}
 	result.Entries = make([]Entry, len(all))
 	for i := range all {
-		result.Entries[i] = all[i].Resource
+		result.Entries[i] = copyOf(all[i].Resource)
 	}
 	if opts != nil {
 		return c.applySelector(result, *opts)
@@ -188,13 +189,14 @@ func (c *objectCache) Add(ctx context.Context, obj Entry) error {
 	if err != nil {
 		return fmt.Errorf("error getting key for add: %w", err)
 	}
+	obj = copyOf(obj)
 	obj.Meta.UpdatedAt = time.Now()
 	d, err := c.storage.Update(key, obj, internal.WhenNotExists[Entry]())
 	if err != nil {
 		return err
 	}
 	if c.eventHandlers.OnAdd != nil {
-		c.eventHandlers.OnAdd(d.Next)
+		c.eventHandlers.OnAdd(copyOf(d.Next))
 	}
 	return err
 }
@@ -204,6 +206,7 @@ func (c *objectCache) Update(ctx context.Context, obj Entry) error {
 	if err != nil {
 		return fmt.Errorf("error getting key for update: %w", err)
 	}
+	obj = copyOf(obj)
 	obj.Meta.UpdatedAt = time.Now()
 
 	cond, err := getConditional(ctx)
@@ -222,9 +225,9 @@ func (c *objectCache) Update(ctx context.Context, obj Entry) error {
 		return err
 	}
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
-		c.eventHandlers.OnChange(*d.Prev, d.Next)
+		c.eventHandlers.OnChange(copyOf(*d.Prev), copyOf(d.Next))
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
-		c.eventHandlers.OnAdd(d.Next)
+		c.eventHandlers.OnAdd(copyOf(d.Next))
 	}
 	return nil
 }
@@ -248,12 +251,19 @@ func (c *objectCache) Replace(_ context.Context, entries []Entry) error {
 		if err != nil {
 			return fmt.Errorf("error getting key for replace: %w", err)
 		}
-		items[key] = obj
+		items[key] = copyOf(obj)
 	}
 	c.storage.Replace(items)
 	return nil
 }
 
+// copyOf an entry that does not share its annotations, so that changing these
+// does not change an entry in the store.
+func copyOf(entry Entry) Entry {
+	entry.Meta.Annotations = maps.Clone(entry.Meta.Annotations)
+	return entry
+}
+
 func keyByRecordID(obj Entry) (string, error) {
 	if obj.Record == nil {
 		return "", errors.New("entry without record")
-- 
2.43.0


From a3b1c574d744eae236bc62048cdb5e64f562d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:47 +0000
Subject: [PATCH 61/63] fix: do not wrap receiver credit that exceeds the
 protocol's range

---
 session/container.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index fcbe900..afccd17 100644
--- a/session/container.go
+++ b/session/container.go
@@ -9,6 +9,7 @@ import (
 	"crypto/tls"
 	"errors"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -22,7 +23,9 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit > 0 {
+	if o.Credit > math.MaxInt32 {
+		result.Credit = math.MaxInt32
+	} else if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From 580cc9626facfcb3086dd95b5e9dc23126ffe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:08 +0000
Subject: [PATCH 62/63] fix: deliver discovery events that a previous Run left
 pending

---
 eventsource/discovery.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index 46e8b85..e3a24e9 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -85,6 +85,8 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 }
 
 func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandlers) {
+	// leave pending events to the next Run
+	defer d.notifyHandlers()
 	for {
 		select {
 		case <-ctx.Done():
@@ -121,6 +123,10 @@ func (d *Discovery) nextEvent() (event discoveryEvent, ok bool) {
 // held.
 func (d *Discovery) queueEvent(event discoveryEvent) {
 	d.events = append(d.events, event)
+	d.notifyHandlers()
+}
+
+func (d *Discovery) notifyHandlers() {
 	select {
 	case d.notify <- struct{}{}:
 	default:
-- 
2.43.0


From 54f8dc10184a43e49a34f9085b8b841ef0a989ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:33 +0000
Subject: [PATCH 63/63] fix: impersonate a source captured in several versions
 once, with all its records

---
 cmd/vanflow-tool/fixture.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index c6eccf4..617c539 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -391,6 +391,7 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 	}
 
 	entries := map[store.SourceRef][]store.Entry{}
+	sources := map[string]store.SourceRef{}
 	for _, partial := range request.Data {
 		src := partial.Meta.Source
 		rtype, ok := recordTypeMap[partial.TypeMeta]
@@ -412,6 +413,11 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 			slog.Warn("ignoring record without identity", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
 			continue
 		}
+		// a source that was captured in several versions is one source
+		if first, ok := sources[src.Name]; ok {
+			src = first
+		}
+		sources[src.Name] = src
 		entries[src] = append(entries[src], entry)
 	}
 	return entries
-- 
2.43.0

