From 338b0a94e8b92489bd84011b8cf2a6c92b92cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 01/59] fix: answer an invocation whose method panics with one
 completion only

---
 loop.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/loop.go b/loop.go
index 3d413d0..8dd9518 100644
--- a/loop.go
+++ b/loop.go
@@ -215,16 +215,20 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		} else {
 			// hub method might take a long time
 			go func() {
-				result := func() []reflect.Value {
-					defer l.recoverInvocationPanic(invocation)
-					return method.Call(in)
-				}()
-				l.returnInvocationResult(invocation, result)
+				if result, ok := l.callMethod(method, in, invocation); ok {
+					l.returnInvocationResult(invocation, result)
+				}
 			}()
 		}
 	}
 }
 
+// callMethod returns ok == false when the method panicked. The panic is then already reported to the caller.
+func (l *loop) callMethod(method reflect.Value, in []reflect.Value, invocation invocationMessage) (result []reflect.Value, ok bool) {
+	defer l.recoverInvocationPanic(invocation)
+	return method.Call(in), true
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
@@ -338,6 +342,10 @@ func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
 				stack = ""
 			}
 			_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("%v\n%v", err, stack))
+			// Nobody will read the upload streams of the invocation anymore
+			for _, streamID := range invocation.StreamIds {
+				_ = l.hubConn.Completion(streamID, nil, fmt.Sprintf("%v", err))
+			}
 		}
 	}
 }
-- 
2.43.0


From f96284ad7a0a99eebe6e3cc03e215693a3cdff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 02/59] fix: do not complete invocations which have no
 invocation id

---
 loop.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index 8dd9518..13e7d6a 100644
--- a/loop.go
+++ b/loop.go
@@ -201,16 +201,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.sendError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.sendError(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
+			l.sendError(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
@@ -321,6 +321,13 @@ func (l *loop) sendResult(invocation invocationMessage, connFunc connFunc, resul
 	}
 }
 
+// sendError completes the invocation with an error. Without an invocation id, the caller does not want a completion
+func (l *loop) sendError(invocation invocationMessage, errorText string) {
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+	}
+}
+
 type connFunc func(sl *loop, invocation invocationMessage, value interface{})
 
 func completion(sl *loop, invocation invocationMessage, value interface{}) {
-- 
2.43.0


From e21db62668b3e65f3d821e9112b18226bfee6e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 03/59] fix: answer an invocation with too few arguments and
 surplus StreamIds with an error instead of crashing

---
 loop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loop.go b/loop.go
index 13e7d6a..93927ea 100644
--- a/loop.go
+++ b/loop.go
@@ -376,6 +376,9 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			arguments[i] = arg
 		} else {
 			// it is not, so do the normal thing
+			if i-chanCount >= len(invocation.Arguments) {
+				return nil, fmt.Errorf("too many StreamIds calling method %v", invocation.Target)
+			}
 			arg := reflect.New(t)
 			if err := protocol.UnmarshalArgument(invocation.Arguments[i-chanCount], arg.Interface()); err != nil {
 				return arguments, err
-- 
2.43.0


From 9738488382d056538d85e785f1e31dde569838fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 04/59] fix: do not let the peer invoke the lifecycle methods
 of hubs and receivers

---
 loop.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 93927ea..53b8813 100644
--- a/loop.go
+++ b/loop.go
@@ -198,7 +198,8 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(invocation))
 	// Transient hub, dispatch invocation here
 	methodName := l.party.getMethodNameByAlternateName(invocation.Target)
-	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
+	target := l.party.invocationTarget(l.hubConn)
+	if method, ok := getMethod(target, methodName); !ok || isLifecycleMethod(target, methodName) {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
 		l.sendError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
@@ -407,6 +408,25 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 	return reflect.Value{}, false
 }
 
+// isLifecycleMethod tells if name is a method of target which is reserved for the party itself and not callable by the peer
+func isLifecycleMethod(target interface{}, name string) bool {
+	var t reflect.Type
+	switch target.(type) {
+	case HubInterface:
+		t = reflect.TypeFor[HubInterface]()
+	case ReceiverInterface:
+		t = reflect.TypeFor[ReceiverInterface]()
+	default:
+		return false
+	}
+	for i := 0; i < t.NumMethod(); i++ {
+		if strings.EqualFold(t.Method(i).Name, name) {
+			return true
+		}
+	}
+	return false
+}
+
 func fmtMsg(message interface{}) string {
 	switch msg := message.(type) {
 	case invocationMessage:
-- 
2.43.0


From 303997d5d005a78f8c200a28bb1f74f0af9d1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 05/59] fix: let ended streams and unknown ids not use up the
 number of stream cancellations

---
 loop.go     |  7 +++++++
 streamer.go | 22 ++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 53b8813..0d9e8c6 100644
--- a/loop.go
+++ b/loop.go
@@ -214,6 +214,9 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 			l.sendError(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
+			if invocation.Type == 4 && invocation.InvocationID != "" {
+				l.streamer.Announce(invocation.InvocationID)
+			}
 			// hub method might take a long time
 			go func() {
 				if result, ok := l.callMethod(method, in, invocation); ok {
@@ -257,6 +260,7 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 			case 1:
 				l.sendResult(invocation, completion, result)
 			case 4:
+				l.streamer.Forget(invocation.InvocationID)
 				// Stream invocation of method with no stream result.
 				// Return a single StreamItem and an empty Completion
 				l.sendResult(invocation, streamItem, result)
@@ -346,6 +350,9 @@ func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
 		stack := string(debug.Stack())
 		_ = l.dbg.Log(evt, "panic in target method", "error", err, "name", invocation.Target, react, "send completion with error", "stack", stack)
 		if invocation.InvocationID != "" {
+			if invocation.Type == 4 {
+				l.streamer.Forget(invocation.InvocationID)
+			}
 			if !l.party.enableDetailedErrors() {
 				stack = ""
 			}
diff --git a/streamer.go b/streamer.go
index faf8486..d21dd96 100644
--- a/streamer.go
+++ b/streamer.go
@@ -11,6 +11,22 @@ type streamer struct {
 	cancelCount int64 // atomic; tracks entries in cancels for the cap check
 	maxCancels  uint
 	conn        HubConnection
+	active      sync.Map // ids of the invocations which are, or might become, a running stream
+}
+
+// Announce has to be called before the method which might return the channel for Start is called.
+// Stop then works from now on, and a left over Stop from an earlier use of the id has no effect
+func (s *streamer) Announce(invocationID string) {
+	s.Forget(invocationID)
+	s.active.Store(invocationID, struct{}{})
+}
+
+// Forget has to be called before the completion for the invocationID is sent
+func (s *streamer) Forget(invocationID string) {
+	s.active.Delete(invocationID)
+	if _, loaded := s.cancels.LoadAndDelete(invocationID); loaded {
+		atomic.AddInt64(&s.cancelCount, -1)
+	}
 }
 
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
@@ -20,7 +36,7 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 			// Waits for channel, so might hang
 			if chanResult, ok := reflectedChannel.Recv(); ok {
 				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
+					s.Forget(invocationID)
 					_ = s.conn.Completion(invocationID, nil, "")
 					break loop
 				}
@@ -29,6 +45,7 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				}
 				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
 			} else {
+				s.Forget(invocationID)
 				if s.conn.Context().Err() == nil {
 					_ = s.conn.Completion(invocationID, nil, "")
 				}
@@ -39,7 +56,8 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 }
 
 func (s *streamer) Stop(invocationID string) {
-	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	// The cap is for ids nobody knows. A running stream can always be stopped
+	if _, active := s.active.Load(invocationID); !active && s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
-- 
2.43.0


From 464b4c016ce805c8f4f4d02807f400d8139ce6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 06/59] fix: end upload streams with the connection and free
 the streams of refused invocations

---
 loop.go         | 12 +++++++++++-
 streamclient.go | 21 ++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/loop.go b/loop.go
index 0d9e8c6..7d735e5 100644
--- a/loop.go
+++ b/loop.go
@@ -142,8 +142,10 @@ msgLoop:
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
+	// First Abort, so nobody can send anymore when all pending calls and streams are ended
 	l.hubConn.Abort()
+	l.streamClient.releaseAll()
+	l.invokeClient.cancelAllInvokes()
 	return err
 }
 
@@ -372,6 +374,14 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 	}
 	arguments = make([]reflect.Value, method.Type().NumIn())
 	chanCount := 0
+	defer func() {
+		if err != nil {
+			// Nobody will read the already created channels
+			for _, id := range invocation.StreamIds[:chanCount] {
+				streamClient.deleteUpstreamChannel(id)
+			}
+		}
+	}()
 	for i := 0; i < method.Type().NumIn(); i++ {
 		t := method.Type().In(i)
 		// Is it a channel for client streaming?
diff --git a/streamclient.go b/streamclient.go
index 1ee7781..7cf14c5 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -38,6 +38,9 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			return reflect.Value{}, true, fmt.Errorf("stream id %v is already in use", invocation.StreamIds[chanCount])
+		}
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
@@ -82,7 +85,7 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 }
 
 func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
+	done := make(chan error, 1)
 	go func() {
 		defer func() {
 			if r := recover(); r != nil {
@@ -122,8 +125,10 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 	if ok {
 		var err error
 		if completion.Error != "" {
-			// Push error to the error channel
-			err = invokeClient.receiveCompletionItem(completion)
+			// Push error to the error channel. Streams pushed by the peer have none
+			if invokeClient.handlesInvocationID(completion.InvocationID) {
+				err = invokeClient.receiveCompletionItem(completion)
+			}
 		} else {
 			if completion.Result != nil {
 				c.mx.Lock()
@@ -152,3 +157,13 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 	}
 	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
 }
+
+// releaseAll closes all channels. It has to be called when no more items can be received
+func (c *streamClient) releaseAll() {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	for id, channel := range c.upstreamChannels {
+		channel.Close()
+		delete(c.upstreamChannels, id)
+	}
+}
-- 
2.43.0


From 031f731a95e17c8d443a438334aaef0120ba1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 07/59] fix: never hand out the same invocation id twice

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 7d735e5..72a464d 100644
--- a/loop.go
+++ b/loop.go
@@ -192,8 +192,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From f100ff46e4c71858e859103ba03e82c0890b8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 08/59] fix: resolve a call with its result only, without an
 additional empty result

---
 invokeclient.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..2e23ad3 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -77,7 +77,7 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 	i.mx.Unlock()
 	if ok {
 		if completion.Error != "" {
-			done := make(chan struct{})
+			done := make(chan struct{}, 1)
 			go func() {
 				ir.errChan <- errors.New(completion.Error)
 				done <- struct{}{}
@@ -92,16 +92,12 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 		if completion.Result != nil {
 			var result interface{}
 			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+				ir.errChan <- err
 				return err
 			}
 			done := make(chan struct{})
 			go func() {
 				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
 				close(done)
 			}()
 			select {
-- 
2.43.0


From 211d4dd50593291939e409138d3049ffd0c2c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 09/59] fix: deliver stream items before the error which ends
 the stream and resolve calls pending at Stop with an error

---
 Invokeresult.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..c221e5d 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -20,6 +20,9 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 		for !resultChanClosed || !errChanClosed {
 			select {
 			case <-ctx.Done():
+				ch <- InvokeResult{
+					Error: ctx.Err(),
+				}
 				break loop
 			case value, ok := <-resultChan:
 				if !ok {
@@ -33,6 +36,21 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				if !ok {
 					errChanClosed = true
 				} else {
+					// Items sent before the error have to be delivered before the error
+					for buffered := true; buffered && !resultChanClosed; {
+						select {
+						case value, ok := <-resultChan:
+							if !ok {
+								resultChanClosed = true
+							} else {
+								ch <- InvokeResult{
+									Value: value,
+								}
+							}
+						default:
+							buffered = false
+						}
+					}
 					ch <- InvokeResult{
 						Error: err,
 					}
-- 
2.43.0


From 5fd82eb32e34a173a4626a5bcebab41bb76dc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 10/59] fix: let PushStreams accept nil arguments

---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 72a464d..24f50bd 100644
--- a/loop.go
+++ b/loop.go
@@ -171,7 +171,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if arg != nil && reflect.TypeOf(arg).Kind() == reflect.Chan {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0


From bdbf4873e7b1777e4dd4cb96fa5a032827bed4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 11/59] fix: handle each message on its own, regardless of
 which messages arrive together with it

---
 hubconnection.go          | 20 ++++++++++----------
 jsonhubprotocol.go        | 27 ++++++++++++++++-----------
 messagepackhubprotocol.go |  9 +++------
 3 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..6511970 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -142,6 +142,16 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				break loop
 			default:
 				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+				// The messages received before the error
+				for _, message := range messages {
+					select {
+					case recvChan <- receiveResult{message: message}:
+					case <-ctx.Done():
+						break loop
+					case <-writerDone:
+						break loop
+					}
+				}
 				if err != nil {
 					select {
 					case recvChan <- receiveResult{err: err}:
@@ -150,16 +160,6 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					case <-writerDone:
 						break loop
 					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
-					}
 				}
 			}
 		}
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..fbaf72d 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -66,21 +66,18 @@ func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) er
 
 // ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf
 func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) (messages []interface{}, err error) {
-	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
-	if err != nil {
-		return nil, err
-	}
-	message := hubMessage{}
+	frames, frameErr := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-			return nil, &jsonError{string(frame), err}
+			return messages, &jsonError{string(frame), err}
 		}
 		typedMessage, err := j.parseMessage(message.Type, frame)
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		// No specific type (aka Ping), use hubMessage
 		if typedMessage == nil {
@@ -88,7 +85,7 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 		}
 		messages = append(messages, typedMessage)
 	}
-	return messages, nil
+	return messages, frameErr
 }
 
 func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message interface{}, err error) {
@@ -155,6 +152,7 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 
 // readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
 // maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// The frames which are complete before an error occurs are returned together with the error.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
 	buf := &bytes.Buffer{}
@@ -168,13 +166,20 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 		}
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
 			frames, err := parseJSONFrames(buf)
 			if err != nil {
 				return nil, err
 			}
+			if maxSize > 0 {
+				for i, frame := range frames {
+					if len(frame) > maxSize {
+						return frames[:i], fmt.Errorf("JSON frame exceeded maximum receive message size %d", maxSize)
+					}
+				}
+				if buf.Len() > maxSize {
+					return frames, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+				}
+			}
 			if len(frames) > 0 {
 				_, _ = remainBuf.ReadFrom(buf)
 				return frames, nil
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..9ad7250 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -17,19 +17,16 @@ type messagePackHubProtocol struct {
 }
 
 func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) ([]interface{}, error) {
-	frames, err := m.readFrames(reader, remainBuf)
-	if err != nil {
-		return nil, err
-	}
+	frames, frameErr := m.readFrames(reader, remainBuf)
 	messages := make([]interface{}, 0)
 	for _, frame := range frames {
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		messages = append(messages, message)
 	}
-	return messages, nil
+	return messages, frameErr
 }
 
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-- 
2.43.0


From 3a7fb17a9be3b0641ebde8b35cba0874ca226aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 12/59] fix: do not spin forever when the connection ends
 before a complete frame arrived

---
 jsonhubprotocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index fbaf72d..847062c 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -160,7 +160,7 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	// Try getting data until at least one frame is available
 	for {
 		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
+		// Some reader implementations return io.EOF additionally to the last data
 		if err != nil && !errors.Is(err, io.EOF) {
 			return nil, err
 		}
@@ -185,6 +185,9 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 				return frames, nil
 			}
 		}
+		if err != nil {
+			return nil, err
+		}
 	}
 }
 
-- 
2.43.0


From ae5d1834559328f34132629d4e61aaa72f7761fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 13/59] fix: find MessagePack frames regardless of how they are
 split into reads

---
 messagepackhubprotocol.go | 83 +++++++++++++--------------------------
 1 file changed, 27 insertions(+), 56 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 9ad7250..c82f298 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -3,7 +3,6 @@ package signalr
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"fmt"
 	"io"
 
@@ -29,69 +28,41 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	return messages, frameErr
 }
 
+// readFrames reads until at least one frame is complete and leaves the remaining bytes in remainBuf.
+// The frames which are complete before an error occurs are returned together with the error.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
-			return nil, err
+		n, err := reader.Read(p)
+		_, _ = remainBuf.Write(p[:n])
+		frames, frameErr := m.takeFrames(remainBuf)
+		if len(frames) > 0 || frameErr != nil {
+			return frames, frameErr
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		if err != nil {
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
-		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
-			return frames, nil
+	}
+}
+
+// takeFrames removes all complete frames from buf
+func (m *messagePackHubProtocol) takeFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		frameLen, lenLen := binary.Uvarint(buf.Bytes())
+		if lenLen < 0 || lenLen == 0 && buf.Len() >= binary.MaxVarintLen32 {
+			return frames, fmt.Errorf("messagepack frame length to large")
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
+		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
+			return frames, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
 		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
+		if lenLen == 0 || uint64(buf.Len()-lenLen) < frameLen {
+			// Frame is not complete yet
+			return frames, nil
 		}
-		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				return frames, nil
-			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+		_ = buf.Next(lenLen)
+		if frameLen > 0 {
+			frames = append(frames, append([]byte(nil), buf.Next(int(frameLen))...))
 		}
 	}
 }
-- 
2.43.0


From a18f440027493f9f36a9f83e50178c76cd96fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 14/59] fix: do not crash on MessagePack headers, ids and map
 keys a malicious peer sends

---
 messagepackhubprotocol.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index c82f298..1269af0 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -84,10 +84,16 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	// Ignore Header for all messages, except ping message that has no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
 	if msgType != 6 {
-		_, err = decoder.DecodeMap()
+		// Do not allocate for a header length nobody knows to be true
+		headerLen, err := decoder.DecodeMapLen()
 		if err != nil {
 			return nil, err
 		}
+		for i := 0; i < 2*headerLen; i++ {
+			if err = decoder.Skip(); err != nil {
+				return nil, err
+			}
+		}
 	}
 	switch msgType {
 	case 1, 4:
@@ -217,18 +223,10 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-	rawID, err := decoder.DecodeInterface()
+	// It must be a string, but nil is ok and decoded as ""
+	invocationID, err := decoder.DecodeString()
 	if err != nil {
-		return "", err
-	}
-	// nil is ok
-	if rawID == nil {
-		return "", nil
-	}
-	// Otherwise, it must be string
-	invocationID, ok := rawID.(string)
-	if !ok {
-		return "", fmt.Errorf("invalid InvocationID %#v", rawID)
+		return "", fmt.Errorf("invalid InvocationID: %w", err)
 	}
 	return invocationID, nil
 }
@@ -377,7 +375,13 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	// The decoder panics when a map has keys which are not hashable
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid argument: %v", r)
+		}
+	}()
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
-- 
2.43.0


From 4d7bf88ae9b1e70f8a9be16d9a6054ad43e10dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 15/59] fix: do not lose the messages which arrive together
 with the handshake

---
 client.go          | 48 ++++++++++++++++++++++------------------------
 hubconnection.go   |  6 ++++--
 jsonhubprotocol.go | 14 ++++++++++++++
 loop.go            |  5 +++--
 server.go          | 35 ++++++++++++++++-----------------
 5 files changed, 61 insertions(+), 47 deletions(-)

diff --git a/client.go b/client.go
index 1baf2b7..d48c3e7 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -234,12 +233,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, c.conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -284,31 +283,31 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
+func (c *client) setupConnectionAndProtocol() (protocol hubProtocol, received []byte, err error) {
+	return func() (hubProtocol, []byte, error) {
 		c.mx.Lock()
 		defer c.mx.Unlock()
 
 		if c.conn == nil {
 			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
+				return nil, nil, ErrUnableToConnect
 			}
 			var err error
 			c.conn, err = c.connectionFactory()
 			if err != nil {
-				return nil, err
+				return nil, nil, err
 			}
 		}
 		// Pass maximum receive message size to a potential websocket connection
 		if wsConn, ok := c.conn.(*webSocketConnection); ok {
 			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 		}
-		protocol, err := c.processHandshake()
+		protocol, received, err := c.processHandshake()
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		return protocol, nil
+		return protocol, received, nil
 	}()
 }
 
@@ -571,9 +570,9 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
+func (c *client) processHandshake() (protocol hubProtocol, received []byte, err error) {
 	if err := c.sendHandshakeRequest(); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse()
 }
@@ -595,31 +594,30 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
+func (c *client) receiveHandshakeResponse() (protocol hubProtocol, received []byte, err error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, rest, err := readHandshake(c.conn)
+		readJSONFramesChan <- []interface{}{rawHandshake, rest, err}
 	}()
 	select {
 	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return nil, result[1].(error)
+		if result[2] != nil {
+			return nil, nil, result[2].(error)
 		}
-		rawHandshake := result[0].([][]byte)
+		rawHandshake := result[0].([]byte)
 		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
+		if err := json.Unmarshal(rawHandshake, &response); err != nil {
 			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
+			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
+			return nil, nil, err
 		} else {
 			if response.Error != "" {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
+				return nil, nil, errors.New(response.Error)
 			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
@@ -633,9 +631,9 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 				_, pDbg := c.loggers()
 				protocol.setDebugLogger(pDbg)
 			}
-			return protocol, nil
+			return protocol, result[1].([]byte), nil
 		}
 	case <-ctx.Done():
-		return nil, ctx.Err()
+		return nil, nil, ctx.Err()
 	}
 }
diff --git a/hubconnection.go b/hubconnection.go
index 6511970..83db996 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -32,7 +32,7 @@ type receiveResult struct {
 	err     error
 }
 
-func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiveMessageSize uint, info StructuredLogger) HubConnection {
+func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiveMessageSize uint, info StructuredLogger, received ...byte) HubConnection {
 	ctx, cancelFunc := context.WithCancel(connection.Context())
 	c := &defaultHubConnection{
 		ctx:                       ctx,
@@ -42,6 +42,7 @@ func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiv
 		connection:                connection,
 		maximumReceiveMessageSize: maximumReceiveMessageSize,
 		items:                     &sync.Map{},
+		received:                  received,
 		info:                      info,
 	}
 	if connectionWithTransferMode, ok := connection.(ConnectionWithTransferMode); ok {
@@ -59,6 +60,7 @@ type defaultHubConnection struct {
 	maximumReceiveMessageSize uint
 	items                     *sync.Map
 	lastWriteStamp            time.Time
+	received                  []byte // received together with the handshake
 	info                      StructuredLogger
 }
 
@@ -163,7 +165,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				}
 			}
 		}
-	}(c.ctx, reader, recvChan, writerDone)
+	}(c.ctx, io.MultiReader(bytes.NewReader(c.received), reader), recvChan, writerDone)
 	return recvChan
 }
 
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 847062c..ad72aa5 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -191,6 +191,20 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	}
 }
 
+// readHandshake reads the handshake message. Bytes which arrived behind it belong to the following messages
+// and are returned as rest.
+func readHandshake(reader io.Reader) (handshake []byte, rest []byte, err error) {
+	var remainBuf bytes.Buffer
+	frames, err := readJSONFrames(reader, &remainBuf, 0)
+	if err != nil {
+		return nil, nil, err
+	}
+	for _, frame := range frames[1:] {
+		rest = append(append(rest, frame...), 0x1e)
+	}
+	return frames[0], append(rest, remainBuf.Bytes()...), nil
+}
+
 func parseJSONFrames(buf *bytes.Buffer) ([][]byte, error) {
 	frames := make([][]byte, 0)
 	for {
diff --git a/loop.go b/loop.go
index 24f50bd..9ae1edd 100644
--- a/loop.go
+++ b/loop.go
@@ -24,13 +24,14 @@ type loop struct {
 	closeMessage *closeMessage
 }
 
-func newLoop(p Party, conn Connection, protocol hubProtocol) *loop {
+// newLoop builds the loop for conn. received are the bytes which arrived on conn behind the handshake message.
+func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *loop {
 	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)
 	_, dbg := p.loggers()
 	protocol.setDebugLogger(dbg)
 	protocol.setMaxReceiveMessageSize(p.maximumReceiveMessageSize())
 	pInfo, pDbg := p.prefixLoggers(conn.ConnectionID())
-	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo)
+	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo, received...)
 	return &loop{
 		party:        p,
 		protocol:     protocol,
diff --git a/server.go b/server.go
index 7989887..4d7a54d 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -127,14 +126,14 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, received, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
 		return err
 	}
 
-	return newLoop(s, conn, protocol).Run(make(chan struct{}, 1))
+	return newLoop(s, conn, protocol, received).Run(make(chan struct{}, 1))
 }
 
 func (s *server) HubClients() HubClients {
@@ -246,35 +245,35 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
+func (s *server) processHandshake(conn Connection) (protocol hubProtocol, received []byte, err error) {
+	if request, received, err := s.receiveHandshakeRequest(conn); err != nil {
+		return nil, nil, err
 	} else {
-		return s.sendHandshakeResponse(conn, request)
+		protocol, err := s.sendHandshakeResponse(conn, request)
+		return protocol, received, err
 	}
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (request handshakeRequest, received []byte, err error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, rest, err := readHandshake(conn)
+		readJSONFramesChan <- []interface{}{rawHandshake, rest, err}
 	}()
-	request := handshakeRequest{}
 	select {
 	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return request, result[1].(error)
+		if result[2] != nil {
+			return request, nil, result[2].(error)
 		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
+		rawHandshake := result[0].([]byte)
+		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake))
+		err = json.Unmarshal(rawHandshake, &request)
+		return request, result[1].([]byte), err
 	case <-ctx.Done():
-		return request, ctx.Err()
+		return request, nil, ctx.Err()
 	}
 }
 
-- 
2.43.0


From 4bfd28fa64d525fe05a3210b90e4593b9a581860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 16/59] fix: answer any unsupported protocol name with a valid
 handshake response

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 4d7a54d..77f841f 100644
--- a/server.go
+++ b/server.go
@@ -298,8 +298,8 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				errorHandshakeResponse, _ := json.Marshal(handshakeResponse{Error: err.Error()})
+				return conn.Write(append(errorHandshakeResponse, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From dd5b931b256dcdd9a0fefc7a0bcf02644ad76c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 17/59] fix: process everything received before the end of the
 transport

---
 hubconnection.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 83db996..b6bd621 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -102,7 +102,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, writerDone chan<- struct{}) {
 	loop:
 		for {
 			select {
@@ -110,28 +110,22 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				break loop
 			default:
 				n, err := connection.Read(p)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					}
-				}
 				if n > 0 {
-					_, err = writer.Write(p[:n])
-					if err != nil {
-						select {
-						case recvChan <- receiveResult{err: err}:
-						case <-ctx.Done():
-							break loop
-						}
+					if _, writeErr := writer.Write(p[:n]); err == nil {
+						err = writeErr
 					}
 				}
+				if err != nil {
+					// The parser gets the error when it has parsed everything received before
+					_ = writer.CloseWithError(err)
+					<-ctx.Done()
+					break loop
+				}
 			}
 		}
 		// The pipe writer is done
 		close(writerDone)
-	}(c.ctx, c.connection, writer, recvChan, writerDone)
+	}(c.ctx, c.connection, writer, writerDone)
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
 		remainBuf := bytes.Buffer{}
-- 
2.43.0


From aa26354a91c3ddb6c3a6c848788790b8e9ce1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 18/59] fix: report values which can not be encoded to their
 sender instead of ending the connection

---
 hubconnection.go | 10 +++++++++-
 loop.go          | 14 ++++++++++----
 streamer.go      |  7 ++++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index b6bd621..b545276 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -240,8 +240,16 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
+		// A message which can not be encoded is the problem of its sender, not of the connection
+		var frame bytes.Buffer
+		if err := c.protocol.WriteMessage(message, &frame); err != nil {
+			return err
+		}
 		e := make(chan error, 1)
-		go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
+		go func() {
+			_, err := c.connection.Write(frame.Bytes())
+			e <- err
+		}()
 		select {
 		case <-c.ctx.Done():
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
diff --git a/loop.go b/loop.go
index 9ae1edd..c21ccb6 100644
--- a/loop.go
+++ b/loop.go
@@ -266,7 +266,6 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 				// Stream invocation of method with no stream result.
 				// Return a single StreamItem and an empty Completion
 				l.sendResult(invocation, streamItem, result)
-				_ = l.hubConn.Completion(invocation.InvocationID, nil, "")
 			}
 		}
 	}
@@ -338,12 +337,19 @@ func (l *loop) sendError(invocation invocationMessage, errorText string) {
 type connFunc func(sl *loop, invocation invocationMessage, value interface{})
 
 func completion(sl *loop, invocation invocationMessage, value interface{}) {
-	_ = sl.hubConn.Completion(invocation.InvocationID, value, "")
+	if err := sl.hubConn.Completion(invocation.InvocationID, value, ""); err != nil {
+		// Not encodable, or the connection is gone anyway
+		_ = sl.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+	}
 }
 
 func streamItem(sl *loop, invocation invocationMessage, value interface{}) {
-
-	_ = sl.hubConn.StreamItem(invocation.InvocationID, value)
+	errorText := ""
+	if err := sl.hubConn.StreamItem(invocation.InvocationID, value); err != nil {
+		// Not encodable, or the connection is gone anyway
+		errorText = err.Error()
+	}
+	_ = sl.hubConn.Completion(invocation.InvocationID, nil, errorText)
 }
 
 func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
diff --git a/streamer.go b/streamer.go
index d21dd96..b06414a 100644
--- a/streamer.go
+++ b/streamer.go
@@ -43,7 +43,12 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				if s.conn.Context().Err() != nil {
 					break loop
 				}
-				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
+				if err := s.conn.StreamItem(invocationID, chanResult.Interface()); err != nil {
+					// Not encodable, or the connection is gone anyway
+					s.Forget(invocationID)
+					_ = s.conn.Completion(invocationID, nil, err.Error())
+					break loop
+				}
 			} else {
 				s.Forget(invocationID)
 				if s.conn.Context().Err() == nil {
-- 
2.43.0


From 8c74ff4c77dffebde57eb6d2b8c1cbb0f133c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 19/59] fix: end connections whose peer does not read

---
 hubconnection.go | 12 +++++++++++-
 loop.go          |  8 +++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index b545276..93b39e4 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -74,9 +74,19 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 		Error:          errorText,
 		AllowReconnect: allowReconnect,
 	}
-	return c.protocol.WriteMessage(closeMessage, c.connection)
+	e := make(chan error, 1)
+	go func() { e <- c.protocol.WriteMessage(closeMessage, c.connection) }()
+	select {
+	case <-time.After(closeTimeout):
+		return fmt.Errorf("close message not sent in %v", closeTimeout)
+	case err := <-e:
+		return err
+	}
 }
 
+// closeTimeout is the time a peer which is not reading can delay the end of the connection
+const closeTimeout = 5 * time.Second
+
 func (c *defaultHubConnection) ConnectionID() string {
 	return c.connection.ConnectionID()
 }
diff --git a/loop.go b/loop.go
index c21ccb6..7d565b0 100644
--- a/loop.go
+++ b/loop.go
@@ -1,6 +1,7 @@
 package signalr
 
 import (
+	"context"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -47,6 +48,8 @@ func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *l
 // Run runs the loop. After the startup sequence is done, this is signaled over the started channel.
 // Callers should pass a channel with buffer size 1 to allow the loop to run without waiting for the caller.
 func (l *loop) Run(connected chan struct{}) (err error) {
+	// Writes to a peer which does not read must not outlive the party
+	defer context.AfterFunc(l.party.Context(), l.hubConn.Abort)()
 	l.party.onConnected(l.hubConn)
 	connected <- struct{}{}
 	close(connected)
@@ -115,9 +118,8 @@ msgLoop:
 				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
 
 				if nextPingIn <= 0 {
-					if err = l.hubConn.Ping(); err != nil {
-						break pingLoop
-					}
+					// The peer might not read. When Ping fails, it aborts the hubConnection
+					go func() { _ = l.hubConn.Ping() }()
 					keepAliveTicker.Reset(l.party.keepAliveInterval())
 				} else {
 					keepAliveTicker.Reset(nextPingIn)
-- 
2.43.0


From d7781ba2a7341f779a810d55ae6e7f7b65269d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 20/59] fix: write and read MessagePack close messages as the
 protocol defines them

---
 messagepackhubprotocol.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 1269af0..0de19aa 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type messagePackHubProtocol struct {
@@ -83,7 +84,16 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	}
 	// Ignore Header for all messages, except ping message that has no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	hasHeader := msgType != 6
+	if msgType == 7 {
+		// Close messages have no header either, but former versions of this library send one
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return nil, err
+		}
+		hasHeader = msgpcode.IsFixedMap(code) || code == msgpcode.Map16 || code == msgpcode.Map32
+	}
+	if hasHeader {
 		// Do not allocate for a header length nobody knows to be true
 		headerLen, err := decoder.DecodeMapLen()
 		if err != nil {
@@ -325,7 +335,11 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		// Close messages have no header
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(int64(msg.Type)); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From db904b483510a6ce201ca99031e37035704b5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 21/59] fix: create exactly one hub per connection with
 PerConnectionHubFactory

---
 server.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index 77f841f..6b8d10e 100644
--- a/server.go
+++ b/server.go
@@ -150,23 +150,28 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
-	go func() {
-		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
-	}()
+	s.callHub(hc, HubInterface.OnConnected)
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
-	go func() {
-		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
-	}()
+	s.callHub(hc, HubInterface.OnDisconnected)
 	s.lifetimeManager.OnDisconnected(hc)
 
 	// Clean up the connection hub
 	s.removeConnectionHub(hc.ConnectionID())
 }
 
+// callHub calls a life cycle callback. The hub is determined before callHub returns: with a per connection hub factory,
+// it has to be the same for all callbacks and invocations of the connection
+func (s *server) callHub(hc HubConnection, callback func(hub HubInterface, connectionID string)) {
+	defer s.recoverHubLifeCyclePanic()
+	hub := s.invocationTarget(hc).(HubInterface)
+	go func() {
+		defer s.recoverHubLifeCyclePanic()
+		callback(hub, hc.ConnectionID())
+	}()
+}
+
 func (s *server) invocationTarget(conn HubConnection) interface{} {
 	if s.perConnectionHubFactory != nil {
 		// Use per-connection hub factory
@@ -207,13 +212,13 @@ func (s *server) recoverHubLifeCyclePanic() {
 func (s *server) prefixLoggers(connectionID string) (info StructuredLogger, dbg StructuredLogger) {
 	hubType := reflect.TypeOf(nil)
 	if s.perConnectionHubFactory != nil {
-		// Create a temporary hub to get the type for logging
-		tempHub := s.perConnectionHubFactory(connectionID)
-		hubValue := reflect.ValueOf(tempHub)
-		if hubValue.Kind() == reflect.Ptr {
-			hubType = hubValue.Elem().Type()
+		// Exactly one hub has to be created for each connection. Before it is, its type is not known
+		if hub, ok := s.getConnectionHub(connectionID); ok {
+			hubValue := reflect.ValueOf(hub)
+			if hubValue.Kind() == reflect.Ptr {
+				hubType = hubValue.Elem().Type()
+			}
 		}
-		
 	} else if s.newHub != nil {
 		hubValue := reflect.ValueOf(s.newHub())
 		if hubValue.Kind() == reflect.Ptr {
-- 
2.43.0


From cd634b0b9a0e5fd0c5882727792b86efcfdda92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 22/59] fix: do not keep disconnected clients and empty groups
 in the lifetime manager

---
 hublifetimemanager.go | 50 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 7f3f4a2..70edf44 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -42,18 +42,29 @@ type defaultHubLifetimeManager struct {
 type groupMap struct {
 	mu      sync.RWMutex
 	members map[string]HubConnection
+	removed bool // the last member has left, a new groupMap is needed
 }
 
-func (g *groupMap) add(id string, conn HubConnection) {
+// add returns false when the groupMap is not in use anymore
+func (g *groupMap) add(id string, conn HubConnection) bool {
 	g.mu.Lock()
+	defer g.mu.Unlock()
+	if g.removed {
+		return false
+	}
 	g.members[id] = conn
-	g.mu.Unlock()
+	return true
 }
 
-func (g *groupMap) remove(id string) {
+// remove removes the member id, if it is conn or conn is nil. It returns true when no member is left
+func (g *groupMap) remove(id string, conn HubConnection) bool {
 	g.mu.Lock()
-	delete(g.members, id)
-	g.mu.Unlock()
+	defer g.mu.Unlock()
+	if conn == nil || g.members[id] == conn {
+		delete(g.members, id)
+	}
+	g.removed = len(g.members) == 0
+	return g.removed
 }
 
 // snapshot returns a stable copy of the current members for safe iteration.
@@ -72,13 +83,19 @@ func (d *defaultHubLifetimeManager) OnConnected(conn HubConnection) {
 }
 
 func (d *defaultHubLifetimeManager) OnDisconnected(conn HubConnection) {
-	d.clients.Delete(conn.ConnectionID())
-	d.groups.Range(func(_, value any) bool {
-		value.(*groupMap).remove(conn.ConnectionID())
+	d.clients.CompareAndDelete(conn.ConnectionID(), conn)
+	d.groups.Range(func(groupName, _ any) bool {
+		d.removeFromGroup(groupName.(string), conn.ConnectionID(), conn)
 		return true
 	})
 }
 
+func (d *defaultHubLifetimeManager) removeFromGroup(groupName string, connectionID string, conn HubConnection) {
+	if gm, ok := d.groups.Load(groupName); ok && gm.(*groupMap).remove(connectionID, conn) {
+		d.groups.CompareAndDelete(groupName, gm)
+	}
+}
+
 func (d *defaultHubLifetimeManager) InvokeAll(target string, args []interface{}) {
 	d.clients.Range(func(key, value interface{}) bool {
 		go func() {
@@ -109,13 +126,20 @@ func (d *defaultHubLifetimeManager) InvokeGroup(groupName string, target string,
 
 func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	if client, ok := d.clients.Load(connectionID); ok {
-		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
-		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		for {
+			gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
+			if gm.(*groupMap).add(connectionID, client.(HubConnection)) {
+				break
+			}
+			d.groups.CompareAndDelete(groupName, gm)
+		}
+		// OnDisconnected might have searched the groups before the connection was added
+		if current, ok := d.clients.Load(connectionID); !ok || current != client {
+			d.removeFromGroup(groupName, connectionID, client.(HubConnection))
+		}
 	}
 }
 
 func (d *defaultHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
-	if gm, ok := d.groups.Load(groupName); ok {
-		gm.(*groupMap).remove(connectionID)
-	}
+	d.removeFromGroup(groupName, connectionID, nil)
 }
-- 
2.43.0


From 6d36c4c0d48b8475c1eae853134c59f4dc95dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 23/59] fix: set the client state to connected before the
 connection can end

---
 client.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index d48c3e7..4ba0ccf 100644
--- a/client.go
+++ b/client.go
@@ -242,14 +242,8 @@ func (c *client) run() error {
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
-	// Broadcast when loop is connected
-	isLoopConnected := make(chan struct{}, 1)
-	go func() {
-		<-isLoopConnected
-		c.setState(ClientConnected)
-	}()
-	// Run the loop
-	err = loop.Run(isLoopConnected)
+	// Run the loop. It calls onConnected when it is connected
+	err = loop.Run(make(chan struct{}, 1))
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
@@ -536,7 +530,9 @@ func createResultChansWithError(ctx context.Context, err error) (<-chan InvokeRe
 	return invokeResultChan, errCh
 }
 
-func (c *client) onConnected(HubConnection) {}
+func (c *client) onConnected(HubConnection) {
+	c.setState(ClientConnected)
+}
 
 func (c *client) onDisconnected(HubConnection) {}
 
-- 
2.43.0


From 4a793fa818e29a5e7c62bc476f8f60bb388d6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 24/59] fix: do not lock the client while connecting and never
 reuse a failed connection

---
 client.go | 72 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/client.go b/client.go
index 4ba0ccf..f5b2bee 100644
--- a/client.go
+++ b/client.go
@@ -233,12 +233,18 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, received, err := c.setupConnectionAndProtocol()
+	conn, protocol, received, err := c.setupConnectionAndProtocol()
+	// Whatever happens, conn will not be usable for reconnecting
+	defer func() {
+		c.mx.Lock()
+		c.conn = nil
+		c.mx.Unlock()
+	}()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol, received)
+	loop := newLoop(c, conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -249,11 +255,6 @@ func (c *client) run() error {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
 	}
 
-	// Reset conn to allow reconnecting
-	c.mx.Lock()
-	c.conn = nil
-	c.mx.Unlock()
-
 	return err
 }
 
@@ -277,32 +278,27 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (protocol hubProtocol, received []byte, err error) {
-	return func() (hubProtocol, []byte, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
+// setupConnectionAndProtocol must not lock c.mx while it waits for the server
+func (c *client) setupConnectionAndProtocol() (conn Connection, protocol hubProtocol, received []byte, err error) {
+	c.mx.RLock()
+	conn = c.conn
+	c.mx.RUnlock()
 
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, nil, err
-			}
+	if conn == nil {
+		if c.connectionFactory == nil {
+			return nil, nil, nil, ErrUnableToConnect
 		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-		}
-		protocol, received, err := c.processHandshake()
+		conn, err = c.connectionFactory()
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-
-		return protocol, received, nil
-	}()
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	protocol, received, err = c.processHandshake(conn)
+	return conn, protocol, received, err
 }
 
 func (c *client) State() ClientState {
@@ -566,21 +562,21 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (protocol hubProtocol, received []byte, err error) {
-	if err := c.sendHandshakeRequest(); err != nil {
+func (c *client) processHandshake(conn Connection) (protocol hubProtocol, received []byte, err error) {
+	if err := c.sendHandshakeRequest(conn); err != nil {
 		return nil, nil, err
 	}
-	return c.receiveHandshakeResponse()
+	return c.receiveHandshakeResponse(conn)
 }
 
-func (c *client) sendHandshakeRequest() error {
-	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+func (c *client) sendHandshakeRequest(conn Connection) error {
+	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
@@ -590,13 +586,13 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (protocol hubProtocol, received []byte, err error) {
-	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+func (c *client) receiveHandshakeResponse(conn Connection) (protocol hubProtocol, received []byte, err error) {
+	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
-		rawHandshake, rest, err := readHandshake(c.conn)
+		rawHandshake, rest, err := readHandshake(conn)
 		readJSONFramesChan <- []interface{}{rawHandshake, rest, err}
 	}()
 	select {
-- 
2.43.0


From 37b356a1b1498070eac49eeca2c5a1acef6db5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 25/59] fix: leave the connected state when the connection ends
 and close a client canceled during backoff

---
 client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index f5b2bee..ef3af02 100644
--- a/client.go
+++ b/client.go
@@ -208,16 +208,18 @@ func (c *client) Start() {
 			nextBackoff := boff.NextBackOff()
 			// Check for exceeded backoff
 			if nextBackoff == backoff.Stop {
-				c.setState(ClientClosed)
 				c.setErr(errors.New("backoff exceeded"))
+				c.setState(ClientClosed)
 				return
 			}
+			c.setState(ClientConnecting)
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
+				c.setErr(c.ctx.Err())
+				c.setState(ClientClosed)
 				return
 			}
-			c.setState(ClientConnecting)
 		}
 	}()
 }
-- 
2.43.0


From 9ed3c7a824393fc5375fbc469c422e53b97a6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 26/59] fix: push state changes to client observers in order
 and without blocking

---
 client.go | 120 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 84 insertions(+), 36 deletions(-)

diff --git a/client.go b/client.go
index ef3af02..76ef994 100644
--- a/client.go
+++ b/client.go
@@ -121,13 +121,12 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	ctx, cancelFunc = context.WithCancel(ctx)
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
-		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
-		format:           "json",
-		partyBase:        newPartyBase(ctx, info, dbg),
-		lastID:           -1,
-		backoffFactory:   func() backoff.BackOff { return backoff.NewExponentialBackOff() },
-		cancelFunc:       cancelFunc,
+		state:          ClientCreated,
+		format:         "json",
+		partyBase:      newPartyBase(ctx, info, dbg),
+		lastID:         -1,
+		backoffFactory: func() backoff.BackOff { return backoff.NewExponentialBackOff() },
+		cancelFunc:     cancelFunc,
 	}
 	for _, option := range options {
 		if option != nil {
@@ -154,7 +153,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -313,23 +312,14 @@ func (c *client) setState(state ClientState) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	if c.state == state {
+		return
+	}
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
-
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
-			}
-		}(ch, state)
+	for _, o := range c.stateObservers {
+		o.push(state)
 	}
 }
 
@@ -337,23 +327,81 @@ func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	o := &stateObserver{ch: ch, canceled: make(chan struct{})}
+	c.stateObservers = append(c.stateObservers, o)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(o)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(o *stateObserver) {
 	c.mx.Lock()
-	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
+	found := false
+	for i, oo := range c.stateObservers {
+		if oo == o {
+			c.stateObservers = append(c.stateObservers[:i:i], c.stateObservers[i+1:]...)
+			found = true
 			break
 		}
 	}
+	c.mx.Unlock()
+	if found {
+		o.cancel()
+	}
+}
+
+// stateObserver pushes all states to ch, in the order in which they occurred. An observer which does not read ch
+// does not delay anybody else.
+type stateObserver struct {
+	ch       chan ClientState
+	canceled chan struct{}
+	mx       sync.Mutex
+	states   []ClientState
+	pushing  sync.WaitGroup // runs as long as there are states
+}
+
+func (o *stateObserver) push(state ClientState) {
+	o.mx.Lock()
+	defer o.mx.Unlock()
+	o.states = append(o.states, state)
+	if len(o.states) > 1 {
+		return
+	}
+	o.pushing.Add(1)
+	go func() {
+		defer o.pushing.Done()
+		for state, ok := o.first(); ok; state, ok = o.next() {
+			select {
+			case o.ch <- state:
+			case <-o.canceled:
+				return
+			}
+		}
+	}()
+}
+
+func (o *stateObserver) first() (ClientState, bool) {
+	o.mx.Lock()
+	defer o.mx.Unlock()
+	return o.states[0], true
+}
+
+func (o *stateObserver) next() (ClientState, bool) {
+	o.mx.Lock()
+	defer o.mx.Unlock()
+	o.states = o.states[1:]
+	if len(o.states) == 0 {
+		return 0, false
+	}
+	return o.states[0], true
+}
+
+// cancel must not be called concurrently with push
+func (o *stateObserver) cancel() {
+	close(o.canceled)
+	o.pushing.Wait()
+	close(o.ch)
 }
 
 func (c *client) Err() error {
@@ -370,7 +418,7 @@ func (c *client) setErr(err error) {
 
 func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan error {
 	ch := make(chan error, 1)
-	if c.waitingIsOver(waitFor, ch) {
+	if c.waitingIsOver(c.State(), waitFor, ch) {
 		close(ch)
 		return ch
 	}
@@ -379,13 +427,13 @@ func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan e
 	go func(waitFor ClientState) {
 		defer close(ch)
 		defer cancel()
-		if c.waitingIsOver(waitFor, ch) {
+		if c.waitingIsOver(c.State(), waitFor, ch) {
 			return
 		}
 		for {
 			select {
-			case <-stateCh:
-				if c.waitingIsOver(waitFor, ch) {
+			case state := <-stateCh:
+				if c.waitingIsOver(state, waitFor, ch) {
 					return
 				}
 			case <-ctx.Done():
@@ -400,8 +448,8 @@ func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan e
 	return ch
 }
 
-func (c *client) waitingIsOver(waitFor ClientState, ch chan<- error) bool {
-	switch c.State() {
+func (c *client) waitingIsOver(state ClientState, waitFor ClientState, ch chan<- error) bool {
+	switch state {
 	case waitFor:
 		return true
 	case ClientCreated:
-- 
2.43.0


From 08be76f454b679e5242d2c1c1b8190ad7979191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 27/59] fix: use only one loop for each client call

---
 client.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 76ef994..c42fdd1 100644
--- a/client.go
+++ b/client.go
@@ -471,11 +471,12 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -498,10 +499,11 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -524,7 +526,8 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -546,7 +549,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
@@ -562,6 +566,14 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 	return irCh
 }
 
+// currentLoop returns the loop of the current or last connection. A call must not use more than one, because
+// reconnecting replaces it
+func (c *client) currentLoop() *loop {
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop
+}
+
 func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
-- 
2.43.0


From 6ad91b9390ec33eba4114cfbae782f9f8992b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 28/59] fix: reset the backoff and end the client because of
 the connection which just ended only

---
 client.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/client.go b/client.go
index c42fdd1..238b39b 100644
--- a/client.go
+++ b/client.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -174,33 +173,18 @@ func (c *client) Start() {
 
 		for {
 			c.setErr(nil)
-			// Listen for state change to ClientConnected and signal backoff Reset then.
-			stateChangeChan := make(chan ClientState, 1)
-			var connected atomic.Value
-			connected.Store(false)
-			cancelObserve := c.ObserveStateChanged(stateChangeChan)
-			go func() {
-				for range stateChangeChan {
-					if c.State() == ClientConnected {
-						connected.Store(true)
-						return
-					}
-				}
-			}()
 			// RUN!
-			err := c.run()
+			loop, err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd()
-			cancelObserve()
-			if shouldEnd {
+			if c.shouldClientEnd(loop) {
 				return
 			}
 
 			// When the client has connected, BackOff should be reset
-			if connected.Load().(bool) {
+			if loop != nil {
 				boff.Reset()
 			}
 			// Reconnect after BackOff
@@ -232,7 +216,8 @@ func (c *client) Stop() {
 	}
 }
 
-func (c *client) run() error {
+// run returns the loop when it has connected
+func (c *client) run() (*loop, error) {
 	// negotiate and so on
 	conn, protocol, received, err := c.setupConnectionAndProtocol()
 	// Whatever happens, conn will not be usable for reconnecting
@@ -242,7 +227,7 @@ func (c *client) run() error {
 		c.mx.Unlock()
 	}()
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	loop := newLoop(c, conn, protocol, received)
@@ -256,10 +241,10 @@ func (c *client) run() error {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
 	}
 
-	return err
+	return loop, err
 }
 
-func (c *client) shouldClientEnd() bool {
+func (c *client) shouldClientEnd(loop *loop) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
 		c.setErr(c.ctx.Err())
@@ -272,7 +257,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
-- 
2.43.0


From 20058c0d69d3f0d907086d86f9d97dd3516318af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:25 +0000
Subject: [PATCH 29/59] fix: deliver at most one result or error for a client
 call

---
 Invokeresult.go | 2 ++
 client.go       | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index c221e5d..bcec8aa 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -54,6 +54,8 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 					ch <- InvokeResult{
 						Error: err,
 					}
+					// Nothing follows an error
+					break loop
 				}
 			}
 		}
diff --git a/client.go b/client.go
index 238b39b..9671465 100644
--- a/client.go
+++ b/client.go
@@ -467,7 +467,8 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			return
 		}
 		go func() {
-			for ir := range irCh {
+			// At most one result, even when the client is stopped at the same time
+			if ir, ok := <-irCh; ok {
 				ch <- ir
 			}
 			close(ch)
@@ -542,7 +543,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			return
 		}
 		go func() {
-			for ir := range pushCh {
+			// At most one result, even when the client is stopped at the same time
+			if ir, ok := <-pushCh; ok {
 				irCh <- ir
 			}
 			close(irCh)
-- 
2.43.0


From 6037b94a82b852ad1e3d8462cf4fb5f29f5d3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 30/59] fix: report an illegal result of a stream to its caller

---
 streamclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamclient.go b/streamclient.go
index 7cf14c5..5c4c4cc 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -136,6 +136,10 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				c.mx.Unlock()
 				if running {
 					err = fmt.Errorf("client side streaming: received completion with result %v", completion)
+					// The stream did not end successfully
+					if invokeClient.handlesInvocationID(completion.InvocationID) {
+						_ = invokeClient.receiveCompletionItem(completionMessage{InvocationID: completion.InvocationID, Error: err.Error()})
+					}
 				} else {
 					// handle result like a stream item
 					err = c.receiveStreamItem(streamItemMessage{
-- 
2.43.0


From 93cc35feeda7747dd3e94222d31c2b62be0b9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 31/59] fix: only messages which are written postpone the
 keep-alive ping

---
 hubconnection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 93b39e4..1dce98a 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -243,9 +243,6 @@ func (c *defaultHubConnection) LastWriteStamp() time.Time {
 }
 
 func (c *defaultHubConnection) writeMessage(message interface{}) error {
-	c.mx.Lock()
-	c.lastWriteStamp = time.Now()
-	c.mx.Unlock()
 	err := func() error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
@@ -255,6 +252,9 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		if err := c.protocol.WriteMessage(message, &frame); err != nil {
 			return err
 		}
+		c.mx.Lock()
+		c.lastWriteStamp = time.Now()
+		c.mx.Unlock()
 		e := make(chan error, 1)
 		go func() {
 			_, err := c.connection.Write(frame.Bytes())
-- 
2.43.0


From 71b11e166f81f996a0d26744a7c8e8b63680b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:59 +0000
Subject: [PATCH 32/59] fix: a peer which does not read its error completions
 does not stop the timeout

---
 loop.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 7d565b0..a56d17a 100644
--- a/loop.go
+++ b/loop.go
@@ -278,7 +278,8 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
 		switch t := err.(type) {
 		case *hubChanTimeoutError:
-			_ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error())
+			// The peer might not read, but the loop has to go on
+			go func() { _ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error()) }()
 		default:
 			_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(streamItemMessage), react, "close connection")
 			return err
@@ -332,7 +333,8 @@ func (l *loop) sendResult(invocation invocationMessage, connFunc connFunc, resul
 // sendError completes the invocation with an error. Without an invocation id, the caller does not want a completion
 func (l *loop) sendError(invocation invocationMessage, errorText string) {
 	if invocation.InvocationID != "" {
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+		// The peer might not read, but the loop has to go on
+		go func() { _ = l.hubConn.Completion(invocation.InvocationID, nil, errorText) }()
 	}
 }
 
-- 
2.43.0


From 1862932461a2b2f4ffa420c599205b94843aef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 33/59] fix: data which a JSON connection returns together with
 an error is not lost

---
 jsonhubprotocol.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ad72aa5..abfd38f 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -160,10 +160,7 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	// Try getting data until at least one frame is available
 	for {
 		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to the last data
-		if err != nil && !errors.Is(err, io.EOF) {
-			return nil, err
-		}
+		// Some reader implementations return an error additionally to the last data
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
 			frames, err := parseJSONFrames(buf)
-- 
2.43.0


From dc2b6727302470155486fee5f943ac30efdc0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 34/59] fix: the client does not take another message for the
 handshake response

---
 client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 9671465..b93f80c 100644
--- a/client.go
+++ b/client.go
@@ -650,7 +650,10 @@ func (c *client) receiveHandshakeResponse(conn Connection) (protocol hubProtocol
 			return nil, nil, result[2].(error)
 		}
 		rawHandshake := result[0].([]byte)
-		response := handshakeResponse{}
+		response := struct {
+			handshakeResponse
+			Type int `json:"type"` // Not part of a handshake response, but of all other messages
+		}{}
 		if err := json.Unmarshal(rawHandshake, &response); err != nil {
 			// Malformed handshake
 			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
@@ -660,6 +663,11 @@ func (c *client) receiveHandshakeResponse(conn Connection) (protocol hubProtocol
 				_ = info.Log(evt, "handshake received", "error", response.Error)
 				return nil, nil, errors.New(response.Error)
 			}
+			if response.Type != 0 {
+				err := fmt.Errorf("handshake response expected, but received message of type %v", response.Type)
+				_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
+				return nil, nil, err
+			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
 			switch c.format {
-- 
2.43.0


From 17ea157bcb72626caa4f2353c0a820e9fd47ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:34 +0000
Subject: [PATCH 35/59] fix: a negotiated connection can be started only once

---
 httpmux.go | 53 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 9d21116..5e37793 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -42,7 +42,7 @@ func (h *httpMux) reaperLoop() {
 		case now := <-ticker.C:
 			h.mx.Lock()
 			for key, c := range h.connectionMap {
-				if nc, ok := c.(*negotiateConnection); ok && now.Sub(nc.createdAt) > ttl {
+				if nc, ok := c.(*negotiateConnection); ok && !nc.claimed && now.Sub(nc.createdAt) > ttl {
 					delete(h.connectionMap, key)
 				}
 			}
@@ -127,22 +127,20 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
+	flusher, canFlush := writer.(http.Flusher)
+	if !canFlush {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	nc, ok := h.claim(connectionIDorToken)
 	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
+		if nc != nil {
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
 			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 			if err != nil {
 				writer.WriteHeader(http.StatusInternalServerError)
 				return
 			}
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
 			// Connection is negotiated but not initiated
 			// We compose http and send it over sse
 			writer.Header().Set("Content-Type", "text/event-stream")
@@ -151,10 +149,10 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			writer.WriteHeader(http.StatusOK)
 			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
 			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
-			writer.(http.Flusher).Flush()
+			flusher.Flush()
 			go func() {
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
+				_ = h.serveConnection(connectionIDorToken, sseConn)
 			}()
 			// Loop for write jobs from the sseServerConnection
 			for buf := range jobChan {
@@ -199,14 +197,12 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		}
 		h.mx.Unlock()
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionMapKey]
-	h.mx.RUnlock()
+	nc, ok := h.claim(connectionMapKey)
 	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
+		if nc != nil {
 			// Connection is negotiated but not initiated
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
+			err = h.serveConnection(connectionMapKey, newWebSocketConnection(ctx, nc.ConnectionID(), websocketConn))
 			if err != nil {
 				_ = websocketConn.Close(1005, err.Error())
 			}
@@ -254,7 +250,7 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 		if max := h.server.maxNegotiationConnections(); max > 0 {
 			var pending int
 			for _, c := range h.connectionMap {
-				if _, ok := c.(*negotiateConnection); ok {
+				if nc, ok := c.(*negotiateConnection); ok && !nc.claimed {
 					pending++
 				}
 			}
@@ -299,13 +295,27 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
+// claim returns the negotiated connection with this key if no request has claimed it before. ok is false when there is no
+// connection with this key.
+func (h *httpMux) claim(connectionMapKey string) (nc *negotiateConnection, ok bool) {
+	h.mx.Lock()
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[connectionMapKey]
+	if nc, isNegotiated := c.(*negotiateConnection); isNegotiated && !nc.claimed {
+		nc.claimed = true
+		return nc, true
+	}
+	return nil, ok
+}
+
+// serveConnection serves the connection which was claimed with connectionMapKey
+func (h *httpMux) serveConnection(connectionMapKey string, c Connection) error {
 	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
+	h.connectionMap[connectionMapKey] = c
 	h.mx.Unlock()
 	err := h.server.Serve(c)
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	delete(h.connectionMap, connectionMapKey)
 	h.mx.Unlock()
 	return err
 }
@@ -321,6 +331,7 @@ func newConnectionID() string {
 type negotiateConnection struct {
 	ConnectionBase
 	createdAt time.Time
+	claimed   bool // guarded by httpMux.mx
 }
 
 func (n *negotiateConnection) Read([]byte) (int, error) {
-- 
2.43.0


From 3d4134b802f9b48075ce9a40b3a59dca21e46f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:45 +0000
Subject: [PATCH 36/59] fix: server sent event connections work with negotiate
 version 1

---
 clientsseconnection.go | 14 +++-----------
 httpconnection.go      |  2 +-
 httpmux.go             |  2 +-
 3 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..7dde34a 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"net/http"
-	"net/url"
 	"strings"
 )
 
@@ -18,22 +17,15 @@ type clientSSEConnection struct {
 	sseWriter io.Writer
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
-	// Setup request
-	reqURL, err := url.Parse(address)
-	if err != nil {
-		return nil, err
-	}
-	q := reqURL.Query()
-	q.Set("id", connectionID)
-	reqURL.RawQuery = q.Encode()
+// newClientSSEConnection creates the connection which was opened with the request for reqURL
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
 		client: client,
-		reqURL: reqURL.String(),
+		reqURL: reqURL,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..bafd155 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -208,7 +208,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client)
 		if err != nil {
 			return nil, err
 		}
diff --git a/httpmux.go b/httpmux.go
index 5e37793..0991496 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -136,7 +136,7 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	if ok {
 		if nc != nil {
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
+			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, nc.ConnectionID())
 			if err != nil {
 				writer.WriteHeader(http.StatusInternalServerError)
 				return
-- 
2.43.0


From 2d7eedbac374b850912026fa8e7c30a9741757ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 37/59] fix: the event stream ends when its connection has
 ended

---
 httpmux.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpmux.go b/httpmux.go
index 0991496..dc52858 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -135,9 +135,10 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	nc, ok := h.claim(connectionIDorToken)
 	if ok {
 		if nc != nil {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+			ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
 			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, nc.ConnectionID())
 			if err != nil {
+				cancel()
 				writer.WriteHeader(http.StatusInternalServerError)
 				return
 			}
@@ -151,6 +152,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
 			flusher.Flush()
 			go func() {
+				// When the connection is over, the response has to end, too
+				defer cancel()
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 				_ = h.serveConnection(connectionIDorToken, sseConn)
 			}()
-- 
2.43.0


From 74595bd5ce2f8d249e4a692227c777908590f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 38/59] fix: the websocket is closed when its connection has
 ended without error

---
 httpmux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpmux.go b/httpmux.go
index dc52858..eef7bf1 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -208,6 +208,8 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 			err = h.serveConnection(connectionMapKey, newWebSocketConnection(ctx, nc.ConnectionID(), websocketConn))
 			if err != nil {
 				_ = websocketConn.Close(1005, err.Error())
+			} else {
+				_ = websocketConn.Close(websocket.StatusNormalClosure, "")
 			}
 		} else {
 			// Already initiated
-- 
2.43.0


From 1bab0134df9ef804e86e3e66e336f37b312d7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:40 +0000
Subject: [PATCH 39/59] fix: a write to an ended event stream does not block
 the end of its response

---
 serversseconnection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..f3aac0b 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -86,6 +86,7 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	if s.Context().Err() == nil {
 		s.jobChan <- []byte(payload + "\n")
 	} else {
+		s.mx.Unlock()
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	}
 	s.mx.Unlock()
-- 
2.43.0


From 6f18b0c594e4878c40857b183bef018ee63867df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 40/59] fix: a failed POST does not block the POSTs after it

---
 serversseconnection.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index f3aac0b..0039ca7 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -50,16 +50,23 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	defer func() {
 		_ = request.Body.Close()
 	}()
-	body, err := io.ReadAll(request.Body)
+	status := s.writePost(request.Body)
+	s.mx.Lock()
+	s.postWriting = false
+	s.mx.Unlock()
+	if status == http.StatusOK {
+		<-time.After(50 * time.Millisecond)
+	}
+	return status
+}
+
+func (s *serverSSEConnection) writePost(requestBody io.Reader) int {
+	body, err := io.ReadAll(requestBody)
 	if err != nil {
 		return http.StatusBadRequest // 400
 	} else if _, err := s.postWriter.Write(body); err != nil {
 		return http.StatusInternalServerError // 500
 	}
-	s.mx.Lock()
-	s.postWriting = false
-	s.mx.Unlock()
-	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
 
-- 
2.43.0


From 66a7416750ad56567b8947870a740d1ca4f49118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 41/59] fix: a POST does not wait for an ended connection

---
 serversseconnection.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index 0039ca7..cba372d 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -14,8 +14,8 @@ type serverSSEConnection struct {
 	ConnectionBase
 	mx            sync.Mutex
 	postWriting   bool
-	postWriter    io.Writer
-	postReader    io.Reader
+	postWriter    *io.PipeWriter
+	postReader    *io.PipeReader
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
 }
@@ -29,6 +29,8 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 	s.postReader, s.postWriter = io.Pipe()
 	go func() {
 		<-s.Context().Done()
+		// Nobody reads anymore
+		_ = s.postReader.CloseWithError(s.Context().Err())
 		s.mx.Lock()
 		close(s.jobChan)
 		s.mx.Unlock()
@@ -73,7 +75,7 @@ func (s *serverSSEConnection) writePost(requestBody io.Reader) int {
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() { _ = s.postReader.CloseWithError(s.Context().Err()) })
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
-- 
2.43.0


From 6438cb989969260c96911516134614742621de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 42/59] fix: concurrent writes to an event stream get their own
 results

---
 serversseconnection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serversseconnection.go b/serversseconnection.go
index cba372d..c048960 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -16,6 +16,7 @@ type serverSSEConnection struct {
 	postWriting   bool
 	postWriter    *io.PipeWriter
 	postReader    *io.PipeReader
+	writing       chan struct{} // one job at a time
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
 }
@@ -23,6 +24,7 @@ type serverSSEConnection struct {
 func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSSEConnection, <-chan []byte, chan RWJobResult, error) {
 	s := serverSSEConnection{
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
+		writing:        make(chan struct{}, 1),
 		jobChan:        make(chan []byte, 1),
 		jobResultChan:  make(chan RWJobResult, 1),
 	}
@@ -86,6 +88,12 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	if err := s.Context().Err(); err != nil {
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	}
+	select {
+	case <-s.Context().Done():
+		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+	case s.writing <- struct{}{}:
+		defer func() { <-s.writing }()
+	}
 	payload := ""
 	for _, line := range strings.Split(strings.TrimRight(string(p), "\n"), "\n") {
 		payload = payload + "data: " + line + "\n"
-- 
2.43.0


From 9e2ef21603fe45c557cc75d37d7be78e6ee01ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 43/59] fix: websocket messages which do not fit into the
 buffer are not truncated

---
 websocketconnection.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..1125e79 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -1,9 +1,10 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
+	"errors"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"github.com/coder/websocket"
@@ -22,6 +23,7 @@ type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
 	transferMode TransferMode
+	message      io.Reader // the message which is read, when it has not been read to its end
 }
 
 func newWebSocketConnection(ctx context.Context, connectionID string, conn *websocket.Conn) *webSocketConnection {
@@ -56,11 +58,24 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
 		func() (int, error) {
-			_, data, err := w.conn.Read(w.Context())
-			if err != nil {
-				return 0, err
+			// A message might not fit into p
+			for {
+				if w.message == nil {
+					_, message, err := w.conn.Reader(w.Context())
+					if err != nil {
+						return 0, err
+					}
+					w.message = message
+				}
+				n, err := w.message.Read(p)
+				if errors.Is(err, io.EOF) {
+					w.message = nil
+					err = nil
+				}
+				if n > 0 || err != nil {
+					return n, err
+				}
 			}
-			return bytes.NewReader(data).Read(p)
 		},
 		func() {})
 	if err != nil {
-- 
2.43.0


From 83726c6dfd851456f623d1ac1d9705d8511c7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 44/59] fix: messages of the maximum size are not refused by
 the HTTP transports

---
 client.go      | 2 +-
 httpmux.go     | 4 ++--
 hubprotocol.go | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index b93f80c..389215a 100644
--- a/client.go
+++ b/client.go
@@ -281,7 +281,7 @@ func (c *client) setupConnectionAndProtocol() (conn Connection, protocol hubProt
 	}
 	// Pass maximum receive message size to a potential websocket connection
 	if wsConn, ok := conn.(*webSocketConnection); ok {
-		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()) + framingSize)
 	}
 	protocol, received, err = c.processHandshake(conn)
 	return conn, protocol, received, err
diff --git a/httpmux.go b/httpmux.go
index eef7bf1..83121cc 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -79,7 +79,7 @@ func (h *httpMux) handlePost(writer http.ResponseWriter, request *http.Request)
 			// Connection is initiated
 			switch conn := c.(type) {
 			case *serverSSEConnection:
-				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize()))
+				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize())+framingSize)
 				writer.WriteHeader(conn.consumeRequest(request))
 				return
 			case *negotiateConnection:
@@ -188,7 +188,7 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
+	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()) + framingSize)
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
diff --git a/hubprotocol.go b/hubprotocol.go
index 3d3d1e1..bf1976d 100644
--- a/hubprotocol.go
+++ b/hubprotocol.go
@@ -5,6 +5,10 @@ import (
 	"io"
 )
 
+// framingSize is the maximum size of the framing of a message: one separator with JSON, a length prefix with MessagePack.
+// MaximumReceiveMessageSize is the size of a message without it.
+const framingSize = 5
+
 // hubProtocol interface
 // ParseMessages() parses messages from an io.Reader and stores unparsed bytes in remainBuf.
 // If buf does not contain the whole message, it returns a nil message and complete false
-- 
2.43.0


From cd6ca74554ccf7a3e9c87ccfcdae21530434dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 45/59] fix: events which arrive in several parts are not lost

---
 clientsseconnection.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 7dde34a..905334e 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,6 +1,7 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
@@ -30,29 +31,27 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
 		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
+		// A line may arrive in several parts
+		reader := bufio.NewReader(body)
 	loop:
 		for {
-			n, err := body.Read(p)
+			line, err := reader.ReadString('\n')
 			if err != nil {
 				break loop
 			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
-				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
-				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
-				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
-				}
+			line = strings.TrimRight(line, "\r\n")
+			// Ignore everything but data
+			if strings.Index(line, "data:") != 0 {
+				continue
+			}
+			json := strings.Replace(line, "data:", "", 1)
+			// Spec says: If it starts with Space, remove it
+			if len(json) > 0 && json[0] == ' ' {
+				json = json[1:]
+			}
+			_, err = c.sseWriter.Write([]byte(json))
+			if err != nil {
+				break loop
 			}
 		}
 	}()
-- 
2.43.0


From 1c1744f6da1b26bc4f71faeb9a0641594486b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 46/59] fix: the end of the event stream ends the connection of
 the client

---
 clientsseconnection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 905334e..bf209f9 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -14,8 +14,8 @@ type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
 	reqURL    string
-	sseReader io.Reader
-	sseWriter io.Writer
+	sseReader *io.PipeReader
+	sseWriter *io.PipeWriter
 }
 
 // newClientSSEConnection creates the connection which was opened with the request for reqURL
@@ -37,6 +37,8 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 		for {
 			line, err := reader.ReadString('\n')
 			if err != nil {
+				// The end of the event stream is the end of the connection
+				_ = c.sseWriter.CloseWithError(err)
 				break loop
 			}
 			line = strings.TrimRight(line, "\r\n")
-- 
2.43.0


From 53019a6ce460438c8e0fd371713fccf80e1f4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 47/59] fix: concurrent POSTs of the same client are not
 refused

---
 clientsseconnection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index bf209f9..c1ddc5c 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -16,6 +16,7 @@ type clientSSEConnection struct {
 	reqURL    string
 	sseReader *io.PipeReader
 	sseWriter *io.PipeWriter
+	posting   chan struct{} // one POST at a time, the server refuses a POST while it handles another one
 }
 
 // newClientSSEConnection creates the connection which was opened with the request for reqURL
@@ -25,8 +26,9 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
-		client: client,
-		reqURL: reqURL,
+		client:  client,
+		reqURL:  reqURL,
+		posting: make(chan struct{}, 1),
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
@@ -69,6 +71,8 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	c.posting <- struct{}{}
+	defer func() { <-c.posting }()
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From faabee90ccd43ec95b3636f7f4180f6410c6e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 48/59] fix: the client closes its HTTP connection when it has
 ended

---
 client.go              | 4 ++++
 clientsseconnection.go | 8 ++++++++
 websocketconnection.go | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/client.go b/client.go
index 389215a..93382e3 100644
--- a/client.go
+++ b/client.go
@@ -225,6 +225,10 @@ func (c *client) run() (*loop, error) {
 		c.mx.Lock()
 		c.conn = nil
 		c.mx.Unlock()
+		// The server might not have seen the end of it
+		if httpConn, ok := conn.(interface{ close() }); ok {
+			httpConn.close()
+		}
 	}()
 	if err != nil {
 		return nil, err
diff --git a/clientsseconnection.go b/clientsseconnection.go
index c1ddc5c..0ac985c 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -13,6 +13,7 @@ import (
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	body      io.ReadCloser
 	reqURL    string
 	sseReader *io.PipeReader
 	sseWriter *io.PipeWriter
@@ -27,6 +28,7 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 			connectionID: connectionID,
 		},
 		client:  client,
+		body:    body,
 		reqURL:  reqURL,
 		posting: make(chan struct{}, 1),
 	}
@@ -83,3 +85,9 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	closeResponseBody(resp.Body)
 	return len(p), err
 }
+
+// close ends the event stream
+func (c *clientSSEConnection) close() {
+	_ = c.sseReader.Close()
+	_ = c.body.Close()
+}
diff --git a/websocketconnection.go b/websocketconnection.go
index 1125e79..f8bfe78 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -85,6 +85,11 @@ func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+// close closes the websocket. It does not wait for the peer.
+func (w *webSocketConnection) close() {
+	go func() { _ = w.conn.Close(websocket.StatusNormalClosure, "") }()
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
-- 
2.43.0


From 5cddd6ded889b9775168bd8906722445e37eb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 49/59] fix: messages over Redis to all clients and groups do
 not ask for a completion

---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..84bcdf1 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -204,7 +204,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -240,7 +240,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 815978cc03609ed9a3206bf261e46d674761c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:28 +0000
Subject: [PATCH 50/59] fix: clients of the server which sends a message over
 Redis receive it, too

---
 ext/redishublifetimemnager.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 84bcdf1..7aab476 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -23,11 +23,6 @@ const (
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
 )
 
-// SECURITY NOTE: This implementation includes protection against infinite loops
-// by tracking the source instance ID and skipping self-messages.
-// Without this protection, Redis Pub/Sub would cause infinite message loops
-// where each instance processes its own published messages.
-
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
 	Target         string        `json:"t"`
@@ -35,7 +30,7 @@ type redisInvocation struct {
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
 	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID to prevent infinite loops
+	SourceInstance string        `json:"s,omitempty"` // Source instance ID (can be useful for debugging)
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
@@ -132,11 +127,8 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
-	if invocation.SourceInstance == r.instanceID {
-		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
-		return
-	}
+	// Messages from this instance are processed like all others, the clients connected to it are addressed, too.
+	// Processing a message never publishes it again, so there are no loops.
 
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
-- 
2.43.0


From a2ad207418e542dc72ce84059428a9ce82fd027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 51/59] fix: integer arguments arrive unchanged over Redis

---
 ext/redishublifetimemnager.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 7aab476..3622c52 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -3,6 +3,7 @@ package ext
 import (
 	"context"
 	"encoding/json"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -122,11 +123,17 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	level.Debug(r.logger).Log("event", "received_redis_message", "channel", msg.Channel, "payload_len", len(msg.Payload))
 
 	var invocation redisInvocation
-	if err := json.Unmarshal([]byte(msg.Payload), &invocation); err != nil {
+	decoder := json.NewDecoder(strings.NewReader(msg.Payload))
+	decoder.UseNumber() // float64 has not enough digits for all integers
+	if err := decoder.Decode(&invocation); err != nil {
 		level.Error(r.logger).Log("event", "redis_payload_unmarshal_error", "err", err, "payload", msg.Payload)
 		return
 	}
 
+	for i, arg := range invocation.Args {
+		invocation.Args[i] = convertNumbers(arg)
+	}
+
 	// Messages from this instance are processed like all others, the clients connected to it are addressed, too.
 	// Processing a message never publishes it again, so there are no loops.
 
@@ -487,6 +494,30 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 
 // --- Helper methods ---
 
+// convertNumbers converts the numbers in an argument to the types the hub protocols can encode
+func convertNumbers(arg interface{}) interface{} {
+	switch a := arg.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(a.String(), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(a.String(), 10, 64); err == nil {
+			return u
+		}
+		f, _ := a.Float64()
+		return f
+	case []interface{}:
+		for i := range a {
+			a[i] = convertNumbers(a[i])
+		}
+	case map[string]interface{}:
+		for key := range a {
+			a[key] = convertNumbers(a[key])
+		}
+	}
+	return arg
+}
+
 // groupChannel returns the Redis channel name for a specific group.
 // Used for Pub/Sub.
 func (r *redisHubLifetimeManager) groupChannel(groupName string) string {
-- 
2.43.0


From 682ac6c211214fbd62b562be75f641e712d65642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 52/59] fix: the Redis lifetime manager is subscribed before
 its server starts

---
 ext/redishublifetimemnager.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 3622c52..8d4b23e 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -63,6 +63,11 @@ func newRedisHubLifetimeManager(ctx context.Context, logger signalr.StructuredLo
 		// protocol:    protocol, // Store protocol (though json.Marshal handles args for now)
 	}
 
+	// Nothing published from now on must be missed
+	if err := manager.subscribe(); err != nil {
+		cancel()
+		return nil, err
+	}
 	// Start listening to Redis Pub/Sub in a separate goroutine
 	go manager.subscribeLoop()
 
@@ -70,8 +75,8 @@ func newRedisHubLifetimeManager(ctx context.Context, logger signalr.StructuredLo
 	return manager, nil
 }
 
-// subscribeLoop listens to relevant Redis channels
-func (r *redisHubLifetimeManager) subscribeLoop() {
+// subscribe subscribes to the relevant Redis channels
+func (r *redisHubLifetimeManager) subscribe() error {
 	// Subscribe to the 'all' channel and all 'group' channels
 	// PSubscribe allows pattern matching
 	allPattern := redisAllChannel
@@ -79,18 +84,17 @@ func (r *redisHubLifetimeManager) subscribeLoop() {
 	r.pubSub = r.redisClient.PSubscribe(r.ctx, allPattern, groupPattern)
 
 	// Wait for confirmation that subscription is created before proceeding.
-	_, err := r.pubSub.Receive(r.ctx)
-	if err != nil {
+	if _, err := r.pubSub.ReceiveTimeout(r.ctx, 5*time.Second); err != nil {
 		level.Error(r.logger).Log("event", "redis_subscribe_failed", "err", err, "patterns", []string{allPattern, groupPattern})
-		r.cancel() // Signal manager is defunct
-		return
-	}
-
-	err = level.Info(r.logger).Log("event", "redis_subscribed", "patterns", []string{allPattern, groupPattern})
-	if err != nil {
-		return
+		_ = r.pubSub.Close()
+		return err
 	}
+	level.Info(r.logger).Log("event", "redis_subscribed", "patterns", []string{allPattern, groupPattern})
+	return nil
+}
 
+// subscribeLoop listens to the subscribed Redis channels
+func (r *redisHubLifetimeManager) subscribeLoop() {
 	ch := r.pubSub.Channel()
 
 	for {
@@ -109,7 +113,7 @@ func (r *redisHubLifetimeManager) subscribeLoop() {
 			}
 			// Check if the message matches one of the subscribed patterns
 			// (PSubscribe sends messages with Pattern and Channel fields)
-			if msg.Channel == allPattern || strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+			if msg.Channel == redisAllChannel || strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
 				r.handleRedisMessage(msg)
 			} else {
 				level.Debug(r.logger).Log("event", "received_redis_message_unmatched_pattern", "channel", msg.Channel, "pattern", msg.Pattern, "payload", msg.Payload)
-- 
2.43.0


From 4eafe90f5071daa5df08fc6de22d2dc5baa9fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:36 +0000
Subject: [PATCH 53/59] fix: joins, leaves and disconnects take effect on the
 Redis server which owns the connection

---
 ext/redishublifetimemnager.go | 159 ++++++++++++++++++++++------------
 1 file changed, 106 insertions(+), 53 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 8d4b23e..a2af34f 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -17,8 +17,9 @@ import (
 
 const (
 	redisChannelPrefix      = "signalr:"
-	redisAllChannel         = redisChannelPrefix + "all"    // Channel for InvokeAll and InvokeClient messages
-	redisGroupChannelPrefix = redisChannelPrefix + "group:" // Channel for InvokeGroup messages
+	redisAllChannel         = redisChannelPrefix + "all"        // Channel for InvokeAll and InvokeClient messages
+	redisMembershipChannel  = redisChannelPrefix + "membership" // Channel for joins and leaves of connections of other instances
+	redisGroupChannelPrefix = redisChannelPrefix + "group:"     // Channel for InvokeGroup messages
 	// redisClientChannelPrefix   = redisChannelPrefix + "client:" // Not used with current invoke approach
 	redisGroupMembershipPrefix = redisChannelPrefix + "groupmembers:" // Key prefix for Redis Sets storing group members (Set key: signalr:groupmembers:<groupName>, Value: {connectionID1, connectionID2, ...})
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
@@ -34,10 +35,18 @@ type redisInvocation struct {
 	SourceInstance string        `json:"s,omitempty"` // Source instance ID (can be useful for debugging)
 }
 
+// redisMembership represents a message sent over Redis to change the membership of a connection
+type redisMembership struct {
+	GroupName    string `json:"g"`
+	ConnectionID string `json:"c"`
+	Member       bool   `json:"m"`
+}
+
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
 type redisHubLifetimeManager struct {
 	clients          sync.Map // Map[string]signalr.HubConnection - Local connections on this server instance
-	connectionGroups sync.Map // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	groupsMx         sync.Mutex
+	connectionGroups map[string]map[string]struct{} // Local cache: connectionID -> set of groupNames this connection belongs to. Guarded by groupsMx
 	redisClient      *redis.Client
 	pubSub           *redis.PubSub
 	logger           signalr.StructuredLogger
@@ -55,11 +64,12 @@ func newRedisHubLifetimeManager(ctx context.Context, logger signalr.StructuredLo
 	mgrCtx, cancel := context.WithCancel(ctx)
 
 	manager := &redisHubLifetimeManager{
-		redisClient: redisclient,
-		logger:      info,
-		instanceID:  instanceID,
-		ctx:         mgrCtx,
-		cancel:      cancel,
+		connectionGroups: make(map[string]map[string]struct{}),
+		redisClient:      redisclient,
+		logger:           info,
+		instanceID:       instanceID,
+		ctx:              mgrCtx,
+		cancel:           cancel,
 		// protocol:    protocol, // Store protocol (though json.Marshal handles args for now)
 	}
 
@@ -81,7 +91,7 @@ func (r *redisHubLifetimeManager) subscribe() error {
 	// PSubscribe allows pattern matching
 	allPattern := redisAllChannel
 	groupPattern := r.groupChannel("*")
-	r.pubSub = r.redisClient.PSubscribe(r.ctx, allPattern, groupPattern)
+	r.pubSub = r.redisClient.PSubscribe(r.ctx, allPattern, groupPattern, redisMembershipChannel)
 
 	// Wait for confirmation that subscription is created before proceeding.
 	if _, err := r.pubSub.ReceiveTimeout(r.ctx, 5*time.Second); err != nil {
@@ -115,6 +125,8 @@ func (r *redisHubLifetimeManager) subscribeLoop() {
 			// (PSubscribe sends messages with Pattern and Channel fields)
 			if msg.Channel == redisAllChannel || strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
 				r.handleRedisMessage(msg)
+			} else if msg.Channel == redisMembershipChannel {
+				r.handleMembership(msg)
 			} else {
 				level.Debug(r.logger).Log("event", "received_redis_message_unmatched_pattern", "channel", msg.Channel, "pattern", msg.Pattern, "payload", msg.Payload)
 			}
@@ -265,7 +277,9 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 func (r *redisHubLifetimeManager) OnConnected(conn signalr.HubConnection) {
 	r.clients.Store(conn.ConnectionID(), conn)
 	// Initialize local group cache for this connection
-	r.connectionGroups.Store(conn.ConnectionID(), make(map[string]struct{}))
+	r.groupsMx.Lock()
+	r.connectionGroups[conn.ConnectionID()] = make(map[string]struct{})
+	r.groupsMx.Unlock()
 	level.Debug(r.logger).Log("event", "client_connected_local", "connectionId", conn.ConnectionID())
 	// No Redis action needed on connect, only when adding to groups.
 }
@@ -276,13 +290,11 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 
 	// Remove connection from all groups it belonged to in Redis
 	// Use the local cache to know which groups to remove it from
-	if groups, ok := r.connectionGroups.LoadAndDelete(connectionID); ok {
-		groupSet, castOK := groups.(map[string]struct{})
-		if !castOK {
-			level.Error(r.logger).Log("event", "invalid_group_cache_type", "connectionId", connectionID)
-			return // Cannot proceed if cache is corrupt
-		}
-
+	r.groupsMx.Lock()
+	groupSet, ok := r.connectionGroups[connectionID]
+	delete(r.connectionGroups, connectionID)
+	r.groupsMx.Unlock()
+	if ok {
 		if len(groupSet) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
@@ -416,26 +428,25 @@ func (r *redisHubLifetimeManager) InvokeGroupExcept(groupName string, target str
 	}
 }
 
-// AddToGroup adds the connection to the local cache and the Redis Set.
+// AddToGroup adds the connection to the local cache and the Redis Set of the server instance which owns it.
 func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
+	if !r.addLocalConnection(groupName, connectionID) {
+		r.publishMembership(redisMembership{GroupName: groupName, ConnectionID: connectionID, Member: true})
+	}
+}
+
+// addLocalConnection returns false when the connection is not connected to this server instance
+func (r *redisHubLifetimeManager) addLocalConnection(groupName string, connectionID string) bool {
 	// Add to local cache first
-	groupsRaw, loaded := r.connectionGroups.Load(connectionID)
-	if !loaded {
-		// This might happen if OnConnected hasn't finished or connection disconnected rapidly.
-		// We could try loading again or just log a warning.
-		level.Warn(r.logger).Log("event", "group_cache_not_found_on_add", "connectionId", connectionID, "group", groupName)
-		// Initialize it defensively?
-		groupsRaw = make(map[string]struct{})
-		r.connectionGroups.Store(connectionID, groupsRaw)
-	}
-
-	groupSet, castOK := groupsRaw.(map[string]struct{})
-	if !castOK {
-		level.Error(r.logger).Log("event", "invalid_group_cache_type_on_add", "connectionId", connectionID)
-		// Don't proceed with Redis if local cache is bad.
-		return
+	r.groupsMx.Lock()
+	groupSet, connected := r.connectionGroups[connectionID]
+	if connected {
+		groupSet[groupName] = struct{}{} // Add to the local set
+	}
+	r.groupsMx.Unlock()
+	if !connected {
+		return false
 	}
-	groupSet[groupName] = struct{}{} // Add to the local set
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -448,32 +459,36 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// For simplicity, we leave it in the local cache. If Redis fails,
 		// the connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
+		r.groupsMx.Lock()
 		delete(groupSet, groupName) // Rollback local add on Redis failure
+		r.groupsMx.Unlock()
+	} else if !r.isLocalMember(groupName, connectionID) {
+		// Removed or disconnected in the meantime, Redis might have been asked to remove it before it was added
+		_ = r.redisClient.SRem(ctx, redisKey, connectionID).Err()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
 
-	// No need to publish a message for AddToGroup.
+	return true
 }
 
-// RemoveFromGroup removes the connection from the local cache and the Redis Set.
+// RemoveFromGroup removes the connection from the local cache and the Redis Set of the server instance which owns it.
 func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
+	if !r.removeLocalConnection(groupName, connectionID) {
+		r.publishMembership(redisMembership{GroupName: groupName, ConnectionID: connectionID})
+	}
+}
+
+// removeLocalConnection returns false when the connection is not connected to this server instance
+func (r *redisHubLifetimeManager) removeLocalConnection(groupName string, connectionID string) bool {
 	// Remove from local cache
-	removedLocally := false
-	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
-		groupSet, castOK := groupsRaw.(map[string]struct{})
-		if castOK {
-			if _, exists := groupSet[groupName]; exists {
-				delete(groupSet, groupName)
-				removedLocally = true
-			}
-		} else {
-			level.Error(r.logger).Log("event", "invalid_group_cache_type_on_remove", "connectionId", connectionID)
-			// Don't attempt Redis removal if local cache is bad? Or proceed anyway?
-			// Let's proceed with Redis removal attempt for robustness.
-		}
-	} else {
-		level.Warn(r.logger).Log("event", "group_cache_not_found_on_remove", "connectionId", connectionID, "group", groupName)
+	r.groupsMx.Lock()
+	groupSet, connected := r.connectionGroups[connectionID]
+	_, removedLocally := groupSet[groupName]
+	delete(groupSet, groupName)
+	r.groupsMx.Unlock()
+	if !connected {
+		return false
 	}
 
 	// Remove connection ID from the Redis Set for the group
@@ -488,16 +503,52 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 		level.Error(r.logger).Log("event", "redis_srem_failed", "group", groupName, "connectionId", connectionID, "err", err)
 		// If Redis failed, should we re-add to local cache if we removed it?
 		// For simplicity, leave local cache as removed.
+	} else if r.isLocalMember(groupName, connectionID) {
+		// Added again in the meantime, Redis might have been asked to add it before it was removed
+		_ = r.redisClient.SAdd(ctx, redisKey, connectionID).Err()
 	} else {
 		// Log whether the member was actually removed from Redis (result > 0)
 		level.Debug(r.logger).Log("event", "removed_from_redis_group", "group", groupName, "connectionId", connectionID, "redis_removed_count", result, "removed_locally", removedLocally)
 	}
 
-	// No need to publish a message for RemoveFromGroup.
+	return true
 }
 
 // --- Helper methods ---
 
+// isLocalMember tells if the connection is connected to this server instance and a member of the group
+func (r *redisHubLifetimeManager) isLocalMember(groupName string, connectionID string) bool {
+	r.groupsMx.Lock()
+	defer r.groupsMx.Unlock()
+	_, ok := r.connectionGroups[connectionID][groupName]
+	return ok
+}
+
+// publishMembership asks the server instance which owns the connection to change its membership
+func (r *redisHubLifetimeManager) publishMembership(membership redisMembership) {
+	payload, err := json.Marshal(membership)
+	if err == nil {
+		err = r.redisClient.Publish(r.ctx, redisMembershipChannel, payload).Err()
+	}
+	if err != nil {
+		level.Error(r.logger).Log("event", "redis_publish_failed", "channel", redisMembershipChannel, "err", err)
+	}
+}
+
+// handleMembership changes the membership of a connection which is connected to this server instance
+func (r *redisHubLifetimeManager) handleMembership(msg *redis.Message) {
+	var membership redisMembership
+	if err := json.Unmarshal([]byte(msg.Payload), &membership); err != nil {
+		level.Error(r.logger).Log("event", "redis_payload_unmarshal_error", "err", err, "payload", msg.Payload)
+	} else {
+		if membership.Member {
+			r.addLocalConnection(membership.GroupName, membership.ConnectionID)
+		} else {
+			r.removeLocalConnection(membership.GroupName, membership.ConnectionID)
+		}
+	}
+}
+
 // convertNumbers converts the numbers in an argument to the types the hub protocols can encode
 func convertNumbers(arg interface{}) interface{} {
 	switch a := arg.(type) {
@@ -572,7 +623,9 @@ func (r *redisHubLifetimeManager) Close() error {
 
 	// Clear local maps (optional, helps GC)
 	r.clients = sync.Map{}
-	r.connectionGroups = sync.Map{}
+	r.groupsMx.Lock()
+	r.connectionGroups = make(map[string]map[string]struct{})
+	r.groupsMx.Unlock()
 
 	return err // Return the error from closing the main client connection
 }
-- 
2.43.0


From 5a6c91a4325e1786a0c742dbddef37a6810ad8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:39 +0000
Subject: [PATCH 54/59] fix: connections which end with their server are
 removed from the Redis groups

---
 ext/redishublifetimemnager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index a2af34f..e0d02e3 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -298,7 +298,8 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 		if len(groupSet) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
-			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
+			// The connection might end because the server does
+			ctx, cancel := context.WithTimeout(context.WithoutCancel(r.ctx), 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
 			for groupName := range groupSet {
-- 
2.43.0


From 29f9cf404b98dbba9309cd772d39f832a737603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:31 +0000
Subject: [PATCH 55/59] fix: the group with the empty name is served over Redis

---
 ext/redishublifetimemnager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index e0d02e3..78bd950 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -191,7 +191,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+	if strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
 		groupName := invocation.GroupName // Group name is in the payload
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
-- 
2.43.0


From 27ca65c8dc50f3b74a5a44356c08337b997be250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:32 +0000
Subject: [PATCH 56/59] fix: a message to a client with an empty connection ID
 is not sent to all clients over Redis

---
 ext/redishublifetimemnager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 78bd950..9ccabd7 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -358,6 +358,10 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
+	if connectionID == "" {
+		// No connection has an empty ID. Without an ID the message would be sent to all connections.
+		return
+	}
 	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
-- 
2.43.0


From 9bfdd40d1f8e6cd44ff6d5130b7bafcee29e67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:32 +0000
Subject: [PATCH 57/59] fix: HttpConnectionFactory leaves the options of the
 caller as they are, so a reconnecting client can use all transports again

---
 clientoptions.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..3962548 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -47,8 +47,8 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 			return nil, err
 		}
 		if conn.transports != nil {
-			// Remove the WithTransports option
-			options = append(options[:i], options[i+1:]...)
+			// Remove the WithTransports option, but not for the caller, who may use the options again
+			options = append(append([]func(*httpConnection) error{}, options[:i]...), options[i+1:]...)
 			break
 		}
 	}
@@ -60,7 +60,7 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If Websockets are allowed, we try to connect with these
 		if transport == TransportWebSockets {
-			wsOptions := append(options, WithTransports(TransportWebSockets))
+			wsOptions := append(options[:len(options):len(options)], WithTransports(TransportWebSockets))
 			conn, err := NewHTTPConnection(ctx, address, wsOptions...)
 			// If this is ok, return the conn
 			if err == nil {
@@ -72,7 +72,7 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If SSE is allowed, with fallback to try these
 		if transport == TransportServerSentEvents {
-			sseOptions := append(options, WithTransports(TransportServerSentEvents))
+			sseOptions := append(options[:len(options):len(options)], WithTransports(TransportServerSentEvents))
 			return NewHTTPConnection(ctx, address, sseOptions...)
 		}
 	}
-- 
2.43.0


From 48ba04d60b8b6d7ac5ecf282764ec00268795a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 58/59] fix: the headers of the caller of NewHTTPConnection are
 not changed, and may be nil

---
 httpconnection.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/httpconnection.go b/httpconnection.go
index bafd155..4f0b71d 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -106,9 +106,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
-	}
+	req.Header = httpConn.header()
 
 	resp, err := httpConn.client.Do(req)
 	if err != nil {
@@ -174,11 +172,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			opts.HTTPClient = c
 		}
 
-		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
-		} else {
-			opts.HTTPHeader = http.Header{}
-		}
+		opts.HTTPHeader = httpConn.header()
 
 		for _, cookie := range resp.Cookies() {
 			opts.HTTPHeader.Add("Cookie", cookie.String())
@@ -198,9 +192,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
-		}
+		req.Header = httpConn.header()
 		req.Header.Set("Accept", "text/event-stream")
 
 		resp, err := httpConn.client.Do(req)
@@ -228,6 +220,16 @@ func closeResponseBody(body io.ReadCloser) {
 	_ = body.Close()
 }
 
+// header returns a copy of the headers for a request, as they belong to the caller
+func (h *httpConnection) header() http.Header {
+	if h.headers != nil {
+		if header := h.headers(); header != nil {
+			return header.Clone()
+		}
+	}
+	return http.Header{}
+}
+
 func (h *httpConnection) hasTransport(transport TransportType) bool {
 	for _, t := range h.transports {
 		if transport == t {
-- 
2.43.0


From aafba96035e68fd59be608b6cf8edf504148226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 59/59] fix: the POST requests of a SSE connection have the
 headers set by WithHTTPHeaders

---
 clientsseconnection.go | 5 ++++-
 httpconnection.go      | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 0ac985c..566b3a3 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -13,6 +13,7 @@ import (
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	header    func() http.Header
 	body      io.ReadCloser
 	reqURL    string
 	sseReader *io.PipeReader
@@ -21,13 +22,14 @@ type clientSSEConnection struct {
 }
 
 // newClientSSEConnection creates the connection which was opened with the request for reqURL
-func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, header func() http.Header) (*clientSSEConnection, error) {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
 		client:  client,
+		header:  header,
 		body:    body,
 		reqURL:  reqURL,
 		posting: make(chan struct{}, 1),
@@ -73,6 +75,7 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	req.Header = c.header()
 	c.posting <- struct{}{}
 	defer func() { <-c.posting }()
 	resp, err := c.client.Do(req)
diff --git a/httpconnection.go b/httpconnection.go
index 4f0b71d..bc7c72c 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -200,7 +200,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.header)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

