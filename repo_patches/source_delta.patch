From 73370f236e7c36292807007b5835a3830221df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 01/45] fix: check the completion state again after registering
 a listener

A completion between the first check and listen() notified nobody, and the future never resolved.
---
 .../analyzer-abstractions/src/futures_extensions.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..a7d8e11 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -73,8 +73,15 @@ where
 			return value;
 		}
 
-		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		// Otherwise, await for an on-completed event before returning the set result. The listener only observes
+		// notifications made after it was created, so the state has to be checked again before awaiting it.
+		let listener = self.state.on_completed.listen();
+
+		if let Poll::Ready(value) = self.state() {
+			return value;
+		}
+
+		listener.await; // Asynchronously wait for the on-completed event.
 
 		if let Poll::Ready(value) = self.state() {
 			return value;
-- 
2.43.0


From 7cd54c64c0d88b9bf44ee8236a4464d62f971a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 02/45] fix: check for completion under the lock in
 FutureCompletionSource

Two concurrent completers could both pass the check and both report success.
---
 crates/analyzer-abstractions/src/futures_extensions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index a7d8e11..7e7fc6f 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -110,6 +110,9 @@ where
 
 	#[inline(always)]
 	fn set_inner_value(&self, result: Result<T, TError>) -> FutureCompletionSourceResult<()> {
+		let mut writer = self.state.value.write().unwrap();
+
+		// Only one completer can hold the lock, so no other one can complete between this check and the store below.
 		let completed = self.state.completed.load(Ordering::Relaxed);
 
 		if completed {
@@ -118,8 +121,6 @@ where
 
 		// Store the result, set the `completed` state to true and then notify all those that are currently
 		// awaiting to resolve their 'Future'.
-		let mut writer = self.state.value.write().unwrap();
-
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 0baf9acffad97acbc69a4709fa630b44055e9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 03/45] fix: do not panic when the pool is stopped while a task
 is woken

---
 .../src/futures_extensions/async_extensions.rs                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..8931c77 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -33,7 +33,8 @@ impl ArcWake for AsyncWork {
 		}
 		let cloned = arc_self.clone();
 
-		arc_self.sender.send_blocking(cloned).unwrap();
+		// The queue can be closed after the check above: there is nobody left to run the work then.
+		let _ = arc_self.sender.send_blocking(cloned);
 	}
 }
 
-- 
2.43.0


From 986d17419184911041bcf37aa1ae042ff524555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:48 +0000
Subject: [PATCH 04/45] fix: keep the last character of an unterminated last
 line in position conversions

The slice of a line excluded its last byte, which is the line break for every line except for an unterminated last
one: a position at the end of such a line was converted to the offset before its last character (or, when that
character takes several bytes, to the start of the line), and edits there were applied at the wrong place.
---
 crates/analyzer-core/src/lsp_file.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..7de6ea7 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -80,6 +80,12 @@ impl LspFile {
 		slice.chars().count()
 	}
 
+	// content of a line that starts at a given byte, without its line break (the last line may not have one)
+	fn line_content(&self, start_byte: usize, line: usize) -> &str {
+		let content = self.file.slice(start_byte..self.ranges[line] + 1).unwrap_or("");
+		content.strip_suffix('\n').unwrap_or(content)
+	}
+
 	pub fn lsp_to_byte(&self, lsp_pos: &Position) -> usize {
 		// O(1) time complexity
 		// file is empty
@@ -95,7 +101,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.line_content(start_byte, lsp_pos.line).chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -128,7 +134,7 @@ impl LspFile {
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.line_content(byte_count, line).chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
-- 
2.43.0


From f4af101e3aef5bc63ec7f8a108548c1597677a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 05/45] fix: let apply_edit edit tokens the parser has not
 visited yet

---
 crates/analyzer-core/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..6c01e49 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -99,6 +99,11 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		// apply edit to the input
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
+		// the memo table only has columns for the positions visited so far
+		if self.memo_table.len() < range.end {
+			self.memo_table.resize(range.end, Default::default());
+		}
+
 		// adjust the memo table: replace the affected range with empty entries
 		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
 
-- 
2.43.0


From 3745ba3ca9dd77922f19f98035d1a134d5d7e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 06/45] fix: do not overflow the examined length of rules that
 examine no token

---
 crates/analyzer-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index 6c01e49..fe98f5a 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -225,7 +225,8 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		// a rule that examines no token (e.g. an empty terminal) leaves the maximum at its initial value
+		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -237,7 +238,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From ad2e695c5561f77ee872444b78fa215d07f6ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 07/45] fix: stop a repetition at an empty match

---
 crates/analyzer-core/src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index fe98f5a..acdfb86 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -199,11 +199,13 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 				let mut matches = vec![];
 				loop {
 					let orig_pos = self.pos;
-					if let Some(cst) = self.memoized_eval_rule(rule) {
-						matches.push(cst);
-					} else {
-						self.pos = orig_pos;
-						break Some(Cst::Repetition(matches).into());
+					match self.memoized_eval_rule(rule) {
+						// an empty match would repeat forever
+						Some(cst) if self.pos != orig_pos => matches.push(cst),
+						_ => {
+							self.pos = orig_pos;
+							break Some(Cst::Repetition(matches).into());
+						}
 					}
 				}
 			}
-- 
2.43.0


From 36fc7a5d628ac95ebc91b33c00a7b7e3d88a23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 08/45] fix: share the request identifier counter between
 clones of the request manager

---
 crates/analyzer-host/src/lsp/request.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..ee02fb1 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>,
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -210,7 +210,7 @@ impl Clone for RequestManager {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(),
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From 6118701c5583c105c80c636a24b8b51bbc17e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:44 +0000
Subject: [PATCH 09/45] fix: answer a request whose parameters cannot be
 decoded

---
 crates/analyzer-host/src/lsp/dispatch_target.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..a11650c 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,21 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(err) => {
+						error!(method = method, "Invalid parameters for request '{}': {}", method, err);
+
+						return Ok((
+							Some(Message::Response(Response::new_error(
+								request.id.clone(),
+								ErrorCode::InvalidParams as i32,
+								"Invalid parameters.",
+							))),
+							current_state,
+						));
+					}
+				};
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From e757d376d73146dd7c3246dfeffc089e9ea9d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 10/45] fix: use the file system of the client when the host
 process supplies none

---
 crates/analyzer-host/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..c1ab372 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,7 +65,7 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system.clone(),
 		));
 
 		match join_all(
-- 
2.43.0


From ba84ecda988cf1018c6997f31eca51166a3ffbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 11/45] fix: leave the message loop when the client's channel
 is closed

---
 crates/analyzer-host/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index c1ab372..f1d57fb 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -157,6 +157,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
-- 
2.43.0


From 43fb69acef5f7e6d406ef5736e21c5b956c97deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 12/45] fix: do not panic when a message arrives after exit or
 the client is gone

---
 crates/analyzer-host/src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index f1d57fb..8d1ebfc 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -99,10 +99,17 @@ impl AnalyzerHost {
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
-				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
-				},
+				Ok(message) => {
+					let sent = match message {
+						Message::Response(_) => responses_sender.send(message).await,
+						_ => requests_sender.send(message).await,
+					};
+
+					// A closed channel means that the server has stopped.
+					if sent.is_err() {
+						break;
+					}
+				}
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
 					break;
@@ -144,7 +151,9 @@ impl AnalyzerHost {
 						{
 							Ok(response_message) => {
 								if let Some(Message::Response(_)) = &response_message {
-									self.sender.send(response_message.unwrap()).await.unwrap();
+									if self.sender.send(response_message.unwrap()).await.is_err() {
+										error!("Unexpected error sending response: the client has disconnected.");
+									}
 								}
 							}
 							Err(err) => {
-- 
2.43.0


From 64f72e8aef015bd0b42b982821fce6320b621fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 13/45] fix: report cancellation only when the host was
 cancelled

---
 crates/analyzer-host/src/lib.rs         | 6 +++++-
 crates/analyzer-host/src/lsp/request.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 8d1ebfc..604f97f 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -120,7 +120,11 @@ impl AnalyzerHost {
 		requests_sender.close();
 		responses_sender.close();
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	async fn run_protocol_machine(
diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index ee02fb1..48f8ecd 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,7 +88,11 @@ impl RequestManager {
 			}
 		}
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	/// Sends a typed notification to the LSP client.
-- 
2.43.0


From 683f07ff820897c4de1378292e584121d58fce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 14/45] fix: fail the requests to the client that are still
 awaiting a response when the host ends

---
 crates/analyzer-host/src/lsp/request.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index 48f8ecd..2826b2e 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,6 +88,13 @@ impl RequestManager {
 			}
 		}
 
+		// No further response will be received, so fail the requests that are still awaiting theirs.
+		self.responses.close();
+
+		for (_, awaiting_request) in self.awaiting_requests.write().await.drain() {
+			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
+		}
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -184,7 +191,8 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
-		if let Err(_) = self.requests.send(Message::Request(request)).await {
+		// Once registered, the request is failed by `start()` when no further response will be received, unless it already was.
+		if self.responses.is_closed() || self.requests.send(Message::Request(request)).await.is_err() {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
 			return Err(LspProtocolError::TransportError);
-- 
2.43.0


From cf4eb7e1e3c1ebe7f8fb80a1e90720acb07ad7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:02 +0000
Subject: [PATCH 15/45] fix: do not panic when the declared content length
 cannot be allocated

---
 crates/analyzer-host/src/json_rpc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..5bfe195 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -115,6 +115,7 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
 	let mut buf = buf.into_bytes();
+	buf.try_reserve_exact(size).map_err(invalid_data)?; // the declared length may exceed what can be allocated
 	buf.resize(size, 0);
 	inp.read_exact(&mut buf)?;
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
-- 
2.43.0


From 4da3a1a137bfd586480e1aa8004c39193ec06aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 16/45] fix: accept #pragma outside skipped conditionals
 instead of panicking

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..943f0c0 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -354,7 +354,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					PreprocessorDirective::Pragma(_) => (),
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From 4981ef1c0ad7e88689f63cfbc5089a29c6c4510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:21 +0000
Subject: [PATCH 17/45] fix: put the tokens of an included file in the order of
 the file

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 943f0c0..51cb087 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -299,6 +299,7 @@ impl<'a> PreprocessorState<'a> {
 							input.reserve(input.len() + tokens.len());
 							tokens
 								.iter()
+								.rev()
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
 								.for_each(|x| input.push_front(x));
-- 
2.43.0


From bccdfc005bfc294896758f109e72b6177779c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:21 +0000
Subject: [PATCH 18/45] fix: report the inclusion of the file that is being
 preprocessed as recursive

---
 crates/analyzer-core/src/preprocessor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 51cb087..4736fdc 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -278,6 +278,10 @@ impl<'a> PreprocessorState<'a> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
 		let mut previous_file = None;
 
+		if let Some((root, _, _)) = input.front() {
+			self.state.insert(*root, VertexState::Open);
+		}
+
 		while let Some((id, tk, span)) = input.pop_front() {
 			if let Some(file) = previous_file {
 				if file != id {
-- 
2.43.0


From b04d4ccea7da374bca5d3ef663ae5e6b43757e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 19/45] fix: shift the left operand of >> in preprocessor
 conditions

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 4736fdc..a38e9d9 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -503,7 +503,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
 					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
+					PreprocessorBinOp::BitwiseShiftRight => l >> r,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From dece002d34775a5facfedd0bc7faa666e21bd705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 20/45] fix: do not panic on overflow, division by zero or
 oversized shifts in preprocessor conditions

---
 crates/analyzer-core/src/preprocessor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a38e9d9..0333128 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -489,11 +489,11 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::Or => l | r,
 					PreprocessorBinOp::Xor => l ^ r,
 					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
+					PreprocessorBinOp::Plus => l.checked_add(r)?,
+					PreprocessorBinOp::Minus => l.checked_sub(r)?,
+					PreprocessorBinOp::Times => l.checked_mul(r)?,
+					PreprocessorBinOp::Divide => l.checked_div(r)?,
+					PreprocessorBinOp::Modulo => l.checked_rem(r)?,
 					PreprocessorBinOp::Equals => (l == r) as i64,
 					PreprocessorBinOp::NotEquals => (l != r) as i64,
 					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
@@ -502,8 +502,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => l >> r,
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(r.try_into().ok()?)?,
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From a70411f6c4bd4a219d0d2cdfa6cd437fea1e747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 21/45] fix: prefer the longer of two operators with a common
 prefix in preprocessor conditions

---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 0333128..811c2b4 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -120,7 +120,8 @@ mod parser {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
-		for (sym, op) in variants {
+		// the variant added last is tried first
+		for (sym, op) in variants.iter().rev() {
 			let sym: &'static str = sym;
 			let op = op.clone();
 			f = Rc::new(move |s| {
-- 
2.43.0


From a5b9f781545fd7dc5bae14957f84c85e3320e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 22/45] fix: end the evaluation of preprocessor conditions with
 self-referential macros

---
 crates/analyzer-core/src/preprocessor.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 811c2b4..54c0d61 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -471,20 +471,34 @@ impl<'a> PreprocessorState<'a> {
 	}
 
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.interpret_pp_expr_in(cond, &mut vec![])
+	}
+
+	/// `expanding` holds the names of the macros that are being expanded; these have no value of their own.
+	fn interpret_pp_expr_in(
+		&self,
+		cond: &PreprocessorExpression,
+		expanding: &mut Vec<String>,
+	) -> Option<PreprocessorValue> {
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
 			PreprocessorExpression::Identifier(name) => {
-				if let Some(rhs) = self.definitions.get(name) {
+				if expanding.contains(name) {
+					None
+				} else if let Some(rhs) = self.definitions.get(name) {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
+					expanding.push(name.clone());
+					let value = self.interpret_pp_expr_in(&expr, expanding);
+					expanding.pop();
+					value
 				} else {
 					None
 				}
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
-				let r = self.interpret_pp_expr(rhs)?;
+				let l = self.interpret_pp_expr_in(lhs, expanding)?;
+				let r = self.interpret_pp_expr_in(rhs, expanding)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
@@ -507,7 +521,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
+			PreprocessorExpression::Not(inner) => Some(self.interpret_pp_expr_in(inner, expanding).map_or(1, |n| (n == 0) as i64)),
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From 86a8ae44fc9a070cd589c4bb25d4c500b6a08383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:53 +0000
Subject: [PATCH 23/45] fix: parse negations in preprocessor conditions

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 54c0d61..b24542c 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -143,6 +143,7 @@ mod parser {
 		use PreprocessorExpression::*;
 		alt((
 			delimited(tag("("), exp12, tag(")")),
+			map(preceded(pair(tag("!"), multispace0), factor), |e| Not(e.into())),
 			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),
 			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),
 			map(terminated(integer, multispace0), IntLiteral),
-- 
2.43.0


From ed04ce3d967588ad22ae95c5bfb781d6724d642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:53 +0000
Subject: [PATCH 24/45] fix: accept whitespace between "defined" and its
 parenthesis

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index b24542c..8836da6 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -107,7 +107,7 @@ mod parser {
 
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
-			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace0, tag("("))), ws(identifier), tag(")")),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
-- 
2.43.0


From 2736553aaf9c0c48abac6eb6075ce52652854e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:25 +0000
Subject: [PATCH 25/45] fix: ignore unsupported file change types instead of
 panicking

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..ff6a176 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -275,7 +275,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(uri = event.uri.as_str(), "Ignoring an unsupported file change type."),
 		}
 	}
 
-- 
2.43.0


From 7771076d5e6adac3129c17efc6faaa6ea92a3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:25 +0000
Subject: [PATCH 26/45] fix: update a saved file before computing its
 diagnostics

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index ff6a176..b5cd2e6 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -213,10 +213,10 @@ async fn on_text_document_did_save(
 
 		info!("Syncing buffer on save.");
 		let file_id = analyzer.file_id(params.text_document.uri.as_str());
-		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
-		// TODO: report diagnostics, and process *after* the update below!
 		analyzer.update(file_id, &text);
 		file.open_or_update(file_id);
+		// TODO: report diagnostics
+		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
 	}
 
 	Ok(())
-- 
2.43.0


From 0cd07547fabd2a5bf294a1dfba22a1958b883e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 27/45] fix: reject inverted ranges in change notifications
 instead of panicking

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index b5cd2e6..a5caece 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -170,7 +170,11 @@ async fn on_text_document_did_change(
 			});
 			ChangeEvent { range, text }
 		})
-		.collect();
+		.collect::<Vec<_>>();
+
+	if event_change.iter().filter_map(|event| event.range).any(|range| range.start > range.end) {
+		return Err(HandlerError::new_with_data("received a didChange notification with an inverted range", Some(uri)));
+	}
 
 	analyzer.file_change_event(file_id, &event_change);
 
-- 
2.43.0


From 1255591e4a935b6fa10b74f8fd4341504c80d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 28/45] fix: keep files outside of all workspace folders in a
 catch-all workspace instead of panicking

---
 crates/analyzer-host/src/lsp/workspace.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..17e998d 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -15,7 +15,7 @@ use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem,
 	futures_extensions::FutureCompletionSource,
 	lsp_types::{TextDocumentIdentifier, Url, WorkspaceFolder},
-	tracing::{error, info},
+	tracing::info,
 };
 use thiserror::Error;
 
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// Holds the files that are not part of any workspace folder. It is never indexed.
+	catch_all: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -55,6 +58,8 @@ impl WorkspaceManager {
 			|| (false, vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]),
 			|folders| (true, folders),
 		);
+		let catch_all = WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() };
+		let (_, catch_all) = to_workspace(file_system.clone(), catch_all, background_load.clone());
 
 		Self {
 			has_workspaces,
@@ -62,6 +67,7 @@ impl WorkspaceManager {
 				.into_iter()
 				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
 				.collect(),
+			catch_all,
 		}
 	}
 
@@ -89,10 +95,7 @@ impl WorkspaceManager {
 		// 'catch-all' workspace.
 		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
 			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
-			}
+			None => self.catch_all.get_file(uri),
 		}
 	}
 
-- 
2.43.0


From d11f699bafc04ad9b9142f5afb6932a953bb55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 29/45] fix: do not take the siblings of a workspace folder for
 its contents

---
 crates/analyzer-host/src/lsp/workspace.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 17e998d..d515d4b 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -84,6 +84,13 @@ impl WorkspaceManager {
 	/// inform its final state.
 	pub fn get_file(&self, uri: Url) -> Arc<File> {
 		fn is_descendant_path(base: &Url, target: &Url) -> bool {
+			let mut base = base.clone();
+
+			// A relative URL starts from the last folder of the base.
+			if !base.path().ends_with('/') {
+				base.set_path(&format!("{}/", base.path()));
+			}
+
 			if let Some(relative) = base.make_relative(target) {
 				return !relative.starts_with("..");
 			}
-- 
2.43.0


From d11b39ed63bf2592a332a73b2d1d24e0fe2e4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 30/45] fix: index the workspace folders also when progress
 cannot be reported

---
 crates/analyzer-host/src/lsp/workspace.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index d515d4b..b7c7435 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -114,15 +114,20 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// Progress is only informative: index also if it cannot be reported.
+		let progress = progress.begin("Indexing").await.ok();
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				let _ = progress.report(&format!("{}", workspace)).await;
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			let _ = progress.end(None).await;
+		}
 	}
 }
 
-- 
2.43.0


From 1df346cea4879baab40990ebc374c451200671e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 31/45] fix: keep the state of files that are known when a
 workspace is indexed

---
 crates/analyzer-host/src/lsp/workspace.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index b7c7435..362ae35 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -192,10 +192,13 @@ impl Workspace {
 			let mut files = workspace.files.write().unwrap();
 
 			for document_identifier in document_identifiers.into_iter() {
-				files.insert(document_identifier.uri.clone(), Arc::new(File::new(document_identifier.clone())));
+				// Keep a file that is known already: it may be open.
+				if let Entry::Vacant(entry) = files.entry(document_identifier.uri.clone()) {
+					entry.insert(Arc::new(File::new(document_identifier.clone())));
 
-				// Background load the file now that its known to the Workspace.
-				workspace.background_load.load(document_identifier.uri.clone());
+					// Background load the file now that its known to the Workspace.
+					workspace.background_load.load(document_identifier.uri.clone());
+				}
 			}
 		}
 
-- 
2.43.0


From 7583d5f740383d24bad31c65a9d0e391021e2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 32/45] fix: treat an include path that cannot be resolved as
 missing instead of panicking

---
 crates/analyzer-core/src/lib.rs            |  3 ++-
 crates/analyzer-host/src/lsp_impl/state.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..f277ba9 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -49,7 +49,8 @@ pub trait Db: salsa::DbWithJar<Jar> {
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
 	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+		// a path that cannot be resolved names no file
+		(self.resolver_fn)(&file_id.path(self), path).unwrap_or_else(|_| path.to_string())
 	}
 }
 
diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..e3c0ca0 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -50,7 +50,11 @@ impl AnalyzerWrapper {
 				}
 			}
 		};
-		let require = move |file_path: &str| background_queue.enqueue(Url::parse(file_path).unwrap());
+		let require = move |file_path: &str| {
+			if let Ok(file_path) = Url::parse(file_path) {
+				background_queue.enqueue(file_path)
+			}
+		};
 
 		Self {
 			inner: RefCell::new(analyzer_core::Analyzer::new(resolve_path, require)),
@@ -243,5 +247,8 @@ impl Drop for State {
 struct BackgroundQueue(Sender<Url>);
 
 impl BackgroundQueue {
-	pub fn enqueue(&self, file_path: Url) { self.0.send_blocking(file_path).unwrap(); }
+	pub fn enqueue(&self, file_path: Url) {
+		// The channel is closed when the server stops: there is nobody left to load the file then.
+		let _ = self.0.send_blocking(file_path);
+	}
 }
-- 
2.43.0


From 42088f6261808ca981c9cca0aff81532c1c81c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 33/45] fix: do not record an index error for a file that was
 opened meanwhile

---
 crates/analyzer-host/src/lsp_impl/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index e3c0ca0..b9b1393 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -227,6 +227,7 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
+							None if file.is_open_in_ide() => return,
 							None => file.set_index_error(IndexError::NotFound), // The file was not found
 						}
 
-- 
2.43.0


From eabe219e360a8c5a856ffad1d8c6097939ad3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 34/45] fix: load a file that could not be found before when it
 is created

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a5caece..d7d11ce 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -20,6 +20,7 @@ use analyzer_abstractions::{
 use crate::{
 	fsm::LspServerStateDispatcher,
 	lsp::{
+		analyzer::BackgroundLoad,
 		dispatch_target::{HandlerError, HandlerResult},
 		state::LspServerState,
 		DispatchBuilder,
@@ -251,7 +252,9 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 			info!("{} file updated from file system", uri.path());
 		}
 		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
+			// The file could not be loaded before, but may be now.
+			info!(uri = uri.as_str(), "Loading a file that had an index error: {}", err);
+			state.read().await.analyzer.load(uri.clone());
 		}
 	}
 }
-- 
2.43.0


From 32906b5e5becb8cf5ef893ccca483c5fb2e80895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 35/45] fix: announce that opened and closed documents are
 handled

---
 crates/analyzer-host/src/lsp_impl/active_uninitialized.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..aee17fe 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -119,6 +119,7 @@ fn create_initialize_result(include_workspace_folders: bool) -> InitializeResult
 					// FIXME: temporary solution
 					include_text: Some(true),
 				})),
+				open_close: Some(true),
 				change: Some(TextDocumentSyncKind::INCREMENTAL),
 				..Default::default()
 			})),
-- 
2.43.0


From 3dbd28314cf323a6b54bdf0a4eed7fc360a8cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 36/45] fix: report an integer literal with an oversized width
 instead of panicking

---
 crates/analyzer-core/src/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..8b561e1 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -378,16 +378,16 @@ fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
 	}
 
-	WIDTH.captures(str).map(|caps| {
+	WIDTH.captures(str).and_then(|caps| {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		let width = width.as_str().parse().ok()?;
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
 			_ => unreachable!(),
 		};
-		((width, signed), &str[sign.end()..])
+		Some(((width, signed), &str[sign.end()..]))
 	})
 }
-- 
2.43.0


From f0183fb0d677ab73b37d3586bab265928d2398e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 37/45] fix: look for the width and base of an integer literal
 only at its start

---
 crates/analyzer-core/src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 8b561e1..06759eb 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -357,7 +357,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
-		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
+		static ref BASE: Regex = Regex::new("^0([bBdDoOxX])").unwrap();
 	}
 
 	BASE.captures(str).map(|caps| {
@@ -375,7 +375,7 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 
 fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 	lazy_static! {
-		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
+		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
 
 	WIDTH.captures(str).and_then(|caps| {
-- 
2.43.0


From fb34493ff9a2e670bb381d65bd881abe48f14aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 38/45] fix: accept underscores in integer literals

---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 06759eb..f22e7f5 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -160,7 +160,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			})
 			.unwrap_or(str);
 
-		lit.value = match i64::from_str_radix(str, lit.base as u32).ok() {
+		lit.value = match i64::from_str_radix(&str.replace('_', ""), lit.base as u32).ok() {
 			Some(i) => i,
 			None => {
 				self.report(Severity::Error, "malformed integer literal");
-- 
2.43.0


From 39081fee2132088367c8d56f873f0d2cf57c4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 39/45] fix: keep the whole replacement of a macro that
 contains backslashes

---
 crates/analyzer-core/src/lexer.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index f22e7f5..c902df1 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -285,21 +285,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			iter.next();
 		}
 
-		let mut escape = false;
-		let mut rhs = String::new();
-		loop {
-			let ch = iter.next();
-
-			// FIXME: these escapes do not work for string literals
-			match (escape, ch) {
-				(true, Some(ch)) => rhs.push(ch),
-				(_, Some('\\')) => escape = true,
-				(_, Some('\n')) => break,
-				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
-				(false, None) => break,
-			}
-		}
+		// the escapes have been processed already
+		let rhs = iter.collect();
 
 		Some((symbol, rhs))
 	}
-- 
2.43.0


From ff6b86e56f88e7724895e972c61e29fdd413d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 40/45] fix: accept a line comment at the end of a file

---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index c902df1..6b6f58f 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -45,7 +45,7 @@ pub enum Token {
 	#[token(",")]
 	Comma,
 
-	#[regex("//[^\n]*\n")]
+	#[regex("//[^\n]*\n?")]
 	#[regex("/\\*", |lex| Lexer(lex).read_comment())]
 	Comment,
 
-- 
2.43.0


From 008d8d35310e53ca1e1f82f7f907b8c8b8c4d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:10 +0000
Subject: [PATCH 41/45] fix: do not panic when loading a file that is not UTF-8
 or not on disk

---
 crates/p4-analyzer/src/native_fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index e63d65e..a67e8a8 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -43,12 +43,13 @@ pub mod native_fs {
 
 		fn file_contents<'a>(&'a self, file_uri: Url) -> BoxFuture<'a, Option<String>> {
 			async fn file_contents(file_uri: Url) -> Option<String> {
-				let path = file_uri.to_file_path().unwrap();
+				// An address that does not lie in the native file system (e.g., 'untitled:') names no file.
+				let path = file_uri.to_file_path().ok()?;
 
 				let data = tokio::fs::read(path).await;
 
 				match data {
-					Ok(data) => Some(String::from_utf8(data).unwrap()),
+					Ok(data) => Some(String::from_utf8_lossy(&data).into_owned()),
 					Err(_) => None,
 				}
 			}
-- 
2.43.0


From fae2126e3128cfb93e81dd7811e27a706ce6ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:10 +0000
Subject: [PATCH 42/45] fix: enumerate folders without panicking and without
 writing to stdout

---
 crates/p4-analyzer/src/native_fs.rs | 35 +++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index a67e8a8..1a4f63f 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -2,9 +2,10 @@ pub mod native_fs {
 	use analyzer_abstractions::{
 		fs::{AnyEnumerableFileSystem, EnumerableFileSystem},
 		lsp_types::{TextDocumentIdentifier, Url},
+		tracing::error,
 		BoxFuture,
 	};
-	use glob::glob;
+	use glob::{glob, Pattern};
 
 	pub struct NativeFs {}
 
@@ -20,18 +21,34 @@ pub mod native_fs {
 			file_pattern: String,
 		) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
 			async fn enumerate_folder(folder_uri: Url, file_pattern: String) -> Vec<TextDocumentIdentifier> {
-				let mut folder_uri = folder_uri.clone();
-				folder_uri.path_segments_mut().unwrap().push(&file_pattern);
-
-				let glob_pattern = folder_uri.to_file_path().unwrap();
-				let glob_pattern = glob_pattern.to_str().unwrap();
+				// A folder that does not lie in the native file system contains no files.
+				let folder_path = match folder_uri.to_file_path() {
+					Ok(path) => path,
+					Err(_) => return Vec::new(),
+				};
+
+				// The name of the folder is not part of the pattern.
+				let glob_pattern = format!("{}/{}", Pattern::escape(&folder_path.to_string_lossy()), file_pattern);
+				let paths = match glob(&glob_pattern) {
+					Ok(paths) => paths,
+					Err(err) => {
+						error!("Failed to read glob pattern '{}': {}", glob_pattern, err);
+
+						return Vec::new();
+					}
+				};
 
 				let mut output = Vec::new();
 
-				for files in glob(glob_pattern).expect("Failed to read glob pattern") {
+				for files in paths {
 					match files {
-						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
-						Err(e) => println!("{:?}", e),
+						Ok(path) => {
+							if let Ok(uri) = Url::from_file_path(path) {
+								output.push(TextDocumentIdentifier { uri })
+							}
+						}
+						// 'stdout' belongs to the LSP client
+						Err(err) => error!("Failed to enumerate '{}': {}", folder_uri, err),
 					}
 				}
 
-- 
2.43.0


From eeabe92e95de7370ee5becb7ccfd7553625a5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:10 +0000
Subject: [PATCH 43/45] fix: end the server when the client has disconnected

---
 crates/p4-analyzer/src/driver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index cda0124..68560cb 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -73,6 +73,9 @@ impl Driver {
 				break;
 			}
 		}
+
+		// Nothing more will be received: the client has disconnected.
+		sender.close();
 	}
 
 	fn receiver_task(receiver: Receiver<Message>, output_source: DriverType) {
-- 
2.43.0


From 386b83e6b29ba1afcb0677892d8fd2c2daa5bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:02 +0000
Subject: [PATCH 44/45] fix: enumerate only the folder that the server asks for

findFiles() with the bare pattern searches every folder of the workspace, so
that each folder's index also held the files of all other folders.
---
 packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts b/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
index 6acb5bf..c5c1a71 100644
--- a/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
+++ b/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
@@ -24,7 +24,7 @@ function setP4AnalyzerHandlers(this: BaseLanguageClient): void {
 
 		if (!folder) throw new Error(`Invalid or unknown workspace ('${uri.toString()}')`);
 
-		const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern).pattern);
+		const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern));
 
 		return files.map(file => TextDocumentIdentifier.create(file.toString()));
 	});
-- 
2.43.0


From f0d3e12edd25d95ace5873a9a3f664de8bbbc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:38 +0000
Subject: [PATCH 45/45] fix: pass on every message that a chunk of standard
 input completes

The adapter of the WASM server handled one message per chunk and then dropped
what followed it: with two messages in one chunk, the second was lost and with
a message split behind another one, the stream was out of step from there on.
It also took the position of a chunk in its allocation as the start of its
contents.
---
 packages/p4-analyzer/src/server/index.ts | 36 +++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8708962..98417da 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -77,32 +77,36 @@ export default class {
 			this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);
 		}
 
-		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset, chunk.byteOffset, chunk.byteLength);
+		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
-		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
+		// A chunk can complete more than one message.
+		for (;;) {
+			const received = this.requestBuffer.subarray(0, this.requestBufferOffset);
+			const splitOffset = received.indexOf(BODY_SPLIT_CHARS);
 
-		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
+			if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
 
-		const headers = this.requestBuffer.subarray(0, splitOffset).toString();
-		const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
+			const headers = received.subarray(0, splitOffset).toString();
+			const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
 
-		if (isNaN(contentLength)) throw new Error("Received malformed message. 'Content-Length' header is missing.");
+			if (isNaN(contentLength)) throw new Error("Received malformed message. 'Content-Length' header is missing.");
 
-		const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
+			const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
 
-		if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
+			if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
 
-		// We have now received at least one full message. Pull it out and reset the request buffer to continue reading
-		// the next one.
-		const requestMessageBuffer = Buffer.alloc(contentLength);
+			// We have now received at least one full message. Pull it out and keep what follows it in the request buffer
+			// to continue reading the next one.
+			const requestMessageBuffer = Buffer.alloc(contentLength);
 
-		this.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
-		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset);
-		this.requestBufferOffset = 0;
+			received.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
+			this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset);
+			this.requestBufferOffset -= minRequiredOffset;
 
-		this.requestMessageBufferQueue.push(requestMessageBuffer);
+			this.requestMessageBufferQueue.push(requestMessageBuffer);
 
-		setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+			setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+		}
 	}
 
 	/**
-- 
2.43.0

