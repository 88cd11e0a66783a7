F = 'crates/analyzer-host/src/lsp/request.rs'
B = ['C14']
S = open('/repo/' + F).read()
SR = S[S.index('		let id = RequestId::from('):S.index('	async fn create_active_request')]
ST = S[S.index('					if let Message::Response(ref response) = message {'):S.index('				Err(err) => {\n					error!("Unexpected error receiving response')]
SAR = S[S.index('		match &*response_message {\n			Message::Response(response) => {\n				if let Some(err) = &response.error {'):S.index('	/// Sends a typed request to the LSP client and returns a `Future` that will yield when complete.')]
CREATE = S[S.index('		let mut awaiting_requests = self.awaiting_requests.write().await;\n\n		awaiting_requests.insert'):S.index('	async fn take_awaiting_request')]
CASES = [
    ('counter-copied', 'break', B, [(F, 'request_id: self.request_id.clone(),', 'request_id: Arc::new(AtomicI32::new(self.request_id.load(Ordering::Relaxed))),')]),
    ('map-copied', 'break', B, [(F, 'awaiting_requests: self.awaiting_requests.clone(),', 'awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),')]),
    ('load-store', 'break', B, [(F, 'RequestId::from(self.request_id.fetch_add(1, Ordering::Relaxed))', 'RequestId::from({ let v = self.request_id.load(Ordering::Relaxed); self.request_id.store(v + 1, Ordering::Relaxed); v })')]),
    ('add-zero', 'break', B, [(F, 'fetch_add(1,', 'fetch_add(0,')]),
    ('narrowed', 'break', B, [(F, 'RequestId::from(self.request_id.fetch_add(1, Ordering::Relaxed))', 'RequestId::from(self.request_id.fetch_add(1, Ordering::Relaxed) as i16 as i32)')]),
    ('send-then-register', 'break', B, [(F, SR, '''		let id = RequestId::from(self.request_id.fetch_add(1, Ordering::Relaxed));
		let request = Request::new(id.clone(), method.into(), params);

		if let Err(_) = self.requests.send(Message::Request(request)).await {
			return Err(LspProtocolError::TransportError);
		}
		let awaiting_request = self.create_active_request(&id).await;

		Ok(awaiting_request.future().await?) // Wait for the request to complete.
	}

''')]),
    ('not-unregistered', 'break', B, [(F, 'self.take_awaiting_request(&id).await; // Take', '// Take')]),
    ('send-failure-ignored', 'break', B, [(F, '''			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.

			return Err(LspProtocolError::TransportError);
''', '''			error!("could not send the request");
''')]),
    ('registered-under-other-id', 'break', B, [(F, 'let awaiting_request = self.create_active_request(&id).await;', 'let awaiting_request = self.create_active_request(&RequestId::from(self.request_id.load(Ordering::Relaxed))).await;')]),
    ('other-source', 'break', B, [(F, 'awaiting_requests.get(&id).unwrap().clone()', 'Arc::new(FutureCompletionSource::<Arc<Message>, LspProtocolError>::new())')]),
    ('lookup-not-removed', 'keep', B, [(F, 'awating_requests.remove(&id)', 'awating_requests.remove_entry(&id).map(|e| e.1)')]),
    ('error-ignored', 'break', B, [(F, '''						"Error processing response for server request '{}': {}",
						T::METHOD,
						err.message
					);

					return Err(LspProtocolError::UnexpectedResponse);
				}

				match''', '''						"Error processing response for server request '{}': {}",
						T::METHOD,
						err.message
					);
				}

				match''')]),
    ('error-only-without-result', 'break', B, [(F, '				if let Some(err) = &response.error {', '				if let (Some(err), None) = (&response.error, &response.result) {')]),
    ('lookup-string', 'break', B, [(F, 'self.take_awaiting_request(&response.id).await {', 'self.take_awaiting_request(&RequestId::from(format!("{}", response.id))).await {')]),
    ('resolve-any', 'break', B, [(F, 'awating_requests.remove(&id)', 'let _ = id; let k = awating_requests.keys().next().cloned(); k.and_then(|k| awating_requests.remove(&k))')]),
    ('resolve-err', 'break', B, [(F, 'if let Err(_) = active_request.set_value(Arc::new(message)) {', 'if response.error.is_some() { let _ = active_request.set_err(LspProtocolError::UnexpectedResponse); } else if let Err(_) = active_request.set_value(Arc::new(message)) {')]),
    ('closed-continue', 'break', B, [(F, '					error!("Unexpected error receiving response: {:?}", err);\n					break;', '					error!("Unexpected error receiving response: {:?}", err);')]),
    ('negative-id-dropped', 'break', B, [(F, 'let id = response.id.clone();', 'let id = response.id.clone();\n						if response.error.is_some() { continue; }')]),
    ('null-result', 'break', B, [(F, '					Some(value) => Ok(from_json::<T::Result>(value)?),', '					Some(value) if !value.is_string() => Ok(from_json::<T::Result>(value)?),\n					Some(_) => Err(LspProtocolError::UnexpectedResponse),')]),
    # behaviour kept
    ('derived-clone', 'keep', B, [(F, 'pub struct RequestManager {', '#[derive(Clone)]\npub struct RequestManager {'), (F, S[S.index('impl Clone for RequestManager'):], '')]),
    ('inlined-register', 'keep', B, [(F, 'let awaiting_request = self.create_active_request(&id).await;', '''let awaiting_request = Arc::new(FutureCompletionSource::<Arc<Message>, LspProtocolError>::new());
		{
			let mut map = self.awaiting_requests.write().await;
			map.insert(id.clone(), awaiting_request.clone());
		}''')]),
    ('create-first', 'keep', B, [(F, CREATE, '''		let source = Arc::new(FutureCompletionSource::<Arc<Message>, LspProtocolError>::new());
		self.awaiting_requests.write().await.insert(id.clone(), source.clone());
		source
	}

''')]),
    ('match-send', 'keep', B, [(F, SR, '''		let number = self.request_id.fetch_add(1, Ordering::SeqCst);
		let id: RequestId = number.into();
		let awaiting_request = self.create_active_request(&id).await;
		let message = Message::Request(Request::new(id.clone(), method.to_string(), params));

		if self.responses.is_closed() {
			self.take_awaiting_request(&id).await;
			return Err(LspProtocolError::TransportError);
		}

		match self.requests.send(message).await {
			Ok(()) => {
				let response = awaiting_request.future().await?;
				Ok(response)
			}
			Err(err) => {
				error!("could not send: {:?}", err);
				let _ = self.take_awaiting_request(&id).await;
				Err(LspProtocolError::TransportError)
			}
		}
	}

''')]),
    ('start-matched', 'keep', B, [(F, ST, '''					let id = match &message {
						Message::Response(response) => response.id.clone(),
						_ => panic!("expected message to be a 'Response' variant"),
					};
					match self.take_awaiting_request(&id).await {
						Some(source) => {
							let shared = Arc::new(message);
							if source.set_value(shared).is_err() {
								panic!("failed to resolve the Request {}", id);
							}
						}
						None => error!("Received Response (with request id {}) that had no associated Request.", id),
					}
				}
''')]),
    ('helper-error', 'keep', B, [(F, SAR, '''		let response = match &*response_message {
			Message::Response(response) => response,
			_ => return Err(LspProtocolError::UnexpectedResponse),
		};
		if response.error.is_some() {
			return Err(LspProtocolError::UnexpectedResponse);
		}
		let value = response.result.as_ref().ok_or(LspProtocolError::UnexpectedResponse)?;
		let decoded = from_json::<T::Result>(value)?;
		Ok(decoded)
	}

''')]),
    ('while-let', 'keep', B, [(F, '		while !cancel_token.is_canceled() {\n			match self.responses', '		loop {\n			if cancel_token.is_canceled() { break; }\n			match self.responses')]),
    ('pump-once', 'break', B, [(F, """							}

							continue;
						}
""", """							}

							break;
						}
""")]),
    ('pump-unknown-ends', 'break', B, [(F, """had no associated Request.", id);

						continue;""", """had no associated Request.", id);

						break;""")]),
    ('pump-never', 'break', B, [(F, "while !cancel_token.is_canceled() {", "while cancel_token.is_canceled() {")]),
    ('notify-unreported', 'break', B, [(F, """		if let Err(_) = self.requests.send(Message::Notification(request)).await {
			return Err(LspProtocolError::TransportError);
		}
""", """		let _ = self.requests.send(Message::Notification(request)).await;
""")]),
    ('notify-unsent', 'break', B, [(F, """		if let Err(_) = self.requests.send(Message::Notification(request)).await {
""", """		if let Err(_) = self.requests.try_send(Message::Notification(Notification::new("", ()))) {
""")]),
    ('notify-map-ok', 'keep', B, [(F, """		if let Err(_) = self.requests.send(Message::Notification(request)).await {
			return Err(LspProtocolError::TransportError);
		}

		Ok(())
""", """		match self.requests.send(Message::Notification(request)).await {
			Ok(_) => Ok(()),
			Err(_) => Err(LspProtocolError::TransportError),
		}
""")]),
    ('notify-map-err-ok', 'keep', B, [(F, """		if let Err(_) = self.requests.send(Message::Notification(request)).await {
			return Err(LspProtocolError::TransportError);
		}

		Ok(())
""", """		self.requests.send(Message::Notification(request)).await.map_err(|_| LspProtocolError::TransportError)
""")]),
]
