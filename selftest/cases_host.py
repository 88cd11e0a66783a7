F = 'crates/analyzer-host/src/lib.rs'
R = 'crates/analyzer-host/src/lsp/request.rs'
B = ['C17']
S = open('/repo/' + F).read()
ROUTE = S[S.index('				Ok(message) => {\n					let sent = match'):S.index('				Err(err) => {\n					error!("Unexpected error receiving message')]
RECVFN = S[S.index('		while !cancel_token.is_canceled() {\n			match self.receiver'):S.index('	async fn run_protocol_machine')]
LOOP = S[S.index('		while self.protocol_machine.read()'):S.index('		self.sender.close();\n		self.receiver.close();\n		requests_receiver')]
RES = '''		if cancel_token.is_canceled() {
			return Err(OperationCanceled);
		}

		Ok(())
'''
CASES = [
    # the defects that were there
    ('fs-unwrap', 'break', B, [(F, '			file_system.clone(),\n', '			self.file_system.clone().unwrap(),\n')]),
    ('closed-loops', 'break', B, [(F, '''request or notification: {:?}", err);
					break;
''', '''request or notification: {:?}", err);
''')]),
    ('send-unwrap', 'break', B, [(F, ROUTE, '''				Ok(message) => match message {
					Message::Response(_) => responses_sender.send(message).await.unwrap(),
					_ => requests_sender.send(message).await.unwrap(),
				},
''')]),
    ('response-unwrap', 'break', B, [(F, '''									if self.sender.send(response_message.unwrap()).await.is_err() {
										error!("Unexpected error sending response: the client has disconnected.");
									}
''', '''									self.sender.send(response_message.unwrap()).await.unwrap();
''')]),
    ('always-cancelled', 'break', B, [(F, '		responses_sender.close();\n\n' + RES, '		responses_sender.close();\n\n		Err(OperationCanceled)\n')]),
    ('manager-never-fails', 'break', ['C14'], [(R, '''		for (_, awaiting_request) in self.awaiting_requests.write().await.drain() {
			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
		}
''', '')]),
    # others
    ('never-cancelled', 'break', B, [(F, '		AsyncPool::stop();\n\n' + RES, '		AsyncPool::stop();\n\n		Ok(())\n')]),
    ('swapped-channels', 'break', B, [(F, 'self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone())', 'self.receive_messages(responses_sender.clone(), requests_sender.clone(), cancel_token.clone())')]),
    ('swapped-kinds', 'break', B, [(F, 'Message::Response(_) => responses_sender', 'Message::Notification(_) => responses_sender')]),
    ('notifications-dropped', 'break', B, [(F, '						_ => requests_sender.send(message).await,\n', '						Message::Request(_) => requests_sender.send(message).await,\n						_ => Ok(()),\n')]),
    ('manager-other-channel', 'break', B, [(F, 'RequestManager::new((self.sender.clone(), responses_receiver.clone()))', 'RequestManager::new((self.sender.clone(), requests_receiver.clone()))')]),
    ('manager-loops-to-host', 'break', B, [(F, 'RequestManager::new((self.sender.clone(), responses_receiver.clone()))', 'RequestManager::new((requests_sender.clone(), responses_receiver.clone()))')]),
    ('manager-not-started', 'break', B, [(F, '			request_manager.start(cancel_token.clone()),\n', '			async { Ok::<(), OperationCanceled>(()) },\n')]),
    ('pool-not-started', 'break', B, [(F, '			AsyncPool::start(cancel_token.clone()),\n', '			async { Ok::<(), OperationCanceled>(()) },\n')]),
    ('pool-not-stopped', 'break', B, [(F, '		AsyncPool::stop();\n', '')]),
    ('requests-not-closed', 'break', B, [(F, '		requests_sender.close();\n', '')]),
    ('responses-not-closed', 'break', B, [(F, '		responses_sender.close();\n', '')]),
    ('sender-not-closed', 'break', B, [(F, '		self.sender.close();\n		self.receiver.close();\n		requests_receiver', '		self.receiver.close();\n		requests_receiver')]),
    ('receiver-not-closed', 'break', B, [(F, '		self.sender.close();\n		self.receiver.close();\n		requests_receiver', '		self.sender.close();\n		requests_receiver')]),
    ('requests-rx-not-closed', 'break', B, [(F, '		requests_receiver.close();\n', '')]),
    ('closed-only-uncancelled', 'break', B, [(F, '		self.sender.close();\n		self.receiver.close();\n		requests_receiver', '		if !cancel_token.is_canceled() {\n			self.sender.close();\n		}\n		self.receiver.close();\n		requests_receiver')]),
    ('exit-not-tested', 'break', B, [(F, 'while self.protocol_machine.read().await.as_ref().unwrap().is_active() && !cancel_token.is_canceled() {', 'while !cancel_token.is_canceled() {')]),
    ('cancel-not-tested', 'break', B, [(F, 'as_ref().unwrap().is_active() && !cancel_token.is_canceled() {', 'as_ref().unwrap().is_active() {')]),
    ('cancel-not-tested-2', 'break', B, [(F, '''					if cancel_token.is_canceled() {
						break;
					}

					let request_message_span''', '''					let request_message_span''')]),
    ('stops-at-protocol-error', 'break', B, [(F, LOOP, LOOP.replace('''					async {
						match self''', '''					let failed = async {
						match self''').replace('''									}
								}
							}
							Err(err) => {
								error!("Protocol Error: {}", &err.to_string());
							}
						}
					}
					.instrument(request_message_span)
					.await;
''', '''									}
								}
								false
							}
							Err(err) => {
								error!("Protocol Error: {}", &err.to_string());
								true
							}
						}
					}
					.instrument(request_message_span)
					.await;
					if failed {
						break;
					}
'''))]),
    ('token-fresh', 'break', B, [(F, '				requests_receiver.clone(),\n				cancel_token.clone(),\n', '				requests_receiver.clone(),\n				cancellation::CancellationTokenSource::new().token().clone(),\n')]),
    ('fs-default-always', 'break', B, [(F, 'Some(fs) => fs.clone(),', 'Some(_) => Arc::new(Box::new(LspEnumerableFileSystem::new(request_manager.clone()))),')]),
    ('unbatched-spawn', 'break', B, [(F, '						_ => requests_sender.send(message).await,\n', '						_ => { let tx = requests_sender.clone(); AsyncPool::spawn_work(async move { tx.send(message).await.unwrap_or_default(); }); Ok(()) }\n')]),
    ('ok-any', 'break', B, [(F, '(Ok(_), Ok(_), Ok(_), Ok(_)) => {', '(_, Ok(_), Ok(_), Ok(_)) => {')]),
    ('machine-late', 'break', B, [(F, '''		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
			self.trace_value.clone(),
			request_manager.clone(),
			file_system.clone(),
		));
''', '''		let machine = LspProtocolMachine::new(
			self.trace_value.clone(),
			request_manager.clone(),
			file_system.clone(),
		);
		if self.trace_value.is_some() {
			*(self.protocol_machine.write().await) = None;
		}
		drop(machine);
''')]),
    # behaviour kept
    ('while-let', 'keep', B, [(F, RECVFN, '''		loop {
			if cancel_token.is_canceled() {
				break;
			}

			let message = match self.receiver.recv().await {
				Ok(message) => message,
				Err(err) => {
					error!("Unexpected error receiving message: {:?}", err);
					break;
				}
			};
			let target = if matches!(message, Message::Response(_)) { &responses_sender } else { &requests_sender };

			if let Err(_) = target.send(message).await {
				break;
			}
		}

		responses_sender.close();
		requests_sender.close();

		match cancel_token.is_canceled() {
			true => Err(OperationCanceled),
			false => Ok(()),
		}
	}

''')]),
    ('explicit-kinds', 'keep', B, [(F, '						_ => requests_sender.send(message).await,\n', '						Message::Request(_) | Message::Notification(_) => requests_sender.send(message).await,\n')]),
    ('rebuilt-message', 'keep', B, [(F, '						Message::Response(_) => responses_sender.send(message).await,\n', '						Message::Response(response) => responses_sender.send(Message::Response(response)).await,\n')]),
    ('helper-send', 'keep', B, [(F, ROUTE, '''				Ok(message) => {
					if !Self::forward(&requests_sender, &responses_sender, message).await {
						break;
					}
				}
'''), (F, '	async fn run_protocol_machine(', '''	async fn forward(requests: &Sender<Message>, responses: &Sender<Message>, message: Message) -> bool {
		match message {
			Message::Response(_) => responses.send(message).await.is_ok(),
			_ => requests.send(message).await.is_ok(),
		}
	}

	async fn run_protocol_machine(''')]),
    ('loop-form', 'keep', B, [(F, 'while self.protocol_machine.read().await.as_ref().unwrap().is_active() && !cancel_token.is_canceled() {', '''loop {
			if cancel_token.is_canceled() {
				break;
			}
			let active = self.protocol_machine.read().await.as_ref().unwrap().is_active();
			if !active {
				break;
			}
''')]),
    ('shutdown-helper', 'keep', B, [(F, '''		self.sender.close();
		self.receiver.close();
		requests_receiver.close();
		AsyncPool::stop();
''', '''		requests_receiver.close();
		self.end();
'''), (F, '	async fn run_protocol_machine(', '''	fn end(&self) {
		AsyncPool::stop();
		self.receiver.close();
		self.sender.close();
	}

	async fn run_protocol_machine(''')]),
    ('parts-named', 'keep', B, [(F, '''		match join_all(
			self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
''', '''		let receiving = self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone());

		match join_all(
			receiving,
''')]),
    ('fs-unwrap-or', 'keep', B, [(F, '''		let file_system: Arc<AnyEnumerableFileSystem> = match self.file_system.as_ref() {
			Some(fs) => fs.clone(),
			None => Arc::new(Box::new(LspEnumerableFileSystem::new(request_manager.clone()))),
		};
''', '''		let file_system: Arc<AnyEnumerableFileSystem> = self
			.file_system
			.clone()
			.unwrap_or_else(|| Arc::new(Box::new(LspEnumerableFileSystem::new(request_manager.clone()))));
''')]),
    ('result-question', 'keep', B, [(F, '''			(Ok(_), Ok(_), Ok(_), Ok(_)) => {
				self.sender.close();
				self.receiver.close();

				Ok(())
			}
			_ => Err(OperationCanceled),
''', '''			(received, machine, manager, pool) => received.and(machine).and(manager).and(pool),
''')]),
    ('clone-dropped', 'keep', B, [(F, '				requests_receiver.clone(),\n', '				requests_receiver,\n')]),
    ('log-more', 'keep', B, [(F, '						break;\n					}\n				}\n', '						error!("stopped");\n						break;\n					}\n				}\n')]),
    ('manager-values', 'keep', ['C14', 'C17'], [(R, '''		for (_, awaiting_request) in self.awaiting_requests.write().await.drain() {
			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
		}
''', '''		let mut awaiting_requests = self.awaiting_requests.write().await;

		for awaiting_request in awaiting_requests.values() {
			let _ = awaiting_request.set_err(LspProtocolError::TransportError);
		}

		awaiting_requests.clear();
''')]),
    ('manager-take', 'keep', ['C14'], [(R, 'in self.awaiting_requests.write().await.drain() {', 'in std::mem::take(&mut *self.awaiting_requests.write().await) {')]),
    ('manager-for-each', 'keep', ['C14'], [(R, '''		for (_, awaiting_request) in self.awaiting_requests.write().await.drain() {
			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
		}
''', '''		self.awaiting_requests.write().await.drain().for_each(|(_, r)| r.set_err(LspProtocolError::TransportError).unwrap_or_default());
''')]),
    ('manager-drain-first', 'break', ['C14'], [(R, '''		self.responses.close();

''', ''), (R, '''			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
		}

''', '''			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
		}

		self.responses.close();

''')]),
    ('manager-not-checked', 'break', ['C14'], [(R, 'if self.responses.is_closed() || self.requests', 'if self.requests')]),
    ('manager-checked-early', 'break', ['C14'], [(R, '		let awaiting_request = self.create_active_request(&id).await;\n', '		if self.responses.is_closed() {\n			return Err(LspProtocolError::TransportError);\n		}\n\n		let awaiting_request = self.create_active_request(&id).await;\n'), (R, 'if self.responses.is_closed() || self.requests', 'if self.requests')]),
    ('manager-one', 'break', ['C14'], [(R, '			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();\n', '			if awaiting_request.set_err(LspProtocolError::TransportError).is_ok() {\n				break;\n			}\n')]),
]
