T = 'crates/analyzer-host/src/lsp/dispatch_target.rs'
D = 'crates/analyzer-host/src/lsp/dispatch.rs'
M = 'crates/analyzer-host/src/fsm.rs'
L = 'crates/analyzer-host/src/lib.rs'
B = ['C15']
t = open('/repo/' + T).read()
d = open('/repo/' + D).read()
DEC = t[t.index('				let params = match from_json::<TParams>(&request.params) {'):t.index('				let (response, next_state) = match')]
CALL = t[t.index('				let (response, next_state) = match'):t.index('				Ok((Some(Message::Response(response)), next_state))')]
NCALL = t[t.index('				if let Err(err) = self.handler_fn.call('):t.index('				Ok((None, self.next_state(current_state)))')]
GH = d[d.index('		let handlers = match message {'):d.index('#[async_trait]\nimpl<TState: Clone')]
UNH = d[d.index('						if let Some((code, message)) = &self.missing_handler_error {'):d.index('					Message::Notification(notification) => {\n						info!("Received an unexpected')]
l = open('/repo/' + L).read()
LOOP = l[l.index('							Ok(response_message) => {\n'):l.index('							Err(err) => {\n								error!("Protocol')]
NS = t[t.index('	fn next_state(&self'):t.index('#[async_trait]\nimpl<TState, TParams, TResult> DispatchTarget')]
CASES = [
    ('undecodable-unanswered', 'break', B, [(T, DEC, '				let params = from_json::<TParams>(&request.params)?;\n')]),
    ('undecodable-silent', 'break', B, [(T, '''						return Ok((
							Some(Message::Response(Response::new_error(
								request.id.clone(),
								ErrorCode::InvalidParams as i32,
								"Invalid parameters.",
							))),
							current_state,
						));
''', '						return Ok((None, current_state));\n')]),
    ('fixed-id', 'break', B, [(T, 'Response::new(request.id.clone(), result)', 'Response::new(crate::json_rpc::RequestId::from(0), result)')]),
    ('fixed-id-error', 'break', B, [(T, '''							Response::new_error(request.id.clone(), ErrorCode::InternalError as i32, err.message),''', '''							Response::new_error(crate::json_rpc::RequestId::from(0), ErrorCode::InternalError as i32, err.message),''')]),
    ('failed-advances', 'break', B, [(T, '''err.message),
							current_state,
''', '''err.message),
							self.next_state(current_state),
''')]),
    ('failed-is-result', 'break', B, [(T, 'Response::new_error(request.id.clone(), ErrorCode::InternalError as i32, err.message)', 'Response::new(request.id.clone(), err.message)')]),
    ('failed-unanswered', 'break', B, [(T, CALL + '				Ok((Some(Message::Response(response)), next_state))', '''				match self.handler_fn.call(current_state, params, state).await {
					Ok(result) => Ok((Some(Message::Response(Response::new(request.id.clone(), result))), self.next_state(current_state))),
					Err(err) => {
						error!(method = method, "{}", err.message);
						Err(LspProtocolError::UnexpectedRequest)
					}
				}''')]),
    ('retry', 'break', B, [(T, 'let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {', 'let first = self.handler_fn.call(current_state, params.clone(), state.clone()).await;\n				let (response, next_state) = match if first.is_ok() { first } else { self.handler_fn.call(current_state, params, state).await } {')]),
    ('no-advance', 'break', B, [(T, '(Response::new(request.id.clone(), result), self.next_state(current_state))', '(Response::new(request.id.clone(), result), current_state)')]),
    ('advance-before', 'break', B, [(T, 'Ok((Some(Message::Response(response)), next_state))', 'let _ = next_state;\n				Ok((Some(Message::Response(response)), self.next_state(current_state)))')]),
    ('notification-failed-advances', 'break', B, [(T, 'return Ok((None, current_state));', 'return Ok((None, self.next_state(current_state)));')]),
    ('notification-default-params', 'break', B, [(T, '''				let params = from_json::<TParams>(&request.params)?;
''', '''				let params = from_json::<TParams>(&serde_json::Value::Null)?;
''')]),
    ('next-state-swapped', 'break', B, [(T, NS, NS.replace('LspTransitionTarget::Next(next_state) => next_state,', 'LspTransitionTarget::Next(_) => current_state,'))]),
    ('notification-map', 'break', B, [(D, 'Some((self.notification_handlers.read().unwrap(), &notification.method))', 'Some((self.request_handlers.read().unwrap(), &notification.method))')]),
    ('lookup-fallback', 'break', B, [(D, 'Some((handlers, method)) => handlers.get(method).cloned(),', 'Some((handlers, method)) => handlers.get(method.trim_start_matches("$/")).cloned(),')]),
    ('wrong-state', 'break', B, [(D, 'handler.process_message(self.state, message, state)', 'handler.process_message(LspServerState::Stopped, message, state)')]),
    ('unhandled-request-error', 'break', B, [(D, UNH, '						Err(LspProtocolError::UnexpectedRequest)\n					}\n')]),
    ('unhandled-default-only', 'break', B, [(D, 'if let Some((code, message)) = &self.missing_handler_error {', 'if let Some((code, message)) = self.missing_handler_error.as_ref().filter(|(c, _)| *c as i32 == 0) {')]),
    ('unhandled-optional-dropped', 'break', B, [(D, '''						if let Some((code, message)) = &self.missing_handler_error {''', '''						if request.method.starts_with("$/") {
							return Err(LspProtocolError::UnexpectedRequest);
						}
						if let Some((code, message)) = &self.missing_handler_error {''')]),
    ('unhandled-stops', 'break', B, [(D, '''*code as i32, message))),
								self.state,''', '''*code as i32, message))),
								LspServerState::Stopped,''')]),
    ('machine-drops-response', 'break', B, [(M, '				Ok(response)\n', '				Ok(response.filter(|_| self.is_active()))\n')]),
    ('machine-early-state', 'break', B, [(M, 'match current_dispatcher.dispatch(message, self.state.clone()).await {', 'let r = current_dispatcher.dispatch(message, self.state.clone()).await;\n		if r.is_err() { self.current_state = LspServerState::Stopped; }\n		match r {')]),
    ('loop-send-twice', 'break', B, [(L, 'if self.sender.send(response_message.unwrap()).await.is_err() {', 'let _ = self.sender.send(response_message.clone().unwrap()).await;\n									if self.sender.send(response_message.unwrap()).await.is_err() {')]),
    ('loop-no-send-when-inactive', 'break', B, [(L, '''								if let Some(Message::Response(_)) = &response_message {''', '''								if self.receiver.is_closed() { return; }
								if let Some(Message::Response(_)) = &response_message {''')]),
    ('loop-only-results', 'break', B, [(L, 'if let Some(Message::Response(_)) = &response_message {', 'if matches!(&response_message, Some(Message::Response(r)) if r.error.is_none()) {')]),
    ('loop-process-skipped', 'break', B, [(L, '''					if cancel_token.is_canceled() {
						break;
					}
''', '''					if cancel_token.is_canceled() {
						break;
					}
					if requests_receiver.len() > 1024 { continue; }
''')]),
    # behaviour kept
    ('k-match-target', 'keep', B, [(T, NCALL + '				Ok((None, self.next_state(current_state)))', '''				match self.handler_fn.call(current_state, params, state).await {
					Ok(()) => Ok((None, self.next_state(current_state))),
					Err(err) => {
						error!(method = method, "Error processing notification '{}': {}", method, err.message);
						Ok((None, current_state))
					}
				}''')]),
    ('k-helper-error', 'keep', B, [(T, '''							Some(Message::Response(Response::new_error(
								request.id.clone(),
								ErrorCode::InvalidParams as i32,
								"Invalid parameters.",
							))),
							current_state,''', '''							Some(failure(request, ErrorCode::InvalidParams, "Invalid parameters.")),
							current_state,'''), (T, '/// Processes a message that represents a notification.\n#[derive', '''fn failure(r: &crate::json_rpc::message::Request, code: ErrorCode, text: &str) -> Message {
	let id = r.id.clone();
	Message::Response(Response::new_error(id, code as i32, text))
}

/// Processes a message that represents a notification.
#[derive''')]),
    ('k-rename-params', 'keep', B, [(T, t[t.index('	async fn process_message(\n		&self,\n		current_state: LspServerState,\n		message: Arc<Message>,\n		state: Arc<AsyncRwLock<TState>>,\n	) -> Result<(Option<Message>, LspServerState), LspProtocolError> {\n		match &*message {\n			Message::Notification'):t.rindex('	fn set_transition_target')],
        t[t.index('	async fn process_message(\n		&self,\n		current_state: LspServerState,\n		message: Arc<Message>,\n		state: Arc<AsyncRwLock<TState>>,\n	) -> Result<(Option<Message>, LspServerState), LspProtocolError> {\n		match &*message {\n			Message::Notification'):t.rindex('	fn set_transition_target')].replace('current_state', 'now').replace('message:', 'msg:').replace('&*message', '&*msg').replace('state: Arc', 'shared: Arc').replace('params, state)', 'params, shared)'))]),
    ('k-next-state-if-let', 'keep', B, [(T, NS, '''	fn next_state(&self, current_state: LspServerState) -> LspServerState {
		if let LspTransitionTarget::Next(s) = self.transition_target { return s; }
		current_state
	}
}

''')]),
    ('k-get-handler', 'keep', B, [(D, GH, '''		match message {
			Message::Request(r) => {
				let m = self.request_handlers.read().unwrap();
				m.get(&r.method).cloned()
			}
			Message::Notification(n) => self.notification_handlers.read().unwrap().get(n.method.as_str()).map(|h| h.clone()),
			Message::Response(_) => None,
		}
	}
}

''')]),
    ('k-dispatch-if-let', 'keep', B, [(D, 'Some(handler) => handler.process_message(self.state, message, state).await,', 'Some(handler) => {\n				let (response, next) = handler.process_message(self.state, message, state).await?;\n				Ok((response, next))\n			}')]),
    ('k-unhandled-map-or', 'keep', B, [(D, UNH, '''						let (code, text) = self.missing_handler_error.unwrap_or((ErrorCode::InternalError, "Internal server error."));
						let response = Response::new_error(request.id.clone(), code as i32, text);
						Ok((Some(Message::Response(response)), self.state))
					}
''')]),
    ('k-machine-question', 'keep', B, [(M, open('/repo/' + M).read()[open('/repo/' + M).read().index('		match current_dispatcher.dispatch('):open('/repo/' + M).read().index('	fn create_dispatchers')], '''		let (response, next_state) = current_dispatcher.dispatch(message, self.state.clone()).await?;
		self.current_state = next_state;
		Ok(response)
	}

''')]),
    ('k-loop-let-response', 'keep', B, [(L, LOOP, '''							Ok(Some(response @ Message::Response(_))) => self.sender.send(response).await.unwrap(),
							Ok(_) => {}
''')]),
    ('k-loop-helper', 'keep', B, [(L, LOOP, '''							Ok(response_message) => self.reply(response_message).await,
'''), (L, '	async fn run_protocol_machine(', '''	async fn reply(&self, response: Option<Message>) {
		if let Some(m) = response {
			if let Message::Response(_) = m {
				self.sender.send(m).await.unwrap();
			}
		}
	}

	async fn run_protocol_machine(''')]),
    ('k-loop-process-helper', 'keep', B, [(L, l[l.index('						match self\n							.protocol_machine\n							.write()'):l.index('							Ok(response_message) => {\n')], '''						let outcome = self.process(message).await;
						match outcome {
'''), (L, '	async fn run_protocol_machine(', '''	async fn process(&self, message: Message) -> Result<Option<Message>, lsp::LspProtocolError> {
		let mut machine = self.protocol_machine.write().await;
		machine.as_mut().unwrap().process_message(Arc::new(message)).await
	}

	async fn run_protocol_machine(''')]),
]
C = ['C16']
I = 'crates/analyzer-host/src/lsp_impl/'
BL = 'crates/analyzer-host/src/lsp.rs'
FL = 'crates/analyzer-host/src/lsp/fluent/state.rs'
m = open('/repo/' + M).read()
ai = open('/repo/' + I + 'active_initialized.rs').read()
sd = open('/repo/' + I + 'shutting_down.rs').read()
CD = m[m.index('		[\n			(LspServerState::ActiveUninitialized'):m.index('	fn get_dispatcher(')]
CASES += [
    ('l-exit-shuttingdown', 'break', C, [(I + 'active_initialized.rs', 'options.transition_to(LspServerState::Stopped)', 'options.transition_to(LspServerState::ShuttingDown)')]),
    ('l-shutdown-stops', 'break', C, [(I + 'active_initialized.rs', 'options.transition_to(LspServerState::ShuttingDown)', 'options.transition_to(LspServerState::Stopped)')]),
    ('l-no-transition', 'break', C, [(I + 'initializing.rs', 'options.transition_to(LspServerState::ActiveInitialized)', '{ let _ = &mut options; }')]),
    ('l-code', 'break', C, [(I + 'shutting_down.rs', 'ErrorCode::InvalidRequest', 'ErrorCode::InternalError')]),
    ('l-no-refusal', 'break', C, [(I + 'active_uninitialized.rs', '			.for_unhandled_requests((ErrorCode::ServerNotInitialized, "An \'initialize\' request is required."))\n', '')]),
    ('l-wrong-state', 'break', C, [(I + 'shutting_down.rs', 'new(LspServerState::ShuttingDown)', 'new(LspServerState::ActiveInitialized)')]),
    ('l-swapped-table', 'break', C, [(M, '(LspServerState::Initializing, create_dispatcher_initializing()),', '(LspServerState::Initializing, create_dispatcher_active_initialized()),')]),
    ('l-missing-state', 'break', C, [(M, '			(LspServerState::Stopped, create_dispatcher_stopped()),\n', '')]),
    ('l-exit-unhandled', 'break', C, [(I + 'shutting_down.rs', sd[sd.index('			.for_notification_with_options::<Exit'):sd.index('			.build()')], '')]),
    ('l-request-while-stopping', 'break', C, [(I + 'shutting_down.rs', '			.build()', '			.for_request_with_options::<analyzer_abstractions::lsp_types::request::Shutdown, _>(on_exit, |mut o| o.transition_to(LspServerState::ShuttingDown))\n			.build()')]),
    ('l-start', 'break', C, [(M, 'LSP_STARTING_STATE: LspServerState = LspServerState::ActiveUninitialized', 'LSP_STARTING_STATE: LspServerState = LspServerState::Initializing')]),
    ('l-active', 'break', C, [(M, 'self.current_state != LspServerState::Stopped }', 'self.current_state == LspServerState::ActiveInitialized || self.current_state == LspServerState::ActiveUninitialized }')]),
    ('l-active-shutting-down', 'break', C, [(M, 'self.current_state != LspServerState::Stopped }', '!matches!(self.current_state, LspServerState::Stopped | LspServerState::ShuttingDown) }')]),
    ('l-notification-into-requests', 'break', C, [(BL, '''		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		self.notification_handlers''', '''		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		self.request_handlers''')]),
    ('l-build-swapped', 'break', C, [(BL, '''			self.request_handlers.clone(),
			self.notification_handlers.clone(),''', '''			self.notification_handlers.clone(),
			self.request_handlers.clone(),''')]),
    ('l-setter-ignores-current', 'break', C, [(T, 'fn set_transition_target(&mut self, target: LspTransitionTarget) { self.transition_target = target; }', '''fn set_transition_target(&mut self, target: LspTransitionTarget) {
		if self.transition_target != LspTransitionTarget::Current || target != LspTransitionTarget::Next(LspServerState::Stopped) {
			self.transition_target = target;
		}
	}''')]),
    ('l-transition-to-current', 'break', C, [(FL, 'LspTransitionTarget::Next(target_state)', 'if target_state == LspServerState::Stopped { LspTransitionTarget::Current } else { LspTransitionTarget::Next(target_state) }')]),
    ('l-machine-not-stored', 'break', C, [(M, 'self.current_state = next_state;', 'if next_state > self.current_state || next_state == LspServerState::Stopped { }')]),
    ('l-machine-forward-only', 'break', C, [(M, 'if self.current_state != next_state {', 'if self.current_state < next_state && response.is_none() {')]),
    ('l-options-skipped', 'break', C, [(BL, '		request_builder(TransitionBuilder::new(&mut target));\n\n		self.notification_handlers', '		let _ = request_builder;\n		let _ = &mut target;\n		self.notification_handlers')]),
    # kept
    ('lk-insert-one-by-one', 'keep', C, [(M, CD, '''		let mut all: HashMap<LspServerState, LspServerStateDispatcher> = HashMap::new();
		all.insert(LspServerState::Stopped, create_dispatcher_stopped());
		all.insert(LspServerState::ShuttingDown, create_dispatcher_shutting_down());
		all.insert(LspServerState::ActiveInitialized, create_dispatcher_active_initialized());
		all.insert(LspServerState::Initializing, create_dispatcher_initializing());
		all.insert(LspServerState::ActiveUninitialized, create_dispatcher_active_uninitialized());
		all
	}

''')]),
    ('lk-from', 'keep', C, [(M, CD, CD.replace('		[\n', '		HashMap::from([\n', 1).replace(']\n		.into()', '])'))]),
    ('lk-matches', 'keep', C, [(M, 'self.current_state != LspServerState::Stopped }', '!matches!(self.current_state, LspServerState::Stopped) }')]),
    ('lk-eq-not', 'keep', C, [(M, 'self.current_state != LspServerState::Stopped }', 'let stopped = self.current_state == LspServerState::Stopped; !stopped }')]),
    ('lk-match', 'keep', C, [(M, '{ self.current_state != LspServerState::Stopped }', '{\n		match self.current_state {\n			LspServerState::Stopped => false,\n			_ => true,\n		}\n	}')]),
    ('lk-reordered', 'keep', C, [(I + 'active_initialized.rs', '			.for_request::<HoverRequest, _>(on_text_document_hover)\n', ''), (I + 'active_initialized.rs', '			.build(),', '			.for_request::<HoverRequest, _>(on_text_document_hover)\n			.build(),')]),
    ('lk-stmt-builder', 'keep', C, [(I + 'shutting_down.rs', sd[sd.index('	Box::new(\n		DispatchBuilder'):sd.index('async fn on_exit')], '''	let mut builder = DispatchBuilder::<State>::new(LspServerState::ShuttingDown);
	builder.for_notification_with_options::<Exit, _>(on_exit, |mut options| options.transition_to(LspServerState::Stopped));
	builder.for_unhandled_requests((ErrorCode::InvalidRequest, "The server is currently shutting down."));
	Box::new(builder.build())
}

''')]),
    ('lk-exit-helper', 'keep', C, [(I + 'shutting_down.rs', '|mut options| {\n				options.transition_to(LspServerState::Stopped)\n			}', 'stops'), (I + 'shutting_down.rs', 'async fn on_exit', '''fn stops(mut options: crate::lsp::fluent::state::TransitionBuilder<State>) { options.transition_to(LspServerState::Stopped) }

async fn on_exit''')]),
    ('lk-add-helper', 'keep', C, [(BL, '''		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		self.notification_handlers.write().unwrap().insert(String::from(T::METHOD), Box::new(target));

		self
	}

	/// Registers a handler for a given type of notification message, and''', '''		self.add_notification(T::METHOD, Box::new(NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler))));

		self
	}

	fn add_notification(&mut self, method: &str, target: AnyDispatchTarget<TState>) {
		let mut handlers = self.notification_handlers.write().unwrap();
		handlers.insert(method.to_string(), target);
	}

	/// Registers a handler for a given type of notification message, and''')]),
    ('lk-generic-options', 'keep', C, [(BL, '''		let target = RequestDispatchTarget::<TState, T::Params, T::Result>::new(Box::new(handler));

		self.request_handlers.write().unwrap().insert(String::from(T::METHOD), Box::new(target));

		self''', '''		self.for_request_with_options::<T, THandler>(handler, |_| ())''')]),
    ('lk-machine-always-store', 'keep', C, [(M, '					self.current_state = next_state;\n				}\n', '				}\n				self.current_state = next_state;\n')]),
    ('lk-get-dispatcher', 'keep', C, [(M, m[m.index('		let mut dispatchers = self.dispatchers.write().unwrap();'):m.index('	fn default_dispatcher')], '''		if let Some(d) = self.dispatchers.read().unwrap().get(&state) {
			return d.clone();
		}
		LspProtocolMachine::default_dispatcher(state)
	}

''')]),
    ('builder-forgets', 'break', ['C15'], [('crates/analyzer-host/src/lsp.rs', """		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		self.notification_handlers.write().unwrap().insert(String::from(T::METHOD), Box::new(target));
""", """		let _target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));
""")]),
    ('builder-first-only', 'break', ['C15'], [('crates/analyzer-host/src/lsp.rs', """		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		self.notification_handlers.write().unwrap().insert(String::from(T::METHOD), Box::new(target));
""", """		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		let mut handlers = self.notification_handlers.write().unwrap();
		if handlers.is_empty() {
			handlers.insert(String::from(T::METHOD), Box::new(target));
		}
		drop(handlers);
""")]),
    ('builder-key-ok', 'keep', ['C15'], [('crates/analyzer-host/src/lsp.rs', """		let target = NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler));

		self.notification_handlers.write().unwrap().insert(String::from(T::METHOD), Box::new(target));
""", """		let target = Box::new(NotificationDispatchTarget::<TState, T::Params>::new(Box::new(handler)));
		let mut handlers = self.notification_handlers.write().unwrap();
		handlers.insert(T::METHOD.to_string(), target);
		drop(handlers);
""")]),
]
