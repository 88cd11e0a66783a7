U = 'crates/analyzer-host/src/lsp_impl/active_uninitialized.rs'
I = 'crates/analyzer-host/src/lsp_impl/initializing.rs'
A = 'crates/analyzer-host/src/lsp_impl/active_initialized.rs'
W = 'crates/analyzer-host/src/lsp/workspace.rs'
S = 'crates/analyzer-host/src/lsp_impl/state.rs'
L = 'crates/analyzer-host/src/lsp.rs'
G = 'crates/analyzer-host/src/lsp/progress.rs'
T = 'crates/analyzer-host/src/tracing.rs'
X = ['C23']
Y = ['C26']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
CASES = [
    ('hover-off', 'break', X, op(U, 'hover_provider: Some(HoverProviderCapability::Simple(true))', 'hover_provider: Some(HoverProviderCapability::Simple(false))')),
    ('hover-gone', 'break', X, op(A, '			.for_request::<HoverRequest, _>(on_text_document_hover)\n', '')),
    ('openclose-gone', 'break', X, op(U, '				open_close: Some(true),\n', '')),
    ('close-gone', 'break', X, op(A, '			.for_notification::<DidCloseTextDocument, _>(on_text_document_did_close)\n', '')),
    ('sync-none', 'break', X, op(U, 'TextDocumentSyncKind::INCREMENTAL', 'TextDocumentSyncKind::NONE')),
    ('symbols', 'break', X, op(U, '			references_provider: Some(OneOf::Left(true)),\n', '			references_provider: Some(OneOf::Left(true)),\n			document_symbol_provider: Some(OneOf::Left(include_workspace_folders)),\n')),
    ('save-text', 'break', X, op(U, 'include_text: Some(true)', 'include_text: None')),
    ('save-supported', 'break', X, op(U, 'save: Some(TextDocumentSyncSaveOptions::SaveOptions(SaveOptions {\n					// FIXME: temporary solution\n					include_text: Some(true),\n				}))', 'save: Some(TextDocumentSyncSaveOptions::Supported(true))')),
    ('watched-gone', 'break', X, op(A, '			.for_notification::<DidChangeWatchedFiles, _>(on_watched_file_change)\n', '')),
    ('watch-created', 'break', X, op(I, 'kind: None,', 'kind: Some(analyzer_abstractions::lsp_types::WatchKind::Create),')),
    ('watch-glob', 'break', X, op(I, 'glob_pattern: RELATIVE_P4_SOURCEFILES_GLOBPATTERN.into(),', 'glob_pattern: "*.p4".into(),')),
    ('reg-name', 'break', X, op(I, 'method: "workspace/didChangeWatchedFiles".to_string()', 'method: "workspace/didChangeConfiguration".to_string()')),
    ('reg-ignored', 'break', X, op(I, '		return Err(HandlerError::new("Error registering dynamic capability for \'workspace/didChangeWatchedFiles\'."));', '		info!("Error registering")', 'use super::state::State;', 'use super::state::State;\nuse analyzer_abstractions::tracing::info;')),
    ('index-first', 'break', X, op(I, '	if let Err(_) = state.request_manager.send', '	state.workspaces().index(state.progress_manager()).await;\n\n	if let Err(_) = state.request_manager.send', '	state.workspaces().index(state.progress_manager()).await; // Index the workspace folders.\n', '')),
    ('no-reg', 'break', X, op(I, 'if !state.has_workspaces() {', 'if state.has_workspaces() {')),
    ('accept', 'break', X, op(U, 'if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),', 'if capabilities.did_change_watched_files == None || state.has_workspaces() => Ok(create_initialize_result(true)),')),
    ('accept-eq', 'break', X, op(U, 'did_change_watched_files != None', 'did_change_watched_files == None')),
    ('refuse-none', 'break', X, op(U, 'if !state.has_workspaces() {', 'if state.has_workspaces() {')),
    ('accept-other', 'break', X, op(U, 'did_change_watched_files != None', 'did_change_configuration != None')),
    ('progress-any', 'break', X, op(U, 'value.work_done_progress.map_or(false, |value| value)', 'value.work_done_progress.is_some()')),
    ('progress-default', 'break', X, op(U, 'map_or(false, |value| value.work', 'map_or(true, |value| value.work')),
    ('progress-other', 'break', X, op(U, 'value.work_done_progress.map_or(false, |value| value)', 'value.show_document.map_or(false, |value| value.support)')),
    ('folders-none', 'break', X, op(U, 'WorkspaceManager::new(file_system, workspace_folders, analyzer)', 'WorkspaceManager::new(file_system, workspace_folders.and(None), analyzer)')),
    ('noted', 'break', X, op(W, '|folders| (true, folders)', '|folders| (false, folders)')),
    ('noted-empty', 'break', X, op(W, '|| (false, vec![', '|| (true, vec![')),

    ('kind-full', 'keep', X, op(U, 'TextDocumentSyncKind::INCREMENTAL', 'TextDocumentSyncKind::FULL')),
    ('hover-options', 'keep', X, op(U, 'HoverProviderCapability::Simple(true)', 'HoverProviderCapability::Options(analyzer_abstractions::lsp_types::HoverOptions { work_done_progress_options: WorkDoneProgressOptions { work_done_progress: None } })')),
    ('symbols-off', 'keep', X, op(U, '			references_provider: Some(OneOf::Left(true)),\n', '			references_provider: Some(OneOf::Left(true)),\n			document_symbol_provider: Some(OneOf::Left(false)),\n')),
    ('references-off', 'keep', X, op(U, '			references_provider: Some(OneOf::Left(true)),\n', '')),
    ('local', 'keep', X, op(U, '	InitializeResult {\n		capabilities: ServerCapabilities {', '	let hover_provider = Some(HoverProviderCapability::Simple(true));\n\n	InitializeResult {\n		capabilities: ServerCapabilities {', 'hover_provider: Some(HoverProviderCapability::Simple(true)),', 'hover_provider,')),
    ('watch-helper', 'keep', X, op(U, '		Some(capabilities)\n			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),\n		_ => {', '		Some(capabilities) if can_watch(&capabilities) => Ok(create_initialize_result(true)),\n		_ => {', '/// Responds to an \'exit\'', 'fn can_watch(capabilities: &analyzer_abstractions::lsp_types::WorkspaceClientCapabilities) -> bool { capabilities.did_change_watched_files.is_some() }\n\n/// Responds to an \'exit\'')),
    ('watch-letelse', 'keep', X, op(U, '	match params.capabilities.workspace {\n		Some(capabilities)\n			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),\n		_ => {\n			Err(\n				HandlerError::new(\n					"P4 Analyzer requires the Watched Files (\'workspace.didChangeWatchedFiles\') capability from the LSP client."))\n		}\n	}', '	let watched = params.capabilities.workspace.and_then(|w| w.did_change_watched_files);\n	if watched.is_none() {\n		return Err(HandlerError::new(\n			"P4 Analyzer requires the Watched Files (\'workspace.didChangeWatchedFiles\') capability from the LSP client."));\n	}\n\n	Ok(create_initialize_result(true))')),
    ('progress-matches', 'keep', X, op(U, 'window_capabilities.map_or(false, |value| value.work_done_progress.map_or(false, |value| value))', 'matches!(window_capabilities, Some(WindowClientCapabilities { work_done_progress: Some(true), .. }))')),
    ('progress-andthen', 'keep', X, op(U, 'window_capabilities.map_or(false, |value| value.work_done_progress.map_or(false, |value| value))', 'window_capabilities.and_then(|value| value.work_done_progress).unwrap_or(false)')),
    ('progress-eq', 'keep', X, op(U, 'window_capabilities.map_or(false, |value| value.work_done_progress.map_or(false, |value| value))', 'window_capabilities.and_then(|value| value.work_done_progress) == Some(true)')),
    ('progress-default', 'keep', X, op(U, 'window_capabilities.map_or(false, |value| value.work_done_progress.map_or(false, |value| value))', 'window_capabilities.and_then(|value| value.work_done_progress).unwrap_or_default()')),
    ('reg-match', 'keep', X, op(I, '	if let Err(_) = state.request_manager.send::<RegisterCapability>(registration_params).await {\n		return Err(HandlerError::new("Error registering dynamic capability for \'workspace/didChangeWatchedFiles\'."));\n	}\n', '	state\n		.request_manager\n		.send::<RegisterCapability>(registration_params)\n		.await\n		.map_err(|_| HandlerError::new("Error registering dynamic capability for \'workspace/didChangeWatchedFiles\'."))?;\n')),
    ('reg-invert', 'keep', X, op(I, '	if !state.has_workspaces() {\n		return Ok(());\n	}\n\n	let registration', '	let workspaces = state.has_workspaces();\n\n	if workspaces == false {\n		return Ok(());\n	}\n\n	let registration')),
    ('reg-kind', 'keep', X, op(I, 'kind: None,', 'kind: Some(analyzer_abstractions::lsp_types::WatchKind::all()),')),
    ('noted-match', 'keep', X, op(W, '		let (has_workspaces, workspace_folders) = workspace_folders.map_or_else(\n			|| (false, vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]),\n			|folders| (true, folders),\n		);', '		let has_workspaces = workspace_folders.is_some();\n		let workspace_folders = workspace_folders.unwrap_or_else(|| vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]);')),

    ('p-nocheck', 'break', Y, op(G, '	pub async fn report(&self, message: &str) -> Result<(), LspProtocolError> {\n		if !self.client_supported {\n			return Ok(());\n		}\n', '	pub async fn report(&self, message: &str) -> Result<(), LspProtocolError> {\n')),
    ('p-inverted', 'break', Y, op(G, '	pub async fn end(&self, message: Option<&str>) -> Result<(), LspProtocolError> {\n		if !self.client_supported {', '	pub async fn end(&self, message: Option<&str>) -> Result<(), LspProtocolError> {\n		if self.client_supported {')),
    ('p-begin-first', 'break', Y, op(G, '		if let Err(_) = self.request_manager.send::<WorkDoneProgressCreate>(params).await {\n			return Err(LspProtocolError::TransportError);\n		}\n', '		let _ = self.request_manager.send::<WorkDoneProgressCreate>(params).await;\n')),
    ('p-nocreate', 'break', Y, op(G, '		let params = WorkDoneProgressCreateParams { token: token.clone() };\n\n		if let Err(_) = self.request_manager.send::<WorkDoneProgressCreate>(params).await {\n			return Err(LspProtocolError::TransportError);\n		}\n', '', 'request::WorkDoneProgressCreate, ', '', 'WorkDoneProgressCreateParams,\n', '\n')),
    ('p-end-report', 'break', Y, op(G, 'WorkDoneProgress::End(WorkDoneProgressEnd {\n				message: message.map(|value| value.into()),\n				..Default::default()\n			})', 'WorkDoneProgress::Report(WorkDoneProgressReport {\n				message: message.map(|value| value.into()),\n				..Default::default()\n			})', '	WorkDoneProgressEnd, ', '	')),
    ('p-token', 'break', Y, op(G, 'Ok(Progress::new(self.request_manager.clone(), self.client_supported, token))\n	}\n}', 'Ok(Progress::new(self.request_manager.clone(), self.client_supported, NumberOrString::Number(1)))\n	}\n}')),
    ('p-token-end', 'break', Y, op(G, '			token: self.token.clone(),\n			value: ProgressParamsValue::WorkDone(WorkDoneProgress::End', '			token: NumberOrString::String(message.unwrap_or_default().into()),\n			value: ProgressParamsValue::WorkDone(WorkDoneProgress::End')),
    ('p-supported', 'break', Y, op(G, 'return Ok(Progress::new(self.request_manager.clone(), self.client_supported, token));', 'return Ok(Progress::new(self.request_manager.clone(), true, token));')),
    ('p-message', 'break', Y, op(G, 'message: Some(message.into()),', 'message: None,')),
    ('p-noend', 'break', Y, op(W, '		if let Some(progress) = &progress {\n			let _ = progress.end(None).await;\n		}\n', '')),
    ('p-end-in-loop', 'break', Y, op(W, '			workspace.index().await;\n		}\n\n		if let Some(progress) = &progress {\n			let _ = progress.end(None).await;\n		}\n', '			workspace.index().await;\n\n			if let Some(progress) = &progress {\n				let _ = progress.end(None).await;\n			}\n		}\n')),
    ('p-break', 'break', Y, op(W, '				let _ = progress.report(&format!("{}", workspace)).await;\n', '				if progress.report(&format!("{}", workspace)).await.is_err() {\n					break;\n				}\n')),
    ('p-return', 'break', Y, op(W, '				let _ = progress.report(&format!("{}", workspace)).await;\n', '				if progress.report(&format!("{}", workspace)).await.is_err() {\n					return;\n				}\n')),
    ('p-skip', 'break', Y, op(W, '			workspace.index().await;\n', '			if progress.is_some() {\n				workspace.index().await;\n			}\n')),
    ('p-first', 'break', Y, op(W, 'in (&self.workspaces).into_iter() {\n			if let', 'in (&self.workspaces).into_iter().take(1) {\n			if let')),
    ('t-off', 'break', Y, op(T, '		if *trace_value == TraceValue::Off {\n			return;\n		}\n', '')),
    ('t-messages', 'break', Y, op(T, 'if *trace_value == TraceValue::Off {', 'if *trace_value == TraceValue::Messages {')),
    ('t-not-verbose', 'break', Y, op(T, 'if *trace_value == TraceValue::Verbose { Some', 'if *trace_value != TraceValue::Off { Some')),
    ('t-initial', 'break', Y, op(T, 'Mutex::new(TraceValue::Off)', 'Mutex::new(TraceValue::Messages)')),
    ('t-unshared', 'break', Y, op(T, 'TraceValueAccessor(self.trace_value.clone())', 'TraceValueAccessor(Arc::new(Mutex::new(*self.trace_value.lock().unwrap())))')),
    ('t-swap', 'break', Y, op(T, 'if field.name() == "message" {', 'if field.name() != "message" {')),
    ('t-swap-params', 'break', Y, op(T, 'message: visitor.message,', 'message: visitor.formatted_fields.clone(),')),
    ('t-set-off', 'break', Y, op(T, '*trace_value = new_trace_value;', 'if *trace_value == TraceValue::Off {\n			*trace_value = new_trace_value;\n		}')),
    ('t-set-nothing', 'break', Y, op(S, 'trace_value.set(value);', 'if value != TraceValue::Off {\n				trace_value.set(value);\n			}')),
    ('t-init', 'break', Y, op(U, '	if let Some(trace_value) = params.trace {\n		state.set_trace_value(trace_value);\n	}\n', '')),
    ('t-settrace', 'break', Y, op(A, 'state.set_trace_value(params.value);', 'state.set_trace_value(analyzer_abstractions::lsp_types::TraceValue::Verbose);')),
    ('t-bounded', 'break', Y, op('crates/analyzer-host/src/lib.rs', 'let (requests_sender, requests_receiver) = async_channel::unbounded::<Message>();', 'let (requests_sender, requests_receiver) = async_channel::bounded::<Message>(64);')),

    ('p-match', 'keep', Y, op(G, '		if let Err(_) = self.request_manager.send::<WorkDoneProgressCreate>(params).await {\n			return Err(LspProtocolError::TransportError);\n		}\n', '		self.request_manager.send::<WorkDoneProgressCreate>(params).await.map_err(|_| LspProtocolError::TransportError)?;\n')),
    ('p-maperr', 'keep', Y, op(G, '			value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(WorkDoneProgressEnd {\n				message: message.map(|value| value.into()),\n				..Default::default()\n			})),\n		};\n\n		if let Err(_) = self.request_manager.send_notification::<ProgressNotification>(params).await {\n			return Err(LspProtocolError::TransportError);\n		}\n\n		Ok(())', '			value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(WorkDoneProgressEnd {\n				message: message.map(|value| value.into()),\n				..Default::default()\n			})),\n		};\n\n		self.request_manager\n			.send_notification::<ProgressNotification>(params)\n			.await\n			.map_err(|_| LspProtocolError::TransportError)')),
    ('p-invert', 'keep', Y, op(G, '	pub async fn report(&self, message: &str) -> Result<(), LspProtocolError> {\n		if !self.client_supported {\n			return Ok(());\n		}\n\n		let params = ProgressParams {\n			token: self.token.clone(),\n			value: ProgressParamsValue::WorkDone(WorkDoneProgress::Report(WorkDoneProgressReport {\n				message: Some(message.into()),\n				..Default::default()\n			})),\n		};\n\n		if let Err(_) = self.request_manager.send_notification::<ProgressNotification>(params).await {\n			return Err(LspProtocolError::TransportError);\n		}\n\n		Ok(())', '	pub async fn report(&self, message: &str) -> Result<(), LspProtocolError> {\n		let value = WorkDoneProgress::Report(WorkDoneProgressReport {\n			message: Some(message.to_string()),\n			..Default::default()\n		});\n\n		self.notify(value).await\n	}\n\n	async fn notify(&self, value: WorkDoneProgress) -> Result<(), LspProtocolError> {\n		if self.client_supported {\n			let params = ProgressParams { token: self.token.clone(), value: ProgressParamsValue::WorkDone(value) };\n\n			if let Err(_) = self.request_manager.send_notification::<ProgressNotification>(params).await {\n				return Err(LspProtocolError::TransportError);\n			}\n		}\n\n		Ok(())')),
    ('p-true', 'keep', Y, op(G, 'Ok(Progress::new(self.request_manager.clone(), self.client_supported, token))\n	}\n}', 'Ok(Progress::new(self.request_manager.clone(), true, token))\n	}\n}')),
    ('p-values', 'keep', Y, op(W, 'for (_, workspace) in (&self.workspaces).into_iter() {', 'for workspace in self.workspaces.values() {')),
    ('p-match-end', 'keep', Y, op(W, '		if let Some(progress) = &progress {\n			let _ = progress.end(None).await;\n		}\n', '		match progress {\n			Some(progress) => {\n				progress.end(None).await.ok();\n			}\n			None => {}\n		}\n')),
    ('p-result', 'keep', Y, op(W, 'let progress = progress.begin("Indexing").await.ok();', 'let progress = match progress.begin("Indexing").await {\n			Ok(progress) => Some(progress),\n			Err(_) => None,\n		};')),
    ('t-match', 'keep', Y, op(T, 'verbose: if *trace_value == TraceValue::Verbose { Some(visitor.formatted_fields) } else { None },', 'verbose: match *trace_value {\n					TraceValue::Verbose => Some(visitor.formatted_fields),\n					_ => None,\n				},')),
    ('t-then', 'keep', Y, op(T, 'verbose: if *trace_value == TraceValue::Verbose { Some(visitor.formatted_fields) } else { None },', 'verbose: (*trace_value == TraceValue::Verbose).then(|| visitor.formatted_fields),')),
    ('t-copy', 'keep', Y, op(T, '		let trace_value = self.trace_value.lock().unwrap();\n\n		if *trace_value == TraceValue::Off {', '		let trace_value = *self.trace_value.lock().unwrap();\n\n		if trace_value == TraceValue::Off {', 'verbose: if *trace_value ==', 'verbose: if trace_value ==')),
    ('t-let', 'keep', Y, op(T, '		self.sender.send_blocking(Message::Notification(notification)).unwrap_or_default();\n', '		let _ = self.sender.send_blocking(Message::Notification(notification));\n')),
    ('t-else', 'keep', Y, op(T, '			write!(self.message, "{:?}", value).unwrap();\n\n			return;\n		}\n\n		write!(self.formatted_fields, "{}={:?},", field.name(), value).unwrap();', '			write!(self.message, "{:?}", value).unwrap();\n		} else {\n			write!(self.formatted_fields, "{}={:?},", field.name(), value).unwrap();\n		}')),
    ('t-match-name', 'keep', Y, op(T, '		if field.name() == "message" {\n			write!(self.message, "{:?}", value).unwrap();\n\n			return;\n		}\n\n		write!(self.formatted_fields, "{}={:?},", field.name(), value).unwrap();', '		match field.name() {\n			"message" => write!(self.message, "{:?}", value).unwrap(),\n			name => write!(self.formatted_fields, "{}={:?},", name, value).unwrap(),\n		}')),
    ('t-map', 'keep', Y, op(U, '	if let Some(trace_value) = params.trace {\n		state.set_trace_value(trace_value);\n	}\n', '	params.trace.map(|value| state.set_trace_value(value));\n')),
]
