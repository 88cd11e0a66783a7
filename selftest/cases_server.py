A = 'crates/analyzer-host/src/lsp_impl/active_initialized.rs'
U = 'crates/analyzer-host/src/lsp_impl/active_uninitialized.rs'
N = 'crates/analyzer-host/src/lsp_impl/initializing.rs'
S = 'crates/analyzer-host/src/lsp_impl/state.rs'
W = 'crates/analyzer-host/src/lsp/workspace.rs'
T = 'crates/analyzer-host/src/tracing.rs'
X = ['C22']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
src = {f: open('/repo/' + f).read() for f in (A, U, N, S, W, T)}
def cut(f, a, b): s = src[f]; i = s.index(a); return s[i:s.index(b, i)]
INPUT = cut(A, '	// FIXME: potentially', '	use analyzer_abstractions::lsp_types::TextDocumentContentChangeEvent;')
INV = cut(A, '	if event_change.iter()', '	analyzer.file_change_event')
SAVE = cut(A, '		info!("Syncing buffer on save.");', '	}\n\n	Ok(())\n}\n\nasync fn on_set_trace')
MGR = cut(U, '	state.set_workspaces(WorkspaceManager::new', '}\n\n/// Creates an initialized')
FIND = cut(W, '		match (&self.workspaces)', '	}\n\n	/// Asynchronously indexes')
ERR = cut(W, '		if let Poll::Ready(_) = state.parsed_unit.state()', '	}\n}\n\nimpl Display for File')
WATCH = cut(A, '		match event.typ {', '	}\n\n	Ok(())\n}\n\n/// Responds')
OPEN = cut(A, '	let file_id = analyzer.file_id(params.text_document.uri.as_str());\n	analyzer.update(file_id, &params.text_document.text);', '	file.open_or_update')
CASES = [
    ('input-unwrap', 'break', X, op(A, INPUT, '\tlet mut input = analyzer.input(file_id).unwrap().to_string();\n\n')),
    ('input-late', 'break', X, op(A, INPUT, '', INV, INV + INPUT.replace('let mut input', 'let input').replace('return Err(HandlerError::new_with_data("received a didChange notification for an unknown file", Some(uri)))', 'String::new()'))),
    ('save-diag-first', 'break', X, op(A, SAVE, '\t\tinfo!("Syncing buffer on save.");\n\t\tlet file_id = analyzer.file_id(params.text_document.uri.as_str());\n\t\tlet diagnostics = process_diagnostics(&analyzer, file_id, &text);\n\t\tanalyzer.update(file_id, &text);\n\t\tfile.open_or_update(file_id);\n')),
    ('close-diag', 'break', X, op(A, '	analyzer.delete(params.text_document.uri.as_str());\n	file.close();', '	let file_id = analyzer.file_id(params.text_document.uri.as_str());\n	analyzer.delete(params.text_document.uri.as_str());\n	let _ = process_diagnostics(&analyzer, file_id, "");\n	file.close();')),
    ('progress-conditional', 'break', X, op(U, '	state.set_progress(ProgressManager::new(request_manager, work_done_supported));', '	if work_done_supported {\n\t\tstate.set_progress(ProgressManager::new(request_manager, work_done_supported));\n\t}')),
    ('workspaces-conditional', 'break', X, op(U, 'state.set_workspaces(WorkspaceManager::new(file_system, workspace_folders, analyzer));', 'if workspace_folders.is_some() {\n\t\tstate.set_workspaces(WorkspaceManager::new(file_system, workspace_folders, analyzer));\n\t}')),
    ('ranges-line', 'break', X, op(A, 'range.start > range.end)', 'range.start.line > range.end.line)')),
    ('ranges-less', 'break', X, op(A, 'range.start > range.end)', 'range.start < range.end)')),
    ('ranges-all', 'break', X, op(A, '.any(|range| range.start > range.end)', '.all(|range| range.start > range.end)')),
    ('ranges-skip', 'break', X, op(A, 'event_change.iter().filter_map', 'event_change.iter().skip(1).filter_map')),
    ('ranges-dropped', 'break', X, op(A, INV, '')),
    ('ranges-after', 'break', X, op(A, INV, '', '	file.open_or_update(file_id);\n	let diagnostics', INV + '	file.open_or_update(file_id);\n	let diagnostics')),
    ('find-unwrap', 'break', X, op(W, 'None => self.catch_all.get_file(uri),', 'None => unreachable!("no workspace for {}", uri),')),
    ('error-again', 'break', X, op(W, ERR, '\t\tstate.parsed_unit.set_err(error).unwrap();\n')),
    ('unit-again', 'break', X, op(W, '		if let Poll::Ready(result) = state.parsed_unit.state() {\n			match result {\n				Ok(current_parsed_unit) => *current_parsed_unit.write().unwrap() = parsed_unit,\n				Err(_) =>', '		if let Poll::Ready(Err(_)) = state.parsed_unit.state() {\n			match () {\n				_ =>')),
    ('watch-unknown', 'break', X, op(A, '_ => error!(uri = event.uri.as_str(), "Ignoring an unsupported file change type."),', '_ => unreachable!(),')),
    ('trace-unwrap', 'break', X, op(S, '		if let Some(trace_value) = &self.trace_value {\n			trace_value.set(value);\n		}', '		self.trace_value.as_ref().unwrap().set(value);')),
    ('require-unwrap', 'break', X, op(S, '			if let Ok(file_path) = Url::parse(file_path) {\n				background_queue.enqueue(file_path)\n			}', '			background_queue.enqueue(Url::parse(file_path).unwrap())')),
    ('resolve-unwrap', 'break', X, op(S, 'match base_url.join(path) {\n				Ok(target_url) => Ok(target_url.as_str().into()),\n				Err(err) => {\n					Err(format!("Could not find path \'{}\' (relative to \'{}\'). {}", path, absolute_base_url, err))\n				}\n			}', 'Ok(base_url.join(path).unwrap().as_str().into())')),
    ('enqueue-unwrap', 'break', X, op(S, 'let _ = self.0.send_blocking(file_path);', 'self.0.send_blocking(file_path).unwrap();')),
    ('background-slice', 'break', X, op(S, 'info!(file_uri = file_url.as_str(), "Got text: {}", text);', 'let head = &text[..80];\n\t\t\t\t\t\t\t\tinfo!(file_uri = file_url.as_str(), "Got text: {}", head);')),
    ('change-first', 'break', X, op(A, '	use analyzer_abstractions::lsp_types::TextDocumentContentChangeEvent;', '	let first = &params.content_changes[0];\n	info!("{:?}", first);\n	use analyzer_abstractions::lsp_types::TextDocumentContentChangeEvent;')),
    ('index-progress', 'break', X, op(W, 'progress.begin("Indexing").await.ok()', 'Some(progress.begin("Indexing").await.unwrap())')),
    ('contents-unwrap', 'break', X, op(A, '.await.unwrap_or_default();', '.await.unwrap();')),
    ('completion-unknown', 'break', X, op(A, '			let (input, lexed) = match (analyzer.input(file_id), analyzer.preprocessed(file_id)) {\n				(Some(i), Some(l)) => (i, l),\n				_ => return Ok(Some(CompletionResponse::Array(vec![]))),\n			};', '			let (input, lexed) = (analyzer.get_file(file_id).get_file_content(), analyzer.preprocessed(file_id).unwrap());')),

    ('input-letelse', 'keep', X, op(A, INPUT, '\tlet Some(input) = analyzer.input(file_id).map(|i| i.to_string()) else {\n\t\treturn Err(HandlerError::new_with_data("received a didChange notification for an unknown file", Some(uri)));\n\t};\n\n')),
    ('ranges-loop', 'keep', X, op(A, INV, '\tfor event in &event_change {\n\t\tif let Some(range) = &event.range {\n\t\t\tif range.end < range.start {\n\t\t\t\treturn Err(HandlerError::new_with_data("received a didChange notification with an inverted range", Some(uri)));\n\t\t\t}\n\t\t}\n\t}\n\n')),
    ('ranges-fn', 'keep', X, op(A, '.any(|range| range.start > range.end)', '.any(|range| is_inverted(&range))', 'async fn on_text_document_did_close', 'fn is_inverted(range: &analyzer_core::lsp_file::Range) -> bool { !(range.start <= range.end) }\n\nasync fn on_text_document_did_close')),
    ('ranges-all-ordered', 'keep', X, op(A, 'if event_change.iter().filter_map(|event| event.range).any(|range| range.start > range.end) {', 'if !event_change.iter().filter_map(|event| event.range).all(|range| range.start <= range.end) {')),
    ('find-loop', 'keep', X, op(W, FIND, '\t\tfor (workspace_uri, workspace) in self.workspaces.iter() {\n\t\t\tif is_descendant_path(workspace_uri, &uri) {\n\t\t\t\treturn workspace.get_file(uri);\n\t\t\t}\n\t\t}\n\n\t\tself.catch_all.get_file(uri)\n')),
    ('managers-swapped', 'keep', X, op(U, MGR, '\tlet request_manager = state.request_manager.clone();\n\tlet work_done_supported = window_capabilities.and_then(|value| value.work_done_progress).unwrap_or(false);\n\n\tstate.set_progress(ProgressManager::new(request_manager, work_done_supported));\n\tstate.set_workspaces(WorkspaceManager::new(file_system, workspace_folders, analyzer));\n')),
    ('open-helper', 'keep', X, op(A, OPEN, '\tlet file_id = sync_text(&mut analyzer, &params.text_document.uri, &params.text_document.text);\n\n', 'async fn on_text_document_did_close', 'fn sync_text(analyzer: &mut analyzer_core::Analyzer, uri: &Url, text: &String) -> FileId {\n\tlet file_id = analyzer.file_id(uri.as_str());\n\tanalyzer.update(file_id, text);\n\tfile_id\n}\n\nasync fn on_text_document_did_close')),
    ('save-early-return', 'keep', X, op(A, '	if let Some(text) = params.text {\n', '	let text = match params.text {\n\t\tSome(text) => text,\n\t\tNone => return Ok(()),\n\t};\n\t{\n')),
    ('error-match', 'keep', X, op(W, ERR, '''		match state.parsed_unit.state() {
			Poll::Pending => state.parsed_unit.set_err(error).unwrap(),
			Poll::Ready(_) => {
				let fresh = FutureCompletionSource::new();
				fresh.set_err(error).expect("a new source is not completed");
				state.parsed_unit = fresh;
			}
		}
''')),
    ('member-expect', 'keep', X, op(S, '''		if let None = self.workspace_manager {
			unreachable!("the WorkspaceManager was not initialized"); // A WorkspaceManager should be set during processing of the `'initialize'` request.
		}

		self.workspace_manager.as_ref().unwrap()''', '''		self.workspace_manager.as_ref().expect("the WorkspaceManager was not initialized")''')),
    ('member-match', 'keep', X, op(S, '''		if let None = self.progress_manager {
			unreachable!("the ProgressManager was not initialized");
		}

		self.progress_manager.as_ref().unwrap()''', '''		match &self.progress_manager {
			Some(progress_manager) => progress_manager,
			None => unreachable!("the ProgressManager was not initialized"),
		}''')),
    ('watch-if', 'keep', X, op(A, WATCH, '''		if event.typ == FileChangeType::DELETED {
			deleted_file(&event.uri, &state).await;
		} else if event.typ == FileChangeType::CREATED || event.typ == FileChangeType::CHANGED {
			created_file(&event.uri, &state).await;
		} else {
			error!(uri = event.uri.as_str(), "Ignoring an unsupported file change type.");
		}
''')),
    ('lock-expect', 'keep', X, op(W, 'let mut files = self.files.write().unwrap();', 'let mut files = self.files.write().expect("no panic while the files are locked");')),
    ('diagnostics-loop', 'keep', X, op(A, '	let lsp = analyzer.get_file(file_id);\n	diagnostics\n		.into_iter()\n		.map(|d| {', '	diagnostics\n		.into_iter()\n		.map(|d| {\n			let lsp = analyzer.get_file(file_id);')),
]
