A = 'crates/analyzer-host/src/lsp_impl/active_initialized.rs'
U = 'crates/analyzer-host/src/lsp_impl/active_uninitialized.rs'
N = 'crates/analyzer-host/src/lsp_impl/initializing.rs'
S = 'crates/analyzer-host/src/lsp_impl/state.rs'
W = 'crates/analyzer-host/src/lsp/workspace.rs'
X = ['C24']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
src = {f: open('/repo/' + f).read() for f in (A, U, N, S, W)}
def cut(f, a, b): s = src[f]; i = s.index(a); return s[i:s.index(b, i)]
OPENF = cut(A, '	analyzer.update(file_id, &params.text_document.text);', '	Ok(())')
CREATED = cut(A, '	// check if file is in client memory', '	match file.get_parsed_unit()')
DELETED = '	// check if file is in client memory\n	if file.is_open_in_ide() {\n		return; // we don\'t need to query filesystem\n	}\n\n	state.write().await.analyzer.unwrap().delete(uri.as_str());'
WATCH = cut(A, '		match event.typ {', '	}\n\n	Ok(())\n}\n\n/// Responds')
RECHECK = cut(S, '								// If the file has been opened in the IDE during the fetching', '								// ...otherwise')
FIRST = cut(S, '						// If the file has been opened in the IDE during the time', '						match file_system')
TASK = cut(S, '					AsyncPool::spawn_work(async move {', '				}\n				Err(_) => break,')
GET = cut(W, '		match files.entry(uri.clone()) {', '	}\n\n	pub async fn index')
WRITE = cut(W, '				// Keep a file that is known already', '			}\n		}\n\n		let document_identifiers')
MAP = cut(A, '		.map(|TextDocumentContentChangeEvent', '		.collect::<Vec<_>>();\n\n	if')
IDX = cut(W, '		for (_, workspace) in (&self.workspaces)', '		if let Some(progress) = &progress {\n			let _ = progress.end')
CASES = [
    ('open-notmarked', 'break', X, op(A, '	file.open_or_update(file_id);\n\n	Ok(())', '	file.set_parsed_unit(file_id, None);\n\n	Ok(())')),
    ('open-otherfile', 'break', X, op(A, '	let file_id = analyzer.file_id(params.text_document.uri.as_str());\n	analyzer.update(file_id, &params', '	let file_id = analyzer.file_id(params.text_document.uri.path());\n	analyzer.update(file_id, &params')),
    ('open-onlynew', 'break', X, op(A, '	analyzer.update(file_id, &params.text_document.text);', '	if analyzer.input(file_id).is_none() {\n		analyzer.update(file_id, &params.text_document.text);\n	}')),
    ('close-notclosed', 'break', X, op(A, '	file.close();\n', '')),
    ('close-textkept', 'break', X, op(A, '	analyzer.delete(params.text_document.uri.as_str());\n	file.close();', '	let _ = &mut analyzer;\n	file.close();')),
    ('close-path', 'break', X, op(A, '	analyzer.delete(params.text_document.uri.as_str());', '	analyzer.delete(params.text_document.uri.path());')),
    ('close-opens', 'break', X, op(W, '		state.is_open_in_ide = false;\n	}\n\n	pub(crate) fn set_parsed_unit', '		state.is_open_in_ide = !state.is_open_in_ide;\n	}\n\n	pub(crate) fn set_parsed_unit')),
    ('save-ignored', 'break', X, op(A, '		analyzer.update(file_id, &text);\n', '')),
    ('change-startend', 'break', X, op(A, 'end: core::Position { line: end.line as usize', 'end: core::Position { line: start.line as usize')),
    ('change-swapped', 'break', X, op(A, 'start: core::Position { line: start.line as usize, character: start.character as usize }', 'start: core::Position { line: start.character as usize, character: start.line as usize }')),
    ('change-filtered', 'break', X, op(A, '		.into_iter()\n		.map(|TextDocumentContentChangeEvent', '		.into_iter()\n		.skip(1)\n		.map(|TextDocumentContentChangeEvent')),
    ('change-reversed', 'break', X, op(A, '		.into_iter()\n		.map(|TextDocumentContentChangeEvent', '		.into_iter()\n		.rev()\n		.map(|TextDocumentContentChangeEvent')),
    ('change-last', 'break', X, op(A, 'analyzer.file_change_event(file_id, &event_change);', 'if let Some(last) = event_change.into_iter().last() {\n		analyzer.file_change_event(file_id, &vec![last]);\n	}')),
    ('change-nonempty-range', 'break', X, op(A, 'let range = range.map(|Range { start, end }|', 'let range = range.filter(|r| r.start != r.end).map(|Range { start, end }|')),
    ('watch-created-open', 'break', X, op(A, CREATED, '')),
    ('watch-deleted-open', 'break', X, op(A, DELETED, '	let _ = file;\n	state.write().await.analyzer.unwrap().delete(uri.as_str());')),
    ('watch-inverted', 'break', X, op(A, '	if file.is_open_in_ide() {', '	if !file.is_open_in_ide() {')),
    ('watch-changed-ignored', 'break', X, op(A, 'FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same', 'FileChangeType::CHANGED => (),')),
    ('watch-swapped', 'break', X, op(A, 'FileChangeType::CREATED => created_file', 'FileChangeType::CREATED => deleted_file')),
    ('watch-first', 'break', X, op(A, 'for event in &params.changes {', 'if let Some(event) = params.changes.first() {')),
    ('watch-return', 'break', X, op(A, '_ => error!(uri = event.uri.as_str(), "Ignoring an unsupported file change type."),', '_ => return Ok(()),')),
    ('watch-skip', 'break', X, op(A, 'for event in &params.changes {', 'for event in params.changes.iter().take(16) {')),
    ('watch-err', 'break', X, op(A, '			state.read().await.analyzer.load(uri.clone());\n', '')),
    ('watch-othercontent', 'break', X, op(A, 'lock.file_system.file_contents(uri.clone())', 'lock.file_system.file_contents(uri.join(".").unwrap_or(uri.clone()))')),
    ('task-recheck', 'break', X, op(S, RECHECK, '')),
    ('task-error-recheck', 'break', X, op(S, '							None if file.is_open_in_ide() => return,\n', '')),
    ('task-noerror', 'break', X, op(S, 'None => file.set_index_error(IndexError::NotFound), // The file was not found', 'None => (),')),
    ('task-unset', 'break', X, op(S, '								file.set_parsed_unit(file_id, None);\n', '								let _ = file_id;\n')),
    ('task-setfirst', 'break', X, op(S, '								file.set_parsed_unit(file_id, None);\n', '', '								let file_id = analyze_source_text(&analyzer, file_url.as_str(), text);\n', '								let file_id = analyzer.unwrap().file_id(file_url.as_str());\n								file.set_parsed_unit(file_id, None);\n								analyze_source_text(&analyzer, file_url.as_str(), text);\n')),
    ('task-empty', 'break', X, op(S, '							Some(text) => {', '							Some(text) if text.is_empty() => return,\n							Some(text) => {')),
    ('task-hoisted', 'break', X, op(S, FIRST, '						let is_open = file.is_open_in_ide();\n						if is_open {\n							return;\n						}\n\n', RECHECK, '								if is_open {\n									return;\n								}\n\n')),
    ('task-otherfile', 'break', X, op(S, 'analyze_source_text(&analyzer, file_url.as_str(), text)', 'analyze_source_text(&analyzer, file_url.path(), text)')),
    ('loop-ends', 'break', X, op(S, TASK, TASK + '					if receiver.is_empty() {\n						break;\n					}\n')),
    ('loop-skips', 'break', X, op(S, TASK, '					if file_url.scheme() != "file" {\n						continue;\n					}\n' + TASK)),
    ('channel-other', 'break', X, op(S, 'let (_, receiver) = self.background_parse_channel.clone();', 'let (_, receiver) = async_channel::unbounded();')),
    ('channel-bounded', 'break', X, op(S, 'async_channel::unbounded::<Url>()', 'async_channel::bounded::<Url>(256)')),
    ('load-ignored', 'break', X, op(S, '	fn load(&self, file_path: Url) { self.background_queue.enqueue(file_path); }', '	fn load(&self, file_path: Url) {\n		if file_path.path().ends_with(".p4") {\n			self.background_queue.enqueue(file_path);\n		}\n	}')),
    ('load-notsent', 'break', X, op(S, 'let _ = self.0.send_blocking(file_path);', 'let _ = self.0.send(file_path);')),
    ('lookup-notloaded', 'break', X, op(W, '				self.background_load.load(uri.clone());\n', '				let _ = &self.background_load;\n')),
    ('lookup-always-new', 'break', X, op(W, GET, '''		let _ = files.len();
		let new_file = Arc::new(File::new(TextDocumentIdentifier { uri: uri.clone() }));
		files.insert(uri.clone(), new_file.clone());
		self.background_load.load(uri);

		new_file
''')),
    ('lookup-open', 'break', X, op(W, '				is_open_in_ide: false,', '				is_open_in_ide: true,')),
    ('index-insert', 'break', X, op(W, WRITE, '''				files.insert(document_identifier.uri.clone(), Arc::new(File::new(document_identifier.clone())));
				workspace.background_load.load(document_identifier.uri.clone());
''')),
    ('index-notloaded', 'break', X, op(W, '					workspace.background_load.load(document_identifier.uri.clone());\n', '')),
    ('index-few', 'break', X, op(W, 'for document_identifier in document_identifiers.into_iter() {', 'for document_identifier in document_identifiers.iter().take(1000) {')),
    ('index-first-workspace', 'break', X, op(W, '			workspace.index().await;\n', '			workspace.index().await;\n			break;\n')),
    ('index-notawaited', 'break', X, op(W, '			workspace.index().await;\n', '			let _ = workspace.index();\n')),
    ('folder-noslash', 'break', X, op(W, cut(W, '			// A relative URL starts', '			if let Some(relative)'), '')),
    ('folder-inverted', 'break', X, op(W, 'if !base.path().ends_with', 'if base.path().ends_with')),
    ('folder-parent', 'break', X, op(W, 'return !relative.starts_with("..");', 'return !relative.is_empty();')),
    ('folder-any', 'break', X, op(W, '			false\n		}\n\n		// If not', '			true\n		}\n\n		// If not')),
    ('spawn-copy', 'break', X, op(S, '			self.workspaces().clone(),\n', '			WorkspaceManager::new(self.file_system.clone(), None, self.analyzer.clone()),\n')),
    ('hover-deletes', 'break', X, op(A, '	params: HoverParams,\n	_: Arc<AsyncRwLock<State>>,\n) -> HandlerResult<Option<Hover>> {', '	params: HoverParams,\n	state: Arc<AsyncRwLock<State>>,\n) -> HandlerResult<Option<Hover>> {\n	state.write().await.analyzer.unwrap().delete(params.text_document_position_params.text_document.uri.as_str());')),

    ('open-order', 'keep', X, op(A, OPENF, '	file.open_or_update(file_id);\n	analyzer.update(file_id, &params.text_document.text);\n\n')),
    ('open-helper', 'keep', X, op(A, OPENF, '	show(&mut analyzer, &file, file_id, params.text_document.text);\n\n', 'async fn on_text_document_did_close', '''fn show(analyzer: &mut analyzer_core::Analyzer, file: &crate::lsp::workspace::File, file_id: FileId, text: String) {
	analyzer.update(file_id, &text);
	file.open_or_update(file_id);
}

async fn on_text_document_did_close''')),
    ('close-order', 'keep', X, op(A, '	analyzer.delete(params.text_document.uri.as_str());\n	file.close();', '	let uri = &params.text_document.uri;\n	file.close();\n	analyzer.delete(uri.as_str());')),
    ('change-fn', 'keep', X, op(A, MAP, '		.map(to_event)\n', 'async fn on_text_document_did_close', '''fn to_position(p: Position) -> analyzer_core::lsp_file::Position {
	analyzer_core::lsp_file::Position { line: p.line as usize, character: p.character as usize }
}

fn to_event(change: analyzer_abstractions::lsp_types::TextDocumentContentChangeEvent) -> ChangeEvent {
	let range = match change.range {
		Some(r) => Some(analyzer_core::lsp_file::Range { start: to_position(r.start), end: to_position(r.end) }),
		None => None,
	};
	ChangeEvent { range, text: change.text }
}

async fn on_text_document_did_close''', '	use analyzer_abstractions::lsp_types::TextDocumentContentChangeEvent;\n', '')),
    ('change-push', 'keep', X, op(A, cut(A, '	let event_change = params', '	if event_change.iter()'), '''	let mut event_change = Vec::with_capacity(params.content_changes.len());
	for change in params.content_changes {
		let TextDocumentContentChangeEvent { range, text, .. } = change;
		use analyzer_core::lsp_file as core;
		let range = range.map(|Range { start, end }| core::Range {
			start: core::Position { line: start.line as usize, character: start.character as usize },
			end: core::Position { line: end.line as usize, character: end.character as usize },
		});
		event_change.push(ChangeEvent { range, text });
	}

''')),
    ('watch-if', 'keep', X, op(A, WATCH, '''		if event.typ == FileChangeType::CREATED || event.typ == FileChangeType::CHANGED {
			created_file(&event.uri, &state).await;
		} else if event.typ == FileChangeType::DELETED {
			deleted_file(&event.uri, &state).await;
		} else {
			error!(uri = event.uri.as_str(), "Ignoring an unsupported file change type.");
		}
''')),
    ('watch-iter', 'keep', X, op(A, 'for event in &params.changes {', 'for event in params.changes.iter() {')),
    ('watch-invert', 'keep', X, op(A, DELETED, '	if !file.is_open_in_ide() {\n		let state = state.write().await;\n		state.analyzer.unwrap().delete(uri.as_str());\n	}\n')),
    ('task-fn', 'keep', X, op(S, TASK, '					AsyncPool::spawn_work(State::analyze_file(file_url, file_system, workspace_manager, analyzer));\n', '	async fn process_background_analyze_requests(', '''	async fn analyze_file(
		file_url: Url,
		file_system: Arc<AnyEnumerableFileSystem>,
		workspace_manager: WorkspaceManager,
		analyzer: Arc<AnalyzerWrapper>,
	) {
		let file = workspace_manager.get_file(file_url.clone());
		if file.is_open_in_ide() {
			return;
		}
		let contents = file_system.file_contents(file_url.clone()).await;
		if file.is_open_in_ide() {
			return;
		}
		let Some(text) = contents else {
			file.set_index_error(IndexError::NotFound);
			return;
		};
		let file_id = {
			let mut analyzer = analyzer.unwrap();
			let file_id = analyzer.file_id(file_url.as_str());
			analyzer.update(file_id, &text);
			analyzer.preprocessed(file_id);
			file_id
		};
		file.set_parsed_unit(file_id, None);
	}

	async fn process_background_analyze_requests(''', cut(S, '		fn analyze_source_text(', '		loop {'), '')),
    ('task-whilelet', 'keep', X, op(S, '		loop {\n			match receiver.recv().await {\n				Ok(file_url) => {', '		while let Ok(file_url) = receiver.recv().await {\n', '				}\n				Err(_) => break,\n			}\n		}\n', '		}\n')),
    ('task-if', 'keep', X, op(S, '							None if file.is_open_in_ide() => return,\n							None => file.set_index_error(IndexError::NotFound), // The file was not found', '							None => {\n								if !file.is_open_in_ide() {\n									file.set_index_error(IndexError::NotFound);\n								}\n							}')),
    ('lookup-get', 'keep', X, op(W, GET, '''		if let Some(file) = files.get(&uri) {
			return file.clone();
		}

		let new_file = Arc::new(File::new(TextDocumentIdentifier { uri: uri.clone() }));
		files.insert(uri.clone(), new_file.clone());
		self.background_load.load(uri);

		new_file
''')),
    ('index-contains', 'keep', X, op(W, WRITE, '''				if files.contains_key(&document_identifier.uri) {
					continue;
				}
				files.insert(document_identifier.uri.clone(), Arc::new(File::new(document_identifier.clone())));
				workspace.background_load.load(document_identifier.uri.clone());
''')),
    ('index-inline', 'keep', X, op(W, 'if document_identifiers.len() == 0 {', 'if document_identifiers.is_empty() {')),
    ('index-values', 'keep', X, op(W, 'for (_, workspace) in (&self.workspaces).into_iter() {', 'for workspace in self.workspaces.values() {')),
    ('folder-match', 'keep', X, op(W, cut(W, '			if let Some(relative) =', '		}\n\n		// If not'), '''			match base.make_relative(target) {
				Some(relative) => !relative.starts_with("../") && relative != "..",
				None => false,
			}
''')),
    ('folder-mapor', 'keep', X, op(W, cut(W, '			if let Some(relative) =', '		}\n\n		// If not'), '''			base.make_relative(target).map_or(false, |relative| !relative.starts_with(".."))
''')),
    ('find-loop', 'keep', X, op(W, cut(W, '		match (&self.workspaces).into_iter().find', '	}\n\n	/// Asynchronously indexes'), '''		for (workspace_uri, workspace) in &self.workspaces {
			if is_descendant_path(workspace_uri, &uri) {
				return workspace.get_file(uri);
			}
		}
		self.catch_all.get_file(uri)
''')),
    ('error-pending', 'break', X, op(W, "				fcs.set_err(error).unwrap();\n", "				let _ = error;\n")),
    ('error-otherfcs', 'break', X, op(W, "				fcs.set_err(error).unwrap();\n\n				fcs\n", "				fcs.set_err(error).unwrap();\n\n				FutureCompletionSource::<Arc<RwLock<ParsedUnit>>, IndexError>::new()\n", "				let fcs = FutureCompletionSource::new();", "				let fcs = FutureCompletionSource::<Arc<RwLock<ParsedUnit>>, IndexError>::new();")),
    ('error-late-ok', 'keep', X, op(W, """			state.parsed_unit = {
				let fcs = FutureCompletionSource::new();

				fcs.set_err(error).unwrap();

				fcs
			}
		} else {
			state.parsed_unit.set_err(error).unwrap();
		}
""", """			state.parsed_unit = FutureCompletionSource::new();
		}
		state.parsed_unit.set_err(error).unwrap();
""")),
    ('folder-noslash', 'break', X, op(W, "			if !base.path().ends_with('/') {", "			if base.path().is_empty() {")),
    ('folder-slash-inverted', 'break', X, op(W, "			if !base.path().ends_with('/') {", "			if base.path().ends_with('/') {")),
    ('folder-always', 'break', X, op(W, "			if !base.path().ends_with('/') {", "			if base.path().ends_with('/') || !base.cannot_be_a_base() {")),
    ('folder-let-ok', 'keep', X, op(W, "			if !base.path().ends_with('/') {\n				base.set_path(&format!(\"{}/\", base.path()));", "			let has = base.path().ends_with('/');\n			if !has {\n				let path = format!(\"{}/\", base.path());\n				base.set_path(&path);")),
    ('folder-true', 'break', X, op(W, "			if !base.path().ends_with('/') {\n				base.set_path(&format!(\"{}/\", base.path()));\n			}", "			base.set_path(&format!(\"{}/\", base.path()));")),
    ('folder-trim-ok', 'keep', X, op(W, "			if !base.path().ends_with('/') {\n				base.set_path(&format!(\"{}/\", base.path()));\n			}", "			let path = format!(\"{}/\", base.path().trim_end_matches('/'));\n			base.set_path(&path);")),
]
