A = 'crates/analyzer-host/src/lsp_impl/active_initialized.rs'
S = 'crates/analyzer-host/src/lsp_impl/state.rs'
W = 'crates/analyzer-host/src/lsp/workspace.rs'
X = ['C25']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
src = {f: open('/repo/' + f).read() for f in (A, S, W)}
def cut(f, a, b): s = src[f]; i = s.index(a); return s[i:s.index(b, i)]
DROP = '		// Release the read-lock on state before awaiting on the parsed unit.\n		drop(state);\n\n'
CASES = [
    ('unit-held', 'break', X, op(W, DROP, '')),
    ('unit-inline', 'break', X, op(W, cut(W, '		let state = self.state.read().await;\n		let parsed_unit', '			Ok(current_parsed_unit) =>'), '		match self.state.read().await.parsed_unit.future().await {\n')),
    ('open-twice', 'break', X, op(W, 'self.set_parsed_unit(parsed_unit, Some(state));', 'self.set_parsed_unit(parsed_unit, None);\n		drop(state);')),
    ('close-tests', 'break', X, op(W, '		let mut state = self.state.try_write().unwrap();\n\n		state.is_open_in_ide = false;', '		let mut state = self.state.try_write().unwrap();\n\n		if !self.is_open_in_ide() {\n			return;\n		}\n\n		state.is_open_in_ide = false;')),
    ('created-relock', 'break', X, op(A, '	let file = state.write().await.workspaces().get_file(uri.clone());\n\n	// check if file is in client memory\n	if file.is_open_in_ide() {\n		return; // we don\'t need to query filesystem\n	}\n\n	match', '	let guard = state.write().await;\n	let file = guard.workspaces().get_file(uri.clone());\n\n	// check if file is in client memory\n	if file.is_open_in_ide() {\n		return; // we don\'t need to query filesystem\n	}\n\n	match')),
    ('change-again', 'break', X, op(A, '	let diagnostics = process_diagnostics(&analyzer, file_id, &input);\n\n	// TODO: report diagnostics\n	// Ok', '	let diagnostics = process_diagnostics(&state.analyzer.unwrap(), file_id, &input);\n	let _ = &mut analyzer;\n\n	// TODO: report diagnostics\n	// Ok')),
    ('error-tests', 'break', X, op(W, '		let mut state = self.state.try_write().unwrap();\n\n		// If the state of the FutureCompletionSource holding a parsed unit is \'Ready\', then replace', '		let mut state = self.state.try_write().unwrap();\n\n		if self.is_open_in_ide() {\n			return;\n		}\n\n		// If the state of the FutureCompletionSource holding a parsed unit is \'Ready\', then replace')),
    ('files-twice', 'break', X, op(W, '				entry.insert(new_file.clone());\n', '				entry.insert(new_file.clone());\n				info!("{} files", self.files.read().unwrap().len());\n')),
    ('analyze-twice', 'break', X, op(S, '			analyzer.update(file_id, &text);\n			analyzer.preprocessed(file_id);\n', '			analyzer.update(file_id, &text);\n			wrapper.unwrap().preprocessed(file_id);\n', 'fn analyze_source_text(analyzer: &AnalyzerWrapper, uri: &str, text: String) -> FileId {\n			let mut analyzer = analyzer.unwrap();', 'fn analyze_source_text(wrapper: &AnalyzerWrapper, uri: &str, text: String) -> FileId {\n			let mut analyzer = wrapper.unwrap();')),

    ('unit-block', 'keep', X, op(W, '		let state = self.state.read().await;\n		let parsed_unit = state.parsed_unit.clone();\n\n' + DROP, '		let parsed_unit = {\n			let state = self.state.read().await;\n			state.parsed_unit.clone()\n		};\n\n')),
    ('unit-temp', 'keep', X, op(W, '		let state = self.state.read().await;\n		let parsed_unit = state.parsed_unit.clone();\n\n' + DROP, '		let parsed_unit = self.state.read().await.parsed_unit.clone();\n\n')),
    ('change-scoped', 'keep', X, op(A, '	let diagnostics = process_diagnostics(&analyzer, file_id, &input);\n\n	// TODO: report diagnostics\n	// Ok', '	drop(analyzer);\n	let diagnostics = process_diagnostics(&state.analyzer.unwrap(), file_id, &input);\n\n	// TODO: report diagnostics\n	// Ok')),
    ('close-scoped', 'keep', X, op(W, '		let mut state = self.state.try_write().unwrap();\n\n		state.is_open_in_ide = false;', '		if !self.is_open_in_ide() {\n			return;\n		}\n\n		self.state.try_write().unwrap().is_open_in_ide = false;')),
    ('open-mem-drop', 'keep', X, op(W, 'self.set_parsed_unit(parsed_unit, Some(state)); // Use', 'std::mem::drop(state);\n		self.set_parsed_unit(parsed_unit, None); // Use')),
    ('contents-first', 'keep', X, op(A, '			let lock = state.write().await;\n			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();\n			lock.analyzer.unwrap().update(file_id, &content);', '			let file_system = state.read().await.file_system.clone();\n			let content = file_system.file_contents(uri.clone()).await.unwrap_or_default();\n			let lock = state.write().await;\n			let mut analyzer = lock.analyzer.unwrap();\n			analyzer.update(file_id, &content);')),
    ('get-first', 'keep', X, op(W, '		let mut files = self.files.write().unwrap();\n\n		match files.entry', '		if let Some(file) = self.files.read().unwrap().get(&uri).cloned() {\n			return file;\n		}\n		let mut files = self.files.write().unwrap();\n\n		match files.entry')),
]
