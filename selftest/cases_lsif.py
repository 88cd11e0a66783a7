W = 'crates/lsif-p4/src/lsif_writer.rs'
G = 'crates/lsif-p4/src/lsif_generator.rs'
C = ['C29']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
APP = '''		let mut json = serde_json::to_string(entry).expect("Failed to serialze entry");
		json.push('\\n');
		self.file.push_str(&json);
'''
GET = '''		let ret = self.id;
		self.id += 1;
		ret
'''
LOOP = '''			for (url, _file) in workspace.1.files.read().unwrap().iter() {
				self.writer.document(url);
			}
'''
CASES = [
	('id: not incremented', 'break', C, op(W, GET, '		self.id\n')),
	('id: reset on overflow of 1000', 'break', C, op(W, '		self.id += 1;\n', '		self.id = (self.id + 1) % 1000;\n')),
	('id: document peeks', 'break', C, op(W, 'let new_id = self.get_id();\n		let id = Self::i32_to_enum(new_id);\n\n		let vertex = Entry {\n			id,\n			data: Element::Vertex(Vertex::Document', 'let new_id = self.id;\n		let id = Self::i32_to_enum(new_id);\n\n		let vertex = Entry {\n			id,\n			data: Element::Vertex(Vertex::Document')),
	('id: answered before', 'break', C, op(W, '		self.data.files.insert(url.clone(), new_id);\n\n		new_id\n', '		self.data.files.insert(url.clone(), new_id);\n\n		self.id\n')),
	('id: recorded wrong', 'break', C, op(W, 'insert(url.clone(), new_id)', 'insert(url.clone(), new_id + 1)')),
	('id: not recorded', 'break', C, op(W, '		self.data.files.insert(url.clone(), new_id);\n', '')),
	('text: no newline', 'break', C, op(W, APP, '		let json = serde_json::to_string(entry).expect("x");\n		self.file.push_str(&json);\n')),
	('text: newline before', 'break', C, op(W, APP, "		let json = serde_json::to_string(entry).expect(\"x\");\n		if !self.file.is_empty() {\n			self.file.push('\\n');\n		}\n		self.file.push_str(&json);\n")),
	('text: replaced', 'break', C, op(W, 'self.file.push_str(&json);', 'self.file = json;')),
	('text: pretty', 'break', C, op(W, 'serde_json::to_string(entry)', 'serde_json::to_string_pretty(entry)')),
	('text: twice', 'break', C, op(W, '		self.append_file(&vertex);\n		self.data', '		self.append_file(&vertex);\n		self.append_file(&vertex);\n		self.data')),
	('text: known files not written', 'break', C, op(W, '		self.append_file(&vertex);\n		self.data', '		if !self.data.files.contains_key(url) {\n			self.append_file(&vertex);\n		}\n		self.data')),
	('disk: single write', 'break', C, op(W, 'file.write_all(self.file.as_bytes()).expect("Failed to write to output file!");', 'let _ = file.write(self.file.as_bytes()).expect("Failed to write to output file!");')),
	('disk: trimmed', 'break', C, op(W, 'write_all(self.file.as_bytes())', 'write_all(self.file.trim_end().as_bytes())')),
	('disk: not if empty', 'break', C, op(W, '		let dest = self.settings', '		if self.data.files.len() < 2 {\n			return;\n		}\n		let dest = self.settings')),
	('files: skip one', 'break', C, op(G, '.unwrap().iter() {', '.unwrap().iter().skip(1) {')),
	('files: only p4', 'break', C, op(G, '				self.writer.document(url);\n', '				if url.path().ends_with(".p4") {\n					self.writer.document(url);\n				}\n')),
	('files: first workspace', 'break', C, op(G, LOOP, LOOP + '			break;\n')),
	('files: stop at first', 'break', C, op(G, '				self.writer.document(url);\n', '				self.writer.document(url);\n				break;\n')),
	('files: twice', 'break', C, op(G, '				self.writer.document(url);\n', '				self.writer.document(url);\n				self.writer.document(url);\n')),
	('files: empty headers skipped', 'break', C, op(G, LOOP, '			if workspace.1.files.read().unwrap().len() > 100 {\n				continue;\n			}\n' + LOOP)),
	('dump: exits without writing', 'break', C, op(G, '		// Write file, here is not ideal as some messages may not have been processed yet\n		self.writer.write_file_to_disk();\n', '')),
	('dump: written early', 'break', C, op(G, '		let workspace_manager = self.read_workspace_manager().await;\n', '		self.writer.write_file_to_disk();\n		let workspace_manager = self.read_workspace_manager().await;\n')),
	('keep: one push', 'keep', C, op(W, APP, '		let json = serde_json::to_string(entry).expect("Failed to serialze entry");\n		self.file.push_str(&format!("{}\\n", json));\n')),
	('keep: pushed apart', 'keep', C, op(W, APP, "		let json = serde_json::to_string(entry).expect(\"Failed to serialze entry\");\n		self.file += &json;\n		self.file.push('\\n');\n")),
	('keep: line pushed', 'keep', C, op(W, APP, '		let json = serde_json::to_string(entry).unwrap();\n		self.file.push_str(json.as_str());\n		self.file.push_str("\\n");\n')),
	('keep: get_id other order', 'keep', C, op(W, GET, '		self.id += 1;\n		self.id - 1\n')),
	('keep: get_id replace', 'keep', C, op(W, GET, '		let next = self.id + 1;\n		std::mem::replace(&mut self.id, next)\n')),
	('keep: get_id inlined', 'keep', C, op(W, '		let new_id = self.get_id();\n		let id = Self::i32_to_enum(new_id);\n\n		let vertex = Entry {\n			id,\n			data: Element::Vertex(Vertex::Document', '		let new_id = self.id;\n		self.id += 1;\n		let id = NumberOrString::Number(new_id);\n\n		let vertex = Entry {\n			id,\n			data: Element::Vertex(Vertex::Document')),
	('keep: insert first', 'keep', C, op(W, '		self.append_file(&vertex);\n		self.data.files.insert(url.clone(), new_id);\n', '		self.data.files.insert(url.clone(), new_id);\n		self.append_file(&vertex);\n')),
	('keep: fs::write', 'keep', C, op(W, '		let mut file = File::create(&filepath).expect("Failed to create output file!");\n		file.write_all(self.file.as_bytes()).expect("Failed to write to output file!");\n', '		std::fs::write(&filepath, self.file.as_bytes()).expect("Failed to write to output file!");\n')),
	('keep: keys', 'keep', C, op(G, LOOP, '			for url in workspace.1.files.read().unwrap().keys() {\n				self.writer.document(url);\n			}\n')),
	('keep: values of workspaces', 'keep', C, op(G, 'for workspace in workspace_manager.workspaces {', 'for workspace in workspace_manager.workspaces.iter() {')),
	('keep: helper', 'keep', C, op(G, LOOP, '			self.write_documents(&workspace.1);\n') + op(G, '	async fn stop_workspace(&mut self) {', '	fn write_documents(&mut self, workspace: &Workspace) {\n		let files = workspace.files.read().unwrap();\n		for (url, _) in files.iter() {\n			self.writer.document(url);\n		}\n	}\n\n	async fn stop_workspace(&mut self) {')),
	('keep: while let', 'keep', C, op(G, LOOP, '			let files = workspace.1.files.read().unwrap();\n			let mut it = files.iter();\n			while let Some((url, _)) = it.next() {\n				let _ = self.writer.document(url);\n			}\n')),
	('keep: for_each', 'keep', C, op(G, LOOP, '			let files = workspace.1.files.read().unwrap();\n			let writer = &mut self.writer;\n			files.iter().for_each(|(url, _)| {\n				writer.document(url);\n			});\n')),
	('keep: no exit', 'keep', C, op(G, '		// Not ideal but works.\n		std::process::exit(0);\n', '')),
	('keep: log', 'keep', C, op(W, '		let new_id = self.get_id();\n		let id = Self::i32_to_enum(new_id);\n\n		let vertex = Entry {\n			id,\n			data: Element::Vertex(Vertex::Document', '		println!("document {}", url);\n		let new_id = self.get_id();\n		let id = Self::i32_to_enum(new_id);\n\n		let vertex = Entry {\n			id,\n			data: Element::Vertex(Vertex::Document')),
]
