R = 'crates/analyzer-host/src/fs.rs'
T = 'packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts'
C = ['C30']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
ENUM = '''			match s.request_manager.send_and_receive::<EnumerateFolderRequest>(params).await {
				Ok(entries) => entries,
				Err(err) => {
					error!(folder_uri = folder_uri.as_str(), "Failed to enumerate folder. {}", err);

					vec![]
				}
			}
'''
CONT = '''			match s.request_manager.send_and_receive::<FileContentsRequest>(params).await {
				Ok(contents) => Some(contents),
				Err(err) => {
					error!(file_uri = file_uri.as_str(), "Failed to retrieve file contents. {}", err);

					None
				}
			}
'''
FIND = 'const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern));'
MAP = 'return files.map(file => TextDocumentIdentifier.create(file.toString()));'
READ = 'return await readFile(uri.fsPath, { flag: "r",  encoding: "utf-8"});'
HEAD = 'this.onRequest("p4analyzer/enumerateFolder", async (params: EnumerateFolderParams) => {'
CASES = [
	('rust: method renamed', 'break', C, op(R, '"p4analyzer/enumerateFolder"', '"p4analyzer/enumerateFolders"')),
	('rust: same method', 'break', C, op(R, '"p4analyzer/fileContents"', '"p4analyzer/enumerateFolder"')),
	('rust: snake case', 'break', C, op(R, '#[serde(rename_all = "camelCase")]\npub(crate) struct EnumerateFolderParams', 'pub(crate) struct EnumerateFolderParams')),
	('rust: field renamed', 'break', C, op(R, '	pub file_pattern: String,', '	#[serde(rename = "pattern")]\n	pub file_pattern: String,')),
	('rust: fixed pattern', 'break', C, op(R, '{ uri: folder_uri.clone(), file_pattern };', '{ uri: folder_uri.clone(), file_pattern: format!("**/{}", file_pattern) };')),
	('rust: wrong uri', 'break', C, op(R, 'TextDocumentIdentifier { uri: file_uri.clone() };', 'TextDocumentIdentifier { uri: file_uri.join("/").unwrap_or(file_uri.clone()) };')),
	('rust: unwrap', 'break', C, op(R, CONT, '			Some(s.request_manager.send_and_receive::<FileContentsRequest>(params).await.unwrap())\n')),
	('rust: empty instead of missing', 'break', C, op(R, '					None\n', '					Some(String::new())\n')),
	('rust: empty files are missing', 'break', C, op(R, 'Ok(contents) => Some(contents),', 'Ok(contents) if contents.is_empty() => None,\n				Ok(contents) => Some(contents),')),
	('rust: trimmed', 'break', C, op(R, 'Ok(contents) => Some(contents),', 'Ok(contents) => Some(contents.trim().to_string()),')),
	('rust: only files without fragment asked', 'break', C, op(R, '			let params = TextDocumentIdentifier', '			if file_uri.query().is_some() {\n				return None;\n			}\n			let params = TextDocumentIdentifier')),
	('rust: truncated', 'break', C, op(R, 'Ok(entries) => entries,', 'Ok(mut entries) => {\n					entries.truncate(1000);\n					entries\n				}')),
	('rust: single entries dropped', 'break', C, op(R, 'Ok(entries) => entries,', 'Ok(entries) if entries.len() > 1 => entries,\n				Ok(_) => vec![],')),
	('rust: retried', 'break', C, op(R, CONT, '			let again = TextDocumentIdentifier { uri: file_uri.clone() };\n			match s.request_manager.send_and_receive::<FileContentsRequest>(params).await {\n				Ok(contents) => Some(contents),\n				Err(_) => s.request_manager.send_and_receive::<FileContentsRequest>(again).await.ok(),\n			}\n')),
	('ts: bare pattern', 'break', C, op(T, 'params.filePattern))', 'params.filePattern).pattern)')),
	('ts: pattern only', 'break', C, op(T, 'new RelativePattern(folder, params.filePattern)', 'params.filePattern')),
	('ts: first folder', 'break', C, op(T, 'workspace.getWorkspaceFolder(uri)', 'workspace.workspaceFolders?.[0]')),
	('ts: fixed pattern', 'break', C, op(T, 'params.filePattern)', '"**/*.p4")')),
	('ts: limit', 'break', C, op(T, 'params.filePattern))', 'params.filePattern), undefined, 500)')),
	('ts: excluded', 'break', C, op(T, 'params.filePattern))', 'params.filePattern), "**/include/**")')),
	('ts: other field', 'break', C, op(T, 'interface EnumerateFolderParams {\n	uri: string;\n	filePattern: string;', 'interface EnumerateFolderParams {\n	uri: string;\n	file_pattern: string;', 'params.filePattern)', 'params.file_pattern)')),
	('ts: other method', 'break', C, op(T, '"p4analyzer/fileContents"', '"p4analyzer/fileContent"')),
	('ts: uris', 'break', C, op(T, MAP, 'return files.map(file => file.toString());')),
	('ts: paths', 'break', C, op(T, MAP, 'return files.map(file => TextDocumentIdentifier.create(file.fsPath));')),
	('ts: sliced', 'break', C, op(T, MAP, 'return files.slice(0, 1000).map(file => TextDocumentIdentifier.create(file.toString()));')),
	('ts: filtered', 'break', C, op(T, MAP, 'return files.filter(f => f.scheme === "file").map(file => TextDocumentIdentifier.create(file.toString()));')),
	('ts: bytes', 'break', C, op(T, READ, 'return await readFile(uri.fsPath);')),
	('ts: latin1', 'break', C, op(T, '"utf-8"', '"latin1"')),
	('ts: trimmed', 'break', C, op(T, READ, 'const text = await readFile(uri.fsPath, { flag: "r",  encoding: "utf-8"});\n\n		return text.trimEnd();')),
	('ts: errors hidden', 'break', C, op(T, READ, 'try {\n			return await readFile(uri.fsPath, { flag: "r",  encoding: "utf-8"});\n		}\n		catch {\n			return "";\n		}')),
	('ts: handlers not installed', 'break', C, op('packages/p4-analyzer-vscode/src/index.ts', '	client.setP4AnalyzerHandlers();\n', '')),
	('keep: ok()', 'keep', C, op(R, CONT, '			s.request_manager.send_and_receive::<FileContentsRequest>(params).await.ok()\n')),
	('keep: map_err ok', 'keep', C, op(R, CONT, '			s.request_manager\n				.send_and_receive::<FileContentsRequest>(params)\n				.await\n				.map_err(|err| error!(file_uri = file_uri.as_str(), "Failed to retrieve file contents. {}", err))\n				.ok()\n')),
	('keep: if let', 'keep', C, op(R, CONT, '			let answer = s.request_manager.send_and_receive::<FileContentsRequest>(params).await;\n			if let Err(err) = &answer {\n				error!(file_uri = file_uri.as_str(), "Failed to retrieve file contents. {}", err);\n			}\n			match answer {\n				Ok(contents) => Some(contents),\n				Err(_) => None,\n			}\n')),
	('keep: unwrap_or_default', 'keep', C, op(R, ENUM, '			s.request_manager.send_and_receive::<EnumerateFolderRequest>(params).await.unwrap_or_default()\n')),
	('keep: unwrap_or_else', 'keep', C, op(R, ENUM, '			s.request_manager.send_and_receive::<EnumerateFolderRequest>(params).await.unwrap_or_else(|err| {\n				error!(folder_uri = folder_uri.as_str(), "Failed to enumerate folder. {}", err);\n				Vec::new()\n			})\n')),
	('keep: early return', 'keep', C, op(R, ENUM, '			let entries = match s.request_manager.send_and_receive::<EnumerateFolderRequest>(params).await {\n				Ok(entries) => entries,\n				Err(err) => {\n					error!(folder_uri = folder_uri.as_str(), "Failed to enumerate folder. {}", err);\n					return Vec::new();\n				}\n			};\n\n			entries\n')),
	('keep: async move', 'keep', C, op(R, '		Box::pin(file_contents(self, file_uri))\n', '		Box::pin(async move { file_contents(self, file_uri).await })\n')),
	('keep: helper', 'keep', C, op(R, CONT, '			s.ask_contents(params, &file_uri).await\n', 'RequestManager) -> Self { Self { request_manager } }\n', 'RequestManager) -> Self { Self { request_manager } }\n\n	async fn ask_contents(&self, params: TextDocumentIdentifier, file_uri: &Url) -> Option<String> {\n		match self.request_manager.send_and_receive::<FileContentsRequest>(params).await {\n			Ok(contents) => Some(contents),\n			Err(err) => {\n				error!(file_uri = file_uri.as_str(), "Failed to retrieve file contents. {}", err);\n				None\n			}\n		}\n	}\n')),
	('keep: params inline', 'keep', C, op(R, '			let params = TextDocumentIdentifier { uri: file_uri.clone() };\n', '			let uri = file_uri.clone();\n			let params = TextDocumentIdentifier { uri };\n')),
	('keep: renamed both', 'keep', C, op(R, '"p4analyzer/fileContents"', '"p4analyzer/contents"') + op(T, '"p4analyzer/fileContents"', '"p4analyzer/contents"')),
	('keep: explicit rename', 'keep', C, op(R, '#[serde(rename_all = "camelCase")]\npub(crate) struct EnumerateFolderParams', 'pub(crate) struct EnumerateFolderParams', '	pub file_pattern: String,', '	#[serde(rename = "filePattern")]\n	pub file_pattern: String,')),
	('keep: ts const method', 'keep', C, op(T, HEAD, 'this.onRequest(enumerateFolder, async (params: EnumerateFolderParams) => {', 'interface EnumerateFolderParams', 'const enumerateFolder = "p4analyzer/enumerateFolder";\n\ninterface EnumerateFolderParams')),
	('keep: ts destructured', 'keep', C, op(T, HEAD, 'this.onRequest("p4analyzer/enumerateFolder", async ({ uri: folderUri, filePattern }: EnumerateFolderParams) => {', 'const uri = Uri.parse(params.uri);\n		const folder', 'const uri = Uri.parse(folderUri);\n		const folder', 'params.filePattern', 'filePattern')),
	('keep: ts named handler', 'keep', C, op(T, 'this.onRequest("p4analyzer/fileContents", async (params: TextDocumentIdentifier) => {\n		const uri = Uri.parse(params.uri);\n\n		' + READ + '\n	});', 'this.onRequest("p4analyzer/fileContents", onFileContents);', 'function setP4', 'async function onFileContents(params: TextDocumentIdentifier): Promise<string> {\n	return readFile(Uri.parse(params.uri).fsPath, "utf-8");\n}\n\nfunction setP4')),
	('keep: ts folder uri', 'keep', C, op(T, 'new RelativePattern(folder,', 'new RelativePattern(folder.uri,')),
	('keep: ts literal', 'keep', C, op(T, MAP, 'return files.map(file => ({ uri: file.toString() }));')),
	('keep: ts loop', 'keep', C, op(T, MAP, 'const identifiers: TextDocumentIdentifier[] = [];\n\n		for (const file of files) {\n			identifiers.push(TextDocumentIdentifier.create(file.toString()));\n		}\n\n		return identifiers;')),
	('keep: ts helper', 'keep', C, op(T, MAP, 'return files.map(toIdentifier);', 'function setP4', 'function toIdentifier(file: Uri): TextDocumentIdentifier {\n	return TextDocumentIdentifier.create(file.toString());\n}\n\nfunction setP4')),
	('keep: ts workspace.fs', 'keep', C, op(T, READ, 'const bytes = await workspace.fs.readFile(uri);\n\n		return new TextDecoder("utf-8").decode(bytes);')),
]
