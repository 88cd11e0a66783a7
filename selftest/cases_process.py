N = 'crates/p4-analyzer/src/native_fs.rs'
D = 'crates/p4-analyzer/src/driver.rs'
L = 'crates/p4-analyzer/src/commands/lsp_server.rs'
M = 'crates/p4-analyzer/src/main.rs'
F, R = ['C27'], ['C28']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
LOOP = '''				for files in paths {
					match files {
						Ok(path) => {
							if let Ok(uri) = Url::from_file_path(path) {
								output.push(TextDocumentIdentifier { uri })
							}
						}
						// 'stdout' belongs to the LSP client
						Err(err) => error!("Failed to enumerate '{}': {}", folder_uri, err),
					}
				}
'''
READ = '''				let data = tokio::fs::read(path).await;

				match data {
					Ok(data) => Some(String::from_utf8_lossy(&data).into_owned()),
					Err(_) => None,
				}
'''
SEND = '''		while let Ok(Some(message)) = input_source.reader() {
			if sender.send_blocking(message).is_err() {
				break;
			}
		}
'''
RECV = '''		while let Ok(message) = receiver.recv_blocking() {
			if output_source.writer(message).is_err() {
				break;
			}
		}
'''
CASES = [
    ('fs-utf8', 'break', F, op(N, 'Some(String::from_utf8_lossy(&data).into_owned())', 'Some(String::from_utf8(data).unwrap())')),
    ('fs-utf8-none', 'break', F, op(N, 'Some(String::from_utf8_lossy(&data).into_owned())', 'String::from_utf8(data).ok()')),
    ('fs-path', 'break', F, op(N, 'file_uri.to_file_path().ok()?', 'file_uri.to_file_path().unwrap()')),
    ('fs-empty', 'break', F, op(N, 'Err(_) => None,\n				}', 'Err(_) => Some(String::new()),\n				}')),
    ('fs-empty-file', 'break', F, op(N, 'Ok(data) => Some(', 'Ok(data) if data.is_empty() => None,\n					Ok(data) => Some(')),
    ('fs-trim', 'break', F, op(N, '.into_owned())', '.trim_end().to_string())')),
    ('fs-prefix', 'break', F, op(N, '.from_utf8_lossy(&data)', '.from_utf8_lossy(&data[..data.len().min(65536)])') if False else op(N, 'from_utf8_lossy(&data)', 'from_utf8_lossy(&data[..data.len().min(65536)])')),
    ('glob-unescaped', 'break', F, op(N, 'Pattern::escape(&folder_path.to_string_lossy())', '&folder_path.to_string_lossy()')),
    ('glob-escaped', 'break', F, op(N, 'to_string_lossy()), file_pattern)', 'to_string_lossy()), Pattern::escape(&file_pattern))')),
    ('glob-constant', 'break', F, op(N, 'to_string_lossy()), file_pattern)', 'to_string_lossy()), "**/*.p4")')),
    ('glob-first', 'break', F, op(N, 'output.push(TextDocumentIdentifier { uri })', 'output.push(TextDocumentIdentifier { uri });\n								break;')),
    ('glob-stop', 'break', F, op(N, 'Err(err) => error!("Failed to enumerate \'{}\': {}", folder_uri, err),', 'Err(err) => {\n							error!("Failed to enumerate \'{}\': {}", folder_uri, err);\n							return output;\n						}')),
    ('glob-skip', 'break', F, op(N, 'for files in paths {', 'for files in paths.skip(1) {')),
    ('glob-folder', 'break', F, op(N, 'output.push(TextDocumentIdentifier { uri })', 'output.push(TextDocumentIdentifier { uri: { let _ = uri; folder_uri.clone() } })')),
    ('glob-hidden', 'break', F, op(N, 'if let Ok(uri) = Url::from_file_path(path) {', 'let hidden = path.to_string_lossy().contains("/.");\n							if hidden { continue; }\n							if let Ok(uri) = Url::from_file_path(path) {')),
    ('glob-unwrap', 'break', F, op(N, 'if let Ok(uri) = Url::from_file_path(path) {', '{ let uri = Url::from_file_path(path).unwrap();')),
    ('glob-print', 'break', F, op(N, 'error!("Failed to enumerate', 'println!("Failed to enumerate')),
    ('fs-match', 'keep', F, op(N, 'let path = file_uri.to_file_path().ok()?;', 'let path = match file_uri.to_file_path() {\n					Ok(path) => path,\n					Err(_) => return None,\n				};')),
    ('fs-ok', 'keep', F, op(N, READ, '				let data = tokio::fs::read(path).await.ok()?;\n				let text = String::from_utf8_lossy(&data).to_string();\n				Some(text)\n')),
    ('fs-if-let', 'keep', F, op(N, READ, '				if let Ok(data) = tokio::fs::read(path).await {\n					return Some(String::from_utf8_lossy(&data).into_owned());\n				}\n				None\n')),
    ('glob-helper', 'keep', F, op(N, LOOP, '				for files in paths {\n					let path = match files {\n						Ok(path) => path,\n						Err(err) => {\n							error!("Failed to enumerate \'{}\': {}", folder_uri, err);\n							continue;\n						}\n					};\n					match Url::from_file_path(&path) {\n						Ok(uri) => output.push(TextDocumentIdentifier { uri }),\n						Err(_) => (),\n					}\n				}\n')),
    ('glob-collect', 'keep', F, op(N, 'let mut output = Vec::new();\n', '', LOOP, '				let output = paths\n					.filter_map(|entry| entry.ok())\n					.filter_map(|path| Url::from_file_path(path).ok())\n					.map(|uri| TextDocumentIdentifier { uri })\n					.collect::<Vec<_>>();\n')),
    ('fs-name', 'keep', F, op(N, 'let data = tokio::fs::read(path).await;', 'let _ = path.exists();\n				let data = tokio::fs::read(&path).await;')),
    ('relay-open', 'break', R, op(D, '		sender.close();\n	}\n\n	fn receiver', '		let _ = &sender;\n	}\n\n	fn receiver')),
    ('relay-skip-error', 'break', R, op(D, SEND, '''		loop {
			match input_source.reader() {
				Ok(Some(message)) => {
					if sender.send_blocking(message).is_err() {
						break;
					}
				}
				Ok(None) => break,
				Err(_) => continue,
			}
		}
''')),
    ('relay-eof', 'break', R, op(D, SEND, '''		while let Ok(message) = input_source.reader() {
			if let Some(message) = message {
				if sender.send_blocking(message).is_err() {
					break;
				}
			}
		}
''')),
    ('relay-try', 'break', R, op(D, 'sender.send_blocking(message).is_err()', 'sender.try_send(message).is_err()')),
    ('relay-notification', 'break', R, op(D, 'if sender.send_blocking(message).is_err() {', 'if matches!(message, Message::Response(_)) {\n				continue;\n			}\n			if sender.send_blocking(message).is_err() {')),
    ('relay-goes-on', 'break', R, op(D, SEND, '		while let Ok(Some(message)) = input_source.reader() {\n			let _ = sender.send_blocking(message);\n		}\n')),
    ('relay-write-once', 'break', R, op(D, RECV, '		while let Ok(message) = receiver.recv_blocking() {\n			output_source.writer(message).ok();\n			if receiver.is_empty() {\n				break;\n			}\n		}\n')),
    ('relay-write-unwrap', 'break', R, op(D, RECV, '		while let Ok(message) = receiver.recv_blocking() {\n			output_source.writer(message).unwrap();\n		}\n')),
    ('relay-drop', 'break', R, op(D, RECV, '		while let Ok(message) = receiver.recv_blocking() {\n			if receiver.is_closed() {\n				continue;\n			}\n			if output_source.writer(message).is_err() {\n				break;\n			}\n		}\n')),
    ('relay-crossed', 'break', R, op(D, '		let (sender, _) = self.out_channel.clone();\n		let (_, receiver) = self.in_channel.clone();\n\n		(sender', '		let (sender, _) = self.in_channel.clone();\n		let (_, receiver) = self.out_channel.clone();\n\n		(sender')),
    ('relay-one-channel', 'break', R, op(D, 'pub fn console_driver() -> Driver {\n	Driver {\n		in_channel: async_channel::unbounded::<Message>(),\n		out_channel: async_channel::unbounded::<Message>(),', 'pub fn console_driver() -> Driver {\n	let channel = async_channel::unbounded::<Message>();\n	Driver {\n		in_channel: channel.clone(),\n		out_channel: channel,')),
    ('relay-cancel', 'break', R, op(D, '					sender.close();\n					receiver.close();', '					sender.close();\n					let _ = &receiver;')),
    ('relay-no-join', 'break', R, op(D, '					receiver_task.join().unwrap();\n', '					drop(receiver_task);\n')),
    ('relay-writer', 'break', R, op(D, 'DriverType::Console => message.write(&mut stdout()),', 'DriverType::Console => {\n				let _ = message.write(&mut stdout());\n				Ok(())\n			}')),
    ('relay-stderr', 'break', R, op(D, 'message.write(&mut stdout())', 'message.write(&mut std::io::stderr())')),
    ('relay-print', 'break', R, op(D, '		while let Ok(message) = receiver', '		println!("ready");\n		while let Ok(message) = receiver')),
    ('main-print', 'break', R, op(M, '			cmd.run().await;', '			println!("P4 Analyzer");\n			cmd.run().await;')),
    ('ctrlc-print', 'break', R, op(M, 'eprintln!("(To forcibly exit', 'println!("(To forcibly exit')),
    ('run-no-driver', 'break', R, op(L, 'tokio::join!(host.start(cancel_token.clone()), self.driver.start(cancel_token.clone()))', '(host.start(cancel_token.clone()).await, Ok::<(), ()>(()))')),
    ('run-no-files', 'break', R, op(L, 'Some(Arc::new(NativeFs::new()))', 'None')),
    ('relay-match', 'keep', R, op(D, SEND, '''		loop {
			let message = match input_source.reader() {
				Ok(Some(message)) => message,
				Ok(None) | Err(_) => break,
			};

			match sender.send_blocking(message) {
				Ok(_) => (),
				Err(_) => break,
			}
		}
''')),
    ('relay-inline', 'keep', R, op(D, 'std::thread::spawn(move || Self::receiver_task(receiver, source_type2))', 'std::thread::spawn(move || {\n			loop {\n				let message = match receiver.recv_blocking() {\n					Ok(message) => message,\n					Err(_) => return,\n				};\n				if let Err(_) = source_type2.writer(message) {\n					return;\n				}\n			}\n		})')),
    ('relay-forward', 'keep', R, op(D, SEND, '		while Self::forward(&sender, &input_source) {}\n', '	fn receiver_task(', '	fn forward(sender: &Sender<Message>, input_source: &DriverType) -> bool {\n		match input_source.reader() {\n			Ok(Some(message)) => sender.send_blocking(message).is_ok(),\n			_ => false,\n		}\n	}\n\n	fn receiver_task(')),
    ('relay-fields', 'keep', R, op(D, '		let (sender, _) = self.out_channel.clone();\n		let (_, receiver) = self.in_channel.clone();\n\n		(sender, receiver)', '		(self.out_channel.0.clone(), self.in_channel.1.clone())')),
    ('relay-reader', 'keep', R, op(D, 'match self.clone() {\n			DriverType::Console => Message::read(&mut stdin().lock()),', 'match self.clone() {\n			DriverType::Console => {\n				let mut input = stdin().lock();\n				Message::read(&mut input)\n			}')),
    ('relay-log', 'keep', R, op(D, '		while let Ok(message) = receiver', '		eprintln!("ready");\n		while let Ok(message) = receiver')),
    ('main-flow', 'keep', R, op(M, '			if cmd.version {\n				println!(env!("CARGO_PKG_VERSION"));\n\n				return;\n			}', '			let show = cmd.version;\n			if show {\n				println!("{}", env!("CARGO_PKG_VERSION"));\n				return;\n			}')),
	('native: async block', 'keep', F, op(N, '			Box::pin(enumerate_folder(folder_uri, file_pattern))\n', '			Box::pin(async move { enumerate_folder(folder_uri, file_pattern).await })\n')),
]
