F = 'crates/p4-analyzer-wasm/src/lib.rs'
B = 'crates/p4-analyzer-wasm/src/buffer.rs'
C = ['C32']
def op(f, *p): return [(f, p[i], p[i + 1]) for i in range(0, len(p), 2)]
SEND = '''				if sender.send(message).await.is_err() {
					return Err(JsValue::from(Error::new(
						"Unexpected error writing request message to request channel.",
					)));
				}
'''
LOOP = 'while let Ok(message) = receiver.recv().await {'
CALL = 'self.on_response_callback.call1(&JsValue::NULL, &to_buffer(message_text.as_bytes())).unwrap();'
JOIN = 'join(host.start(self.cts.token().clone()), self.on_receive()).await'
CHAN = '''		let (sender, _) = self.response_channel.clone();
		let (_, receiver) = self.request_channel.clone();

		(sender, receiver)'''
CASES = [
	('to the wrong channel', 'break', C, op(F, 'self.request_channel.clone();\n\n				if', 'self.response_channel.clone();\n\n				if')),
	('ends swapped', 'break', C, op(F, CHAN, CHAN.replace('response_channel', 'X').replace('request_channel', 'response_channel').replace('X', 'request_channel'))),
	('sent twice', 'break', C, op(F, SEND, '				let _ = sender.send(message.clone()).await;\n' + SEND)),
	('not sent', 'break', C, op(F, SEND, '				let _ = (sender, message);\n')),
	('notifications not sent', 'break', C, op(F, SEND, '				if matches!(message, Message::Notification(_)) {\n					return Ok(JsValue::UNDEFINED);\n				}\n' + SEND)),
	('not awaited', 'break', C, op(F, SEND, '				let _ = sender.send(message);\n')),
	('send error dropped', 'break', C, op(F, SEND, '				sender.send(message).await.ok();\n')),
	('read error dropped', 'break', C, op(F, 'Err(err) => Err(JsValue::from(Error::new(&format!(\n				"Unexpected error reading request message: {}",\n				err.to_string()\n			)))),', 'Err(_) => Ok(JsValue::UNDEFINED),')),
	('one answer', 'break', C, op(F, LOOP, 'if let Ok(message) = receiver.recv().await {')),
	('break after error', 'break', C, op(F, CALL, CALL + '\n			if message_text.contains("\\"error\\"") {\n				break;\n			}')),
	('notifications skipped', 'break', C, op(F, LOOP, LOOP + '\n			if matches!(message, Message::Notification(_)) {\n				continue;\n			}\n')),
	('handed out twice', 'break', C, op(F, CALL, CALL + '\n			' + CALL)),
	('version 1', 'break', C, op(F, 'jsonrpc: "2.0"', 'jsonrpc: "1.0"')),
	('without version', 'break', C, op(F, '&JsonRpcEnvelope { jsonrpc: "2.0", msg: message }', '&message')),
	('from the requests', 'break', C, op(F, '(_, receiver) = self.response_channel.clone();', '(_, receiver) = self.request_channel.clone();')),
	('one channel', 'break', C, op(F, '		Self {\n			on', '		let channel = async_channel::unbounded::<Message>();\n		Self {\n			on', 'request_channel: async_channel::unbounded::<Message>(),\n			response_channel: async_channel::unbounded::<Message>()', 'request_channel: channel.clone(),\n			response_channel: channel')),
	('own token', 'break', C, op(F, 'self.cts.token().clone()', 'CancellationTokenSource::new().token().clone()')),
	('one after the other', 'break', C, op(F, JOIN, '(host.start(self.cts.token().clone()).await, self.on_receive().await)')),
	('no cancel', 'break', C, op(F, '		self.cts.cancel();\n', '')),
	('answers left open', 'break', C, op(F, '		sender.close();\n', '		let _ = sender;\n')),
	('characters counted', 'break', C, op(F, 'to_buffer(message_text.as_bytes())', 'to_buffer(&message_text.as_bytes()[..message_text.chars().count()])')),
	('length off by one', 'break', C, op(B, 'src.len() as u32', '(src.len() as u32) + 1')),
	('u8', 'break', C, op(B, 'src.len() as u32', '(src.len() as u16) as u32')),
	('helper forwards', 'keep', C, op(F, SEND, '				self.forward(message).await?;\n', '	/// Stops the', '''	async fn forward(&self, message: Message) -> Result<(), JsValue> {
		self.request_channel
			.0
			.send(message)
			.await
			.map_err(|_| JsValue::from(Error::new("Unexpected error writing request message to request channel.")))
	}

	/// Stops the''')),
	('decoded first', 'keep', C, op(F, 'match serde_json::from_slice::<Message>(to_u8_vec(&request_buffer).as_slice()) {', 'let bytes = to_u8_vec(&request_buffer);\n		let decoded = serde_json::from_slice::<Message>(&bytes);\n		match decoded {')),
	('is_ok', 'keep', C, op(F, SEND, '				let sent = sender.send(message).await;\n				if let Err(_) = sent {\n					return Err(JsValue::from(Error::new("Unexpected error writing request message to request channel.")));\n				}\n')),
	('loop and match', 'keep', C, op(F, LOOP, 'loop {\n			let message = match receiver.recv().await {\n				Ok(m) => m,\n				Err(_) => break,\n			};\n')),
	('helper encodes', 'keep', C, op(F, 'let message_text = serde_json::to_string(&JsonRpcEnvelope { jsonrpc: "2.0", msg: message }).unwrap();', 'let envelope = JsonRpcEnvelope { jsonrpc: "2.0", msg: message };\n			let message_text = serde_json::to_string(&envelope).unwrap();')),
	('helper hands out', 'keep', C, op(F, CALL, 'self.hand_out(&message_text);', '	fn get_message_channel', '	fn hand_out(&self, text: &str) {\n		let buffer = to_buffer(text.as_bytes());\n\n		self.on_response_callback.call1(&JsValue::NULL, &buffer).unwrap();\n	}\n\n	fn get_message_channel')),
	('bytes', 'keep', C, op(F, 'serde_json::to_string(', 'serde_json::to_vec(', 'message_text.as_bytes()', '&message_text')),
	('fields of the channel', 'keep', C, op(F, CHAN, '		(self.response_channel.0.clone(), self.request_channel.1.clone())')),
	('close by the channel', 'keep', C, op(F, '		let (sender, receiver) = self.get_message_channel();\n\n		sender.close();\n		receiver.close();', '		self.response_channel.0.close();\n		self.request_channel.0.close();')),
	('join in two lines', 'keep', C, op(F, 'match ' + JOIN, 'let running = host.start(self.cts.token().clone());\n		let receiving = self.on_receive();\n		match join(running, receiving).await')),
	('token named', 'keep', C, op(F, 'match ' + JOIN, 'let token = self.cts.token();\n		match join(host.start(token.clone()), self.on_receive()).await')),
	('length named', 'keep', C, op(B, 'let array_buffer = Uint8Array::new_with_length(src.len() as u32);', 'let length = src.len() as u32;\n	let array_buffer = Uint8Array::new_with_length(length);')),
]
