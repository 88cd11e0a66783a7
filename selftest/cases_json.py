J = 'crates/analyzer-host/src/json_rpc.rs'
M = 'crates/analyzer-host/src/json_rpc/message.rs'
W, R = ['C05'], ['C06']
WR = '''	write!(out, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
	out.write_all(msg.as_bytes())?;
	out.flush()?;
	Ok(())'''
LOOP_HEAD = '''		let mut parts = buf.splitn(2, ": ");
		let header_name = parts.next().unwrap();
		let header_value = parts.next().ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
		if header_name == "Content-Length" {
			size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
		}'''
CASES = [
    ('len-chars', 'break', W, [(J, 'msg.len())?', 'msg.chars().count())?')]),
    ('len+1', 'break', W, [(J, 'msg.len())?', 'msg.len() + 1)?')]),
    ('no-flush', 'break', W, [(J, '	out.flush()?;\n', '')]),
    ('flush-ignored', 'break', W, [(J, 'out.flush()?;', 'let _ = out.flush();')]),
    ('lf', 'break', W, [(J, '{}\\r\\n\\r\\n"', '{}\\n\\n"')]),
    ('short-write', 'break', W, [(J, 'out.write_all(msg.as_bytes())?', 'out.write(msg.as_bytes())?')]),
    ('newline-after', 'break', W, [(J, 'out.flush()?', 'out.write_all(b"\\n")?;\n	out.flush()?')]),
    ('trim', 'break', W, [(J, 'out.write_all(msg.as_bytes())?', 'out.write_all(msg.trim().as_bytes())?')]),
    ('version', 'break', W, [(J, 'jsonrpc: "2.0"', 'jsonrpc: "2"')]),
    ('noflatten', 'break', W, [(J, '			#[serde(flatten)]\n', '')]),
    ('pretty', 'break', W, [(J, 'write_msg_text(w, &text)', 'write_msg_text(w, &text.replace("\\\\n", " "))')]),
    ('w-buffered', 'keep', W, [(J, WR, '''	let mut frame = format!("Content-Length: {}\\r\\n\\r\\n", msg.len()).into_bytes();
	frame.extend_from_slice(msg.as_bytes());
	out.write_all(&frame)?;
	out.flush()''')]),
    ('w-bytes', 'keep', W, [(J, WR, '''	let body = msg.as_bytes();
	let n = body.len();
	out.write_all(b"Content-Length: ")?;
	out.write_all(n.to_string().as_bytes())?;
	out.write_all(b"\\r\\n\\r\\n")?;
	out.write_all(body)?;
	out.flush()''')]),
    ('w-helper', 'keep', W, [(J, WR, '''	write_header(out, msg.len())?;
	out.write_all(msg.as_bytes())?;
	out.flush()?;
	Ok(())
}

fn write_header(out: &mut dyn Write, length: usize) -> io::Result<()> {
	write!(out, "Content-Length: {length}\\r\\n")?;
	out.write_all(b"\\r\\n")''')]),
    ('w-match', 'keep', W, [(J, '	out.flush()?;\n	Ok(())', '	match out.flush() {\n		Ok(()) => Ok(()),\n		Err(e) => Err(e),\n	}')]),
    ('w-string', 'keep', W, [(J, WR, '''	let mut frame = String::with_capacity(msg.len() + 32);
	frame.push_str("Content-Length: ");
	frame.push_str(&msg.len().to_string());
	frame.push_str("\\r\\n\\r\\n");
	frame.push_str(msg);
	out.write_all(frame.as_bytes()).and_then(|_| out.flush())''')]),
    ('w-one-format', 'keep', W, [(J, WR, '''	write!(out, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
	out.flush()''')]),
    ('r-noclear', 'break', R, [(J, '		buf.clear();\n', '')]),
    ('r-anyheader', 'break', R, [(J, 'if header_name == "Content-Length" {', 'if header_name.starts_with("Content-") {')]),
    ('r-default0', 'break', R, [(J, 'size.ok_or_else(|| invalid_data!("no Content-Length"))?', 'size.unwrap_or(0)')]),
    ('r-parse-default', 'break', R, [(J, 'size = Some(header_value.parse::<usize>().map_err(invalid_data)?);', 'size = Some(header_value.parse::<usize>().unwrap_or_default());')]),
    ('r-nonblank', 'break', R, [(J, 'if buf.is_empty() {\n			break;', 'if buf.is_empty() || size.is_some() {\n			break;')]),
    ('r-lossy', 'break', R, [(J, 'String::from_utf8(buf).map_err(invalid_data)?', 'String::from_utf8_lossy(&buf).into_owned()')]),
    ('r-read', 'break', R, [(J, 'inp.read_exact(&mut buf)?;', 'let n = inp.read(&mut buf)?;\n	buf.truncate(n);')]),
    ('r-size-1', 'break', R, [(J, 'buf.resize(size, 0);', 'buf.resize(size.max(2) - 1, 0);')]),
    ('r-eof-malformed', 'break', R, [(J, 'return Err(invalid_data!("malformed header: {:?}", buf));', 'return Ok(None);')]),
    ('r-nocrlf', 'break', R, [(J, 'if !buf.ends_with("\\r\\n") {', 'if !buf.ends_with("\\n") {')]),
    ('r-unwrap', 'break', R, [(J, 'parts.next().ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?', 'parts.next().unwrap()')]),
    ('r-line-as-size', 'break', R, [(J, 'header_value.parse::<usize>()', 'header_name.parse::<usize>()')]),
    ('r-min', 'break', R, [(J, 'buf.resize(size, 0);', 'buf.resize(size.min(65536), 0);')]),
    ('r-swallow', 'break', R, [(J, 'let msg = serde_json::from_str(&text)?;\n		Ok(Some(msg))', 'Ok(serde_json::from_str(&text).ok())')]),
    ('r-trim-body', 'break', R, [(J, 'serde_json::from_str(&text)?', 'serde_json::from_str(&text[1..])?')]),
    ('r-split-once', 'keep', R, [(J, LOOP_HEAD, '''		let (header_name, header_value) = buf.split_once(": ").ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
		if header_name == "Content-Length" {
			size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
		}''')]),
    ('r-match', 'keep', R, [(J, LOOP_HEAD, '''		let mut parts = buf.splitn(2, ": ");
		let header_name = parts.next().unwrap();
		let header_value = match parts.next() {
			Some(value) => value,
			None => return Err(invalid_data!("malformed header: {:?}", buf)),
		};
		match header_name {
			"Content-Length" => {
				let parsed: usize = header_value.parse().map_err(invalid_data)?;
				size = Some(parsed);
			}
			_ => (),
		}''')]),
    ('r-helper', 'keep', R, [(J, LOOP_HEAD, '''		if let Some(n) = content_length(buf)? {
			size = Some(n);
		}'''), (J, '	macro_rules! invalid_data {', '''	fn content_length(line: &str) -> io::Result<Option<usize>> {
		let mut parts = line.splitn(2, ": ");
		let header_name = parts.next().unwrap();
		let header_value = parts.next().ok_or_else(|| invalid_data(format!("malformed header: {:?}", line)))?;
		if header_name != "Content-Length" {
			return Ok(None);
		}
		header_value.parse::<usize>().map(Some).map_err(invalid_data)
	}
	macro_rules! invalid_data {''')]),
    ('r-newbuf', 'keep', R, [(J, '	buf.resize(size, 0);', '	buf = vec![];\n	buf.try_reserve_exact(size).map_err(invalid_data)?;\n	buf.resize(size, 0);')]),
    ('r-buf-in-loop', 'keep', R, [(J, '		buf.clear();\n		if inp', '		let mut buf = String::new();\n		if inp'), (J, '	let mut buf = String::new();\n	loop', '	loop'), (J, 'let mut buf = buf.into_bytes();\n', 'let mut buf = Vec::new();\n')]),
    ('r-while', 'keep', R, [(J, '		if inp.read_line(&mut buf)? == 0 {\n			return Ok(None);\n		}', '		let count = inp.read_line(&mut buf)?;\n		if count < 1 {\n			return Ok(None);\n		}')]),
    ('r-strip', 'keep', R, [(J, '''		if !buf.ends_with("\\r\\n") {
			return Err(invalid_data!("malformed header: {:?}", buf));
		}
		let buf = &buf[..buf.len() - 2];''', '''		let buf = match buf.strip_suffix("\\r\\n") {
			Some(line) => line,
			None => return Err(invalid_data!("malformed header: {:?}", buf)),
		};''')]),
    ('r-andthen', 'keep', R, [(J, '''		let text = match read_msg_text(r)? {
			None => return Ok(None),
			Some(text) => text,
		};
		let msg = serde_json::from_str(&text)?;
		Ok(Some(msg))''', '''		if let Some(text) = read_msg_text(r)? {
			let msg = serde_json::from_str(&text)?;
			return Ok(Some(msg));
		}
		Ok(None)''')]),
    ('r-map', 'keep', R, [(J, '''		let text = match read_msg_text(r)? {
			None => return Ok(None),
			Some(text) => text,
		};
		let msg = serde_json::from_str(&text)?;
		Ok(Some(msg))''', '''		read_msg_text(r)?.map(|text| serde_json::from_str(&text).map_err(io::Error::from)).transpose()''')]),
    ('m-order', 'break', ['C07'], [(M, '	Request(Request),\n	Response(Response),\n	Notification(Notification),', '	Notification(Notification),\n	Request(Request),\n	Response(Response),')]),
    ('m-order2', 'break', ['C07'], [(M, '	Request(Request),\n	Response(Response),', '	Response(Response),\n	Request(Request),')]),
    ('m-default-id', 'break', ['C07'], [(M, 'pub method: String,\n	#[serde(default', '#[serde(default)]\n	pub method: String,\n	#[serde(default')]),
    ('m-null-result', 'break', ['C07'], [(M, '	#[serde(skip_serializing_if = "Option::is_none")]\n	pub error', '	pub error')]),
    ('m-nodefault', 'break', ['C07'], [(M, '	#[serde(default = "serde_json::Value::default")]\n', '')]),
    ('m-rename', 'break', ['C07'], [(M, 'pub code: i32', '#[serde(rename = "errorCode")]\n	pub code: i32')]),
    ('m-tag', 'break', ['C07'], [(M, '#[serde(untagged)]\n', '')]),
    ('m-code', 'break', ['C07'], [(J, 'InvalidParams = -32602', 'InvalidParams = -32601')]),
    ('m-order-keep', 'keep', ['C07'], [(M, '	Response(Response),\n	Notification(Notification),', '	Notification(Notification),\n	Response(Response),')]),
    ('m-default-fn', 'keep', ['C07'], [(M, '#[serde(default = "serde_json::Value::default")]', '#[serde(default)]')]),
    ('x-both', 'break', ['C08'], [(J, 'result: None, error: Some(Resp', 'result: Some(serde_json::Value::Null), error: Some(Resp')]),
    ('x-neither', 'break', ['C08'], [(J, 'Response { id, result: Some(serde_json::to_value(data).unwrap()), error: None }', 'let v = serde_json::to_value(data).unwrap();\n		Response { id, result: if v.is_null() { None } else { Some(v) }, error: None }')]),
    ('x-swap', 'break', ['C08'], [(J, 'method: method.to_string(), params', 'method: method.to_lowercase(), params')]),
    ('x-keep', 'keep', ['C08'], [(J, 'Response { id, result: Some(serde_json::to_value(data).unwrap()), error: None }', 'let result = serde_json::to_value(data).unwrap();\n		Self { result: Some(result), error: None, id }')]),
    ('x-keep2', 'keep', ['C08'], [(J, 'Response { id, result: None, error: Some(ResponseError { code, message: String::from(message), data: None }) }', 'let error = ResponseError { code, message: message.to_owned(), data: None };\n		Response { id, result: None, error: Some(error) }')]),
]
