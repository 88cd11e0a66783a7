"""second round: rewritings of the kind a maintainer makes, and bugs, written without looking at the rules"""
FE = 'crates/analyzer-abstractions/src/futures_extensions.rs'
AE = 'crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs'
JR = 'crates/analyzer-host/src/json_rpc.rs'
JM = 'crates/analyzer-host/src/json_rpc/message.rs'
LF = 'crates/analyzer-core/src/lsp_file.rs'
PR = 'crates/analyzer-core/src/parser.rs'
F2 = ['C01', 'C02']; PO = ['C03', 'C04']; JS = ['C05', 'C06', 'C07', 'C08']; LS = ['C09', 'C10']; PA = ['C11', 'C12', 'C13']
STATE = '''		match self.state.completed.load(Ordering::Relaxed) {
			true => {
				let reader = self.state.value.read().unwrap();
				let result = reader.as_ref().unwrap();

				Poll::Ready(match result {
					Ok(value) => Ok(value.clone()),
					Err(err) => Err(*err),
				})
			}
			false => Poll::Pending,
		}
'''
SET = '''		let mut writer = self.state.value.write().unwrap();

		// Only one completer can hold the lock, so no other one can complete between this check and the store below.
		let completed = self.state.completed.load(Ordering::Relaxed);

		if completed {
			return Err(FutureCompletionSourceError::Invalid);
		}

		// Store the result, set the `completed` state to true and then notify all those that are currently
		// awaiting to resolve their 'Future'.
		writer.replace(result);
		self.state.completed.store(true, Ordering::Relaxed);
		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.

		Ok(())
'''
FUT = '''		if let Poll::Ready(value) = self.state() {
			return value;
		}

		// Otherwise, await for an on-completed event before returning the set result. The listener only observes
		// notifications made after it was created, so the state has to be checked again before awaiting it.
		let listener = self.state.on_completed.listen();

		if let Poll::Ready(value) = self.state() {
			return value;
		}

		listener.await; // Asynchronously wait for the on-completed event.

		if let Poll::Ready(value) = self.state() {
			return value;
		}

		unreachable!()
'''
NEWV = '''		Self {
			state: Arc::new(State {
				completed: AtomicBool::new(true),
				on_completed: Event::new(),
				value: Arc::new(RwLock::new(Some(Ok(value)))),
			}),
		}
'''
START = '''		while !cancel_token.is_canceled() {
			match receiver.recv().await {
				Ok(work) => {
					let mut future_slot = work.future.lock().unwrap();

					if let Some(mut future) = future_slot.take() {
						let waker = waker_ref(&work);
						let context = &mut Context::from_waker(&*waker);

						if future.as_mut().poll(context).is_pending() {
							*future_slot = Some(future)
						}
					}
				}
				Err(_) => break, // `work_channel` has been closed.
			}
		}

		if cancel_token.is_canceled() {
			return Err(OperationCanceled);
		}

		Ok(())
'''
WAKE = '''		if arc_self.sender.is_closed() {
			return;
		}
		let cloned = arc_self.clone();

		// The queue can be closed after the check above: there is nobody left to run the work then.
		let _ = arc_self.sender.send_blocking(cloned);
'''
SPAWN = '''		let (sender, _) = WORK_CHANNEL.with(|c| c.borrow().clone());
		let future = Box::pin(future);
		let work = Arc::new(AsyncWork::new(future, sender.clone()));

		sender.send_blocking(work).unwrap();
'''
READ = '''	let mut size = None;
	let mut buf = String::new();
	loop {
		buf.clear();
		if inp.read_line(&mut buf)? == 0 {
			return Ok(None);
		}
		if !buf.ends_with("\\r\\n") {
			return Err(invalid_data!("malformed header: {:?}", buf));
		}
		let buf = &buf[..buf.len() - 2];
		if buf.is_empty() {
			break;
		}
		let mut parts = buf.splitn(2, ": ");
		let header_name = parts.next().unwrap();
		let header_value = parts.next().ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
		if header_name == "Content-Length" {
			size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
		}
	}
	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
	let mut buf = buf.into_bytes();
	buf.try_reserve_exact(size).map_err(invalid_data)?; // the declared length may exceed what can be allocated
	buf.resize(size, 0);
	inp.read_exact(&mut buf)?;
	let buf = String::from_utf8(buf).map_err(invalid_data)?;
	// log::debug!("< {}", buf);?
	Ok(Some(buf))
'''
WRITE = '''	write!(out, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
	out.write_all(msg.as_bytes())?;
	out.flush()?;
	Ok(())
'''
BREAD = '''		let text = match read_msg_text(r)? {
			None => return Ok(None),
			Some(text) => text,
		};
		let msg = serde_json::from_str(&text)?;
		Ok(Some(msg))
'''
PARSE = '''		let chars = string.chars();
		let mut byte_count = 0;
		for (_, c) in chars.enumerate() {
			byte_count += c.len_utf8();
			if c == '\\n' {
				result.push(byte_count - 1);
			}
		}

		// If there are bytes left add it to vector
		if *result.last().unwrap_or(&(usize::MAX - 1)) != byte_count - 1 {
			result.push(byte_count - 1);
		}
'''
L2B = '''		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };

		// get byte offset for character position in line
		let slice = self.line_content(start_byte, lsp_pos.line).chars();
		let mut byte_count = 0;
		for (i, c) in slice.enumerate() {
			if i == lsp_pos.character {
				break;
			}
			byte_count += c.len_utf8();
		}

		start_byte + byte_count
	}
'''
B2L = '''		let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x);

		// calculate character position in byte offset
		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
		let slice = self.line_content(byte_count, line).chars();
		let mut char = slice.clone().count();

		for (i, c) in slice.enumerate() {
			byte_count += c.len_utf8();
			if byte_count > byte_pos {
				char = i;
				break;
			}
		}

		Position { line, character: char }
'''
INV = '''		for pos in 0..range.start {
			if let Some(col) = self.memo_table.get_mut(pos) {
				if pos as isize + col.max_examined_length > range.start as isize {
					invalidate_entries_in_column(col, pos, range.start);
				}
			}
		}
'''
MEMO = '''		if let Some(cst) = self.use_memoized_result(rule_name) {
			Some(cst)
		} else {
			let orig_pos = self.pos;
			let orig_max = self.max_examined_pos;
			self.max_examined_pos = -1;

			let cst = self.eval_rule(rule_name);
			self.memoize_result(orig_pos, rule_name, cst.clone());

			self.max_examined_pos = self.max_examined_pos.max(orig_max);
			cst
		}
'''
SEQ = '''				let mut matches = vec![];
				for rule in parts {
					if let Some(cst) = self.memoized_eval_rule(rule) {
						if matches.capacity() == 0 {
							matches.reserve_exact(parts.len())
						}

						matches.push(cst);
					} else {
						return None;
					}
				}

				Some(Cst::Sequence(matches).into())
'''
TERM = '''				for tk in vec.iter() {
					if !self.consume(tk) {
						return None;
					}
				}

				Some(Cst::Terminal(vec.clone()).into())
'''
CHOICE = '''				let orig_pos = self.pos;
				for rule in options {
					self.pos = orig_pos;
					if let Some(cst) = self.memoized_eval_rule(rule) {
						return Some(Cst::Choice(rule, cst).into());
					}
				}
				None
'''
REP = '''				let mut matches = vec![];
				loop {
					let orig_pos = self.pos;
					match self.memoized_eval_rule(rule) {
						// an empty match would repeat forever
						Some(cst) if self.pos != orig_pos => matches.push(cst),
						_ => {
							self.pos = orig_pos;
							break Some(Cst::Repetition(matches).into());
						}
					}
				}
'''
NOT = '''				let orig_pos = self.pos;
				if self.memoized_eval_rule(rule).is_some() {
					None
				} else {
					self.pos = orig_pos;
					Some(Cst::Not(rule).into())
				}
'''
USE = '''		self.memo_table.get(self.pos).and_then(|col| {
			col.memo.get(rule_name).and_then(|entry| {
				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);

				entry.existing_match.clone().map(|m| {
					self.pos += m.match_length;
					m.cst
				})
			})
		})
'''
CONSUME = '''		self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);

		if self.input.get(self.pos) == Some(tk) {
			self.pos += 1;
			true
		} else {
			false
		}
'''
MATCH = '''		matcher
			.memoized_eval_rule("start")
			.filter(|_| matcher.pos == matcher.input.len())
			.map(|rc| (*rc).clone())
'''
GRAM = '''		for (k, rule) in rules.iter() {
			if let Some(n) = neighbours(rule).iter().find(|name| !rules.contains_key(*name)) {
				return Err(anyhow!("Rule '{k}' references undefined '{n}'"));
			}
		}
'''
MEMR = '''		while self.memo_table.len() <= pos {
			self.memo_table.push(Default::default());
		}

		let col = &mut self.memo_table[pos];
		// a rule that examines no token (e.g. an empty terminal) leaves the maximum at its initial value
		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });

		let entry = MemoTableEntry { existing_match, examined_length };

		col.memo.insert(rule_name, entry);
		col.max_examined_length = col.max_examined_length.max(examined_length as isize)
'''
INVC = '''			let mut new_max = 0;
			let mut to_remove = vec![];
			for (rule_name, entry) in &col.memo {
				if pos + entry.examined_length > start_pos {
					// this entry's "input range" overlaps the edit
					to_remove.push(*rule_name);
				} else if entry.examined_length > new_max {
					new_max = entry.examined_length;
				}
			}

			for k in to_remove {
				// remove all the affected memoized entries
				col.memo.remove(&k);
			}

			col.max_examined_length = new_max as isize;
'''
HEAD = '''		// The whole file got changes || file was empty, so reparse as new file
		if changes.range.is_none() || self.ranges.is_empty() {
			*self = LspFile::new(&changes.text);
			return;
		}

		// calculate position in current file
		let start_pos = self.lsp_to_lsp(&changes.range.unwrap().start); // inclusive
		let end_pos_exc = self.lsp_to_lsp(&changes.range.unwrap().end); // exclusive
'''
PANIC = '''		if start_pos > end_pos_exc {
			panic!(
				"range.start: {:?} is greater than range.end: {:?} in TextDocumentContentChangeEvent!",
				start_pos, end_pos_exc
			)
		}
'''
def k(n, ch, *ed): return (n, 'keep', ch, list(ed))
def b(n, ch, *ed): return (n, 'break', ch, list(ed))
CASES = [
 # ---- completion source
 k('f-early', F2, (FE, STATE, '''		if !self.state.completed.load(Ordering::Relaxed) {
			return Poll::Pending;
		}

		let reader = self.state.value.read().unwrap();

		Poll::Ready(reader.as_ref().unwrap().clone())
''')),
 k('f-maperr', F2, (FE, '''				Poll::Ready(match result {
					Ok(value) => Ok(value.clone()),
					Err(err) => Err(*err),
				})
''', '''				Poll::Ready(result.as_ref().map(|value| value.clone()).map_err(|err| *err))
''')),
 k('f-match3', F2, (FE, STATE, '''		if self.state.completed.load(Ordering::Relaxed) {
			match &*self.state.value.read().unwrap() {
				Some(Ok(value)) => Poll::Ready(Ok(value.clone())),
				Some(Err(err)) => Poll::Ready(Err(*err)),
				None => unreachable!(),
			}
		} else {
			Poll::Pending
		}
''')),
 k('f-swap', F2, (FE, SET, '''		let mut writer = self.state.value.write().unwrap();

		if self.state.completed.swap(true, Ordering::SeqCst) {
			return Err(FutureCompletionSourceError::Invalid);
		}

		*writer = Some(result);
		drop(writer);
		self.state.on_completed.notify(usize::MAX);

		Ok(())
''')),
 k('f-matchset', F2, (FE, SET, '''		let mut writer = self.state.value.write().unwrap();

		match self.state.completed.load(Ordering::Acquire) {
			true => Err(FutureCompletionSourceError::Invalid),
			false => {
				*writer = Some(result);
				self.state.completed.store(true, Ordering::Release);
				self.state.on_completed.notify(usize::MAX);

				Ok(())
			}
		}
''')),
 k('f-iscomp', F2, (FE, '''		let completed = self.state.completed.load(Ordering::Relaxed);

		if completed {
''', '''		if self.is_completed() {
'''), (FE, '''	#[inline(always)]
''', '''	fn is_completed(&self) -> bool { self.state.completed.load(Ordering::Relaxed) }

	#[inline(always)]
''')),
 k('f-outcome', F2, (FE, FUT, '''		if let Some(value) = self.outcome() {
			return value;
		}

		let listener = self.state.on_completed.listen();

		if let Some(value) = self.outcome() {
			return value;
		}

		listener.await;

		self.outcome().expect("completed")
'''), (FE, '''	#[inline(always)]
''', '''	fn outcome(&self) -> Option<Result<T, TError>> {
		match self.state() {
			Poll::Ready(value) => Some(value),
			Poll::Pending => None,
		}
	}

	#[inline(always)]
''')),
 k('f-while', F2, (FE, FUT, '''		loop {
			let listener = self.state.on_completed.listen();

			match self.state() {
				Poll::Ready(value) => return value,
				Poll::Pending => listener.await,
			}
		}
''')),
 k('f-newv', F2, (FE, NEWV, '''		let source = Self::new();
		let _ = source.set_inner_value(Ok(value));
		source
''')),
 b('f-cloneerr', F2, (FE, STATE, '''		if !self.state.completed.load(Ordering::Relaxed) {
			return Poll::Pending;
		}

		match self.state.value.try_read() {
			Ok(reader) => Poll::Ready(reader.as_ref().unwrap().clone()),
			Err(_) => Poll::Pending,
		}
''')),
 b('f-add', F2, (FE, 'self.state.on_completed.notify(usize::MAX); // Notify all awaiting.', 'self.state.on_completed.notify(self.state.on_completed.total_listeners_hint());') if False else (FE, 'self.state.on_completed.notify(usize::MAX); // Notify all awaiting.', 'self.state.on_completed.notify(u8::MAX as usize);')),
 b('f-initial', F2, (FE, 'value: Arc::new(RwLock::new(Some(Ok(value)))),', 'value: Arc::new(RwLock::new(None)),')),
 # ---- pool
 k('p-letelse', PO, (AE, START, '''		while !cancel_token.is_canceled() {
			let Ok(work) = receiver.recv().await else { break };
			let mut future_slot = work.future.lock().unwrap();
			let Some(mut future) = future_slot.take() else { continue };
			let waker = waker_ref(&work);
			let context = &mut Context::from_waker(&*waker);

			if let Poll::Pending = future.as_mut().poll(context) {
				*future_slot = Some(future);
			}
		}

		if cancel_token.is_canceled() {
			return Err(OperationCanceled);
		}

		Ok(())
'''), (AE, '	task::Context,\n', '	task::{Context, Poll},\n')),
 k('p-runwork', PO, (AE, START, '''		loop {
			if cancel_token.is_canceled() {
				return Err(OperationCanceled);
			}

			match receiver.recv().await {
				Ok(work) => Self::run_work(&work),
				Err(_) => break,
			}
		}

		if cancel_token.is_canceled() {
			Err(OperationCanceled)
		} else {
			Ok(())
		}
'''), (AE, '	pub fn stop() {', '''	fn run_work(work: &Arc<AsyncWork>) {
		let mut future_slot = work.future.lock().unwrap();

		if let Some(mut future) = future_slot.take() {
			let waker = waker_ref(work);
			let mut context = Context::from_waker(&waker);

			if future.as_mut().poll(&mut context).is_pending() {
				future_slot.replace(future);
			}
		}
	}

	pub fn stop() {''')),
 k('p-result', PO, (AE, '''		if cancel_token.is_canceled() {
			return Err(OperationCanceled);
		}

		Ok(())
''', '''		cancel_token.result()
''')),
 k('p-matchpoll', PO, (AE, '''						if future.as_mut().poll(context).is_pending() {
							*future_slot = Some(future)
						}
''', '''						match future.as_mut().poll(context) {
							std::task::Poll::Pending => *future_slot = Some(future),
							std::task::Poll::Ready(()) => (),
						}
''')),
 k('p-readystore', PO, (AE, '''						if future.as_mut().poll(context).is_pending() {
							*future_slot = Some(future)
						}
''', '''						*future_slot = if future.as_mut().poll(context).is_ready() { None } else { Some(future) };
''')),
 k('p-wakeif', PO, (AE, WAKE, '''		if !arc_self.sender.is_closed() {
			arc_self.sender.send_blocking(arc_self.clone()).ok();
		}
''')),
 k('p-wakeplain', PO, (AE, WAKE, '''		let _ = arc_self.sender.send_blocking(arc_self.clone());
''')),
 k('p-spawn', PO, (AE, SPAWN, '''		let sender = WORK_CHANNEL.with(|channel| channel.borrow().0.clone());
		let work = AsyncWork::new(future, sender.clone());

		sender.send_blocking(Arc::new(work)).unwrap();
''')),
 k('p-spawntry', PO, (AE, SPAWN, '''		WORK_CHANNEL.with(|channel| {
			let sender = &channel.borrow().0;
			let work = Arc::new(AsyncWork::new(future, sender.clone()));

			sender.try_send(work).expect("the pool has stopped");
		});
''')),
 k('p-stop', PO, (AE, '''		let (sender, _) = WORK_CHANNEL.with(|c| c.borrow().clone());

		sender.close();
''', '''		WORK_CHANNEL.with(|c| c.borrow().0.close());
''')),
 b('p-dropcancel', PO, (AE, '''				Ok(work) => {
					let mut future_slot''', '''				Ok(work) if cancel_token.is_canceled() => drop(work),
				Ok(work) if Arc::strong_count(&work) > 64 => drop(work),
				Ok(work) => {
					let mut future_slot''')),
 b('p-recvtwo', PO, (AE, '''				Err(_) => break, // `work_channel` has been closed.
''', '''				Err(_) => break, // `work_channel` has been closed.
			}
			if receiver.len() > 1024 {
				let _ = receiver.try_recv();
''')),
 b('p-polltwice', PO, (AE, 'if future.as_mut().poll(context).is_pending() {', 'if future.as_mut().poll(context).is_pending() || future.as_mut().poll(context).is_pending() {')),
 # ---- json rpc
 k('j-headers', JS, (JR, READ, '''	let size = match read_headers(inp)? {
		None => return Ok(None),
		Some(size) => size,
	};
	let mut content = Vec::new();
	content.try_reserve_exact(size).map_err(invalid_data)?;
	content.resize(size, 0);
	inp.read_exact(&mut content)?;
	String::from_utf8(content).map(Some).map_err(invalid_data)
'''), (JR, '''	macro_rules! invalid_data {
		($($tt:tt)*) => (invalid_data(format!($($tt)*)))
	}
''', '''	macro_rules! invalid_data {
		($($tt:tt)*) => (invalid_data(format!($($tt)*)))
	}
	fn read_headers(inp: &mut dyn BufRead) -> io::Result<Option<usize>> {
		let mut size = None;
		let mut line = String::new();
		loop {
			line.clear();
			if inp.read_line(&mut line)? == 0 {
				return Ok(None);
			}
			let header = line.strip_suffix("\\r\\n").ok_or_else(|| invalid_data!("malformed header: {:?}", line))?;
			if header.is_empty() {
				break;
			}
			let (name, value) = header.split_once(": ").ok_or_else(|| invalid_data!("malformed header: {:?}", header))?;
			if name == "Content-Length" {
				size = Some(value.parse::<usize>().map_err(invalid_data)?);
			}
		}
		size.map(Some).ok_or_else(|| invalid_data!("no Content-Length"))
	}
''')),
 k('j-matchname', JS, (JR, '''		if header_name == "Content-Length" {
			size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
		}
''', '''		match header_name {
			"Content-Length" => size = Some(header_value.parse::<usize>().map_err(invalid_data)?),
			_ => {}
		}
''')),
 k('j-trimend', JS, (JR, 'let buf = &buf[..buf.len() - 2];', 'let buf = buf.trim_end_matches("\\r\\n");')),
 k('j-sizelate', JS, (JR, '''			size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
''', '''			let length: usize = header_value.parse().map_err(invalid_data)?;
			size = Some(length);
'''), (JR, 'let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;', '''let size = match size {
		Some(size) => size,
		None => return Err(invalid_data!("no Content-Length")),
	};''')),
 k('j-transpose', JS, (JR, BREAD, '''		let msg = read_msg_text(r)?.map(|text| serde_json::from_str(&text)).transpose()?;
		Ok(msg)
''')),
 k('j-match', JS, (JR, BREAD, '''		match read_msg_text(r)? {
			Some(text) => Ok(Some(serde_json::from_str::<Message>(&text)?)),
			None => Ok(None),
		}
''')),
 k('j-header', JS, (JR, WRITE, '''	let header = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
	out.write_all(header.as_bytes())?;
	out.write_all(msg.as_bytes())?;
	out.flush()
''')),
 k('j-lenvar', JS, (JR, WRITE, '''	let content = msg.as_bytes();
	write!(out, "Content-Length: {}\\r\\n", content.len())?;
	write!(out, "\\r\\n")?;
	out.write_all(content)?;
	out.flush()
''')),
 k('j-joined', JS, (JR, WRITE, '''	let mut frame = Vec::with_capacity(msg.len() + 32);
	frame.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", msg.len()).as_bytes());
	frame.extend_from_slice(msg.as_bytes());
	out.write_all(&frame)?;
	out.flush()
''')),
 k('j-inline', JS, (JR, 'pub fn write(self, w: &mut impl Write) -> io::Result<()> { self.buffered_write(w) }', '''pub fn write(self, w: &mut impl Write) -> io::Result<()> {
		let text = self.to_text()?;
		write_msg_text(w, &text)
	}'''), (JR, 'fn buffered_write(self, w: &mut dyn Write) -> io::Result<()> {', 'fn to_text(self) -> io::Result<String> {'), (JR, '''		let text = serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?;
		write_msg_text(w, &text)
''', '''		Ok(serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?)
''')),
 k('j-resp', JS, (JR, 'Response { id, result: Some(serde_json::to_value(data).unwrap()), error: None }', '''let result = serde_json::to_value(data).unwrap();
		Self { id, result: Some(result), error: None }''')),
 k('j-resp2', JS, (JR, '''		Response { id, result: None, error: Some(ResponseError { code, message: String::from(message), data: None }) }
''', '''		let error = ResponseError { code, message: message.to_string(), data: None };
		Response { id, result: None, error: Some(error) }
''')),
 b('j-min', JS, (JR, '	buf.resize(size, 0);', '	buf.resize(size.min(1 << 20), 0);')),
 b('j-lower', JS, (JR, 'if header_name == "Content-Length" {', 'if header_name.ends_with("Length") {')),
 b('j-first', JS, (JR, '		let msg = serde_json::from_str(&text)?;', '		let msg = serde_json::from_str(text.trim_matches(char::from(0)))?;')),
 b('j-ok', JS, (JR, '	inp.read_exact(&mut buf)?;\n', '	if inp.read_exact(&mut buf).is_err() {\n		return Ok(None);\n	}\n')),
 b('j-double', JS, (JR, '	let mut size = None;\n', '	let mut size = Some(0);\n')),
 b('j-nofl', JS, (JR, '	out.flush()?;\n', '	if msg.len() > 64 {\n		out.flush()?;\n	}\n')),
 # ---- lsp file
 k('l-ci', LS, (LF, PARSE, '''		for (i, c) in string.char_indices() {
			if c == '\\n' {
				result.push(i);
			}
		}

		// If there are bytes left add it to vector
		if result.last() != Some(&(string.len() - 1)) {
			result.push(string.len() - 1);
		}
''')),
 k('l-bytes', LS, (LF, PARSE, '''		for (i, byte) in string.bytes().enumerate() {
			if byte == b'\\n' {
				result.push(i);
			}
		}

		if !string.ends_with('\\n') {
			result.push(string.len() - 1);
		}
''')),
 k('l-iter', LS, (LF, '''		let mut result: Vec<usize> = Vec::new();
		if string.is_empty() {
			return result;
		}
''', '''		if string.is_empty() {
			return vec![];
		}
'''), (LF, PARSE, '''		let mut result: Vec<usize> = string.match_indices('\\n').map(|(i, _)| i).collect();

		if !string.ends_with('\\n') {
			result.push(string.len() - 1);
		}
''')),
 k('l-while', LS, (LF, PARSE, '''		let mut byte_count = 0;
		let mut chars = string.chars();
		while let Some(c) = chars.next() {
			if c == '\\n' {
				result.push(byte_count);
			}
			byte_count += c.len_utf8();
		}

		// If there are bytes left add it to vector
		match result.last() {
			Some(last) if *last == byte_count - 1 => {}
			_ => result.push(byte_count - 1),
		}
''')),
 k('l-start', LS, (LF, 'let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };', 'let start_byte = self.line_start(lsp_pos.line);'), (LF, 'let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };', 'let mut byte_count = self.line_start(line);'), (LF, 'let start_pos = if line == 0 { 0 } else { self.ranges.get(line - 1).unwrap_or(&0) + 1 };', 'let start_pos = self.line_start(line);'), (LF, '	pub fn lsp_to_byte(', '''	fn line_start(&self, line: usize) -> usize {
		match line {
			0 => 0,
			_ => self.ranges[line - 1] + 1,
		}
	}

	pub fn lsp_to_byte(''')),
 k('l-start2', LS, (LF, 'let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };', 'let start_byte = self.line_start(lsp_pos.line);'), (LF, '	pub fn lsp_to_byte(', '''	fn line_start(&self, line: usize) -> usize { line.checked_sub(1).map_or(0, |previous| self.ranges[previous] + 1) }

	pub fn lsp_to_byte(''')),
 k('l-zip', LS, (LF, L2B, '''		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges[lsp_pos.line - 1] + 1 };
		let mut end_byte = start_byte;
		let mut remaining = lsp_pos.character;

		for c in self.line_content(start_byte, lsp_pos.line).chars() {
			if remaining == 0 {
				break;
			}
			remaining -= 1;
			end_byte += c.len_utf8();
		}

		end_byte
	}
''')),
 k('l-take', LS, (LF, L2B, '''		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges[lsp_pos.line - 1] + 1 };
		let content = self.line_content(start_byte, lsp_pos.line);

		start_byte + content.chars().take(lsp_pos.character).map(|c| c.len_utf8()).sum::<usize>()
	}
''')),
 k('l-fold', LS, (LF, L2B, '''		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges[lsp_pos.line - 1] + 1 };
		let content = self.line_content(start_byte, lsp_pos.line);

		content.chars().take(lsp_pos.character).fold(start_byte, |offset, c| offset + c.len_utf8())
	}
''')),
 k('l-match', LS, (LF, 'let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x);', '''let line = match self.ranges.binary_search(&byte_pos) {
			Ok(line) => line,
			Err(line) => line,
		};''')),
 k('l-partition', LS, (LF, 'let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x);', 'let line = self.ranges.partition_point(|end| *end < byte_pos);')),
 k('l-position', LS, (LF, B2L, '''		let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x);
		let start = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
		let mut end = start;
		let mut character = 0;

		for c in self.line_content(start, line).chars() {
			end += c.len_utf8();
			if end > byte_pos {
				break;
			}
			character += 1;
		}

		Position { line, character }
''')),
 k('l-takewhile', LS, (LF, B2L, '''		let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x);
		let start = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
		let content = self.line_content(start, line);
		let character = content.char_indices().take_while(|(i, c)| start + i + c.len_utf8() <= byte_pos).count();

		Position { line, character }
''')),
 k('l-letrange', LS, (LF, HEAD, '''		let range = match changes.range {
			Some(range) if !self.ranges.is_empty() => range,
			_ => {
				*self = LspFile::new(&changes.text);
				return;
			}
		};

		// calculate position in current file
		let start_pos = self.lsp_to_lsp(&range.start); // inclusive
		let end_pos_exc = self.lsp_to_lsp(&range.end); // exclusive
''')),
 k('l-split', LS, (LF, HEAD, '''		let Some(range) = changes.range else {
			return self.replace_all(&changes.text);
		};

		if self.ranges.is_empty() {
			return self.replace_all(&changes.text);
		}

		let (start_pos, end_pos_exc) = (self.lsp_to_lsp(&range.start), self.lsp_to_lsp(&range.end));
'''), (LF, '	// used to update ranges from', '''	fn replace_all(&mut self, text: &str) {
		self.file = text.to_string();
		self.ranges = LspFile::parse_string(&self.file);
	}

	// used to update ranges from''')),
 k('l-assert', LS, (LF, PANIC, '''		assert!(
			start_pos <= end_pos_exc,
			"range.start: {:?} is greater than range.end: {:?} in TextDocumentContentChangeEvent!",
			start_pos,
			end_pos_exc
		);
''')),
 k('l-foreach', LS, (LF, '''		for elm in &mut additional_ranges {
			*elm += start_byte;
		}
''', '''		additional_ranges.iter_mut().for_each(|elm| *elm += start_byte);
'''), (LF, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {
			*elm = (*elm as i64 + diff) as usize;
		}
''', '''		self.ranges.iter_mut().skip(start_line + len).for_each(|elm| *elm = (*elm as i64 + diff) as usize);
''')),
 k('l-slice', LS, (LF, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {
			*elm = (*elm as i64 + diff) as usize;
		}
''', '''		self.shift_lines(start_line + len, diff);
'''), (LF, '	// used to update ranges from', '''	fn shift_lines(&mut self, first: usize, diff: i64) {
		for line in first..self.ranges.len() {
			self.ranges[line] = (self.ranges[line] as i64 + diff) as usize;
		}
	}

	// used to update ranges from''')),
 k('l-endswith', LS, (LF, "changes.text.chars().last() == Some('\\n')", "changes.text.ends_with('\\n')"), (LF, "self.file.chars().last() != Some('\\n')", "!self.file.ends_with('\\n')")),
 k('l-inlrange', LS, (LF, '''		let range = start_byte..end_byte;
''', ''), (LF, 'self.file.replace_range(range, &changes.text);', 'self.file.replace_range(start_byte..end_byte, &changes.text);')),
 k('l-newinto', LS, (LF, '''		let ranges = LspFile::parse_string(&file);
		LspFile { file: file.clone(), ranges }
''', '''		LspFile { file: file.to_owned(), ranges: Self::parse_string(file) }
''')),
 k('l-linechar', LS, (LF, '''		if line >= self.ranges.len() {
			return 0; // no characters exist on that line
		}

		let start_pos = if line == 0 { 0 } else { self.ranges.get(line - 1).unwrap_or(&0) + 1 };

		let slice = self.file.slice(start_pos..self.ranges[line] + 1).unwrap_or("");
		slice.chars().count()
''', '''		let Some(last) = self.ranges.get(line) else {
			return 0;
		};

		let start_pos = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
		self.file[start_pos..=*last].chars().count()
''')),
 b('l-lasttab', LS, (LF, "if c == '\\n' {\n				result.push", "if c == '\\n' || c == '\\u{b}' {\n				result.push")),
 b('l-first', LS, (LF, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {''', '''		for elm in self.ranges.iter_mut().skip(start_line + len).take(1 << 12) {''')),
 b('l-tail-if', LS, (LF, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {''', '''		if changes.text.len() > 1 << 16 {
			return;
		}
		for elm in self.ranges.iter_mut().skip(start_line + len) {''')),
 k('l-tail-zero', LS, (LF, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {''', '''		if diff == 0 {
			return;
		}
		for elm in self.ranges.iter_mut().skip(start_line + len) {''')),
 b('l-tail-break', LS, (LF, '''			*elm = (*elm as i64 + diff) as usize;
''', '''			if *elm > u32::MAX as usize {
				break;
			}
			*elm = (*elm as i64 + diff) as usize;
''')),
 b('l-tail-cont', LS, (LF, '''			*elm = (*elm as i64 + diff) as usize;
''', '''			if *elm > u32::MAX as usize {
				continue;
			}
			*elm = (*elm as i64 + diff) as usize;
''')),
 b('l-tail-skip', LS, (LF, 'skip(start_line + len)', 'skip(start_line + len.min(1024))')),
 b('l-tail-skip1', LS, (LF, 'skip(start_line + len)', 'skip(start_line + len + 1)')),
 b('l-tail-diff', LS, (LF, 'let diff = (addition_byte + 1) - (end_byte as i64 - start_byte as i64);', 'let diff = (addition_byte + 1) - (end_byte as i64 - start_byte as i64).abs();') if False else (LF, 'let diff = (addition_byte + 1)', 'let diff = addition_byte')),
 b('l-tail-last', LS, (LF, 'self.lsp_to_byte(&Position { line: end_line + 1, character: 0 }) - end_byte;', 'self.lsp_to_byte(&Position { line: end_line + 1, character: 0 }) - start_byte;')),
 b('l-splice-end', LS, (LF, 'let e = (end_line + 1).min(range_size);', 'let e = end_line.min(range_size);')),
 b('l-new-shift', LS, (LF, '*elm += start_byte;', '*elm += end_byte;')),
 k('l-difflen', LS, (LF, 'let diff = (addition_byte + 1) - (end_byte as i64 - start_byte as i64);', 'let diff = changes.text.len() as i64 - (end_byte - start_byte) as i64;')),
 k('l-rebuild', LS, (LF, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {
			*elm = (*elm as i64 + diff) as usize;
		}
''', '''		let first = start_line + len;
		let last = self.ranges.len();
		let mut i = first;
		while i < last {
			self.ranges[i] = (self.ranges[i] as i64 + diff) as usize;
			i += 1;
		}
''')),
 k('l-slicemut', LS, (LF, 'for elm in self.ranges.iter_mut().skip(start_line + len) {', 'for elm in &mut self.ranges[start_line + len..] {')),
 k('l-fullparse', LS, (LF, '''		let len = additional_ranges.len();
		let s = (start_line).min(range_size);
		let e = (end_line + 1).min(range_size);
		self.ranges.splice(s..e, additional_ranges); // used for performance benefits

		// realignment of tail end of old ranges
		let diff = (addition_byte + 1) - (end_byte as i64 - start_byte as i64);
		for elm in self.ranges.iter_mut().skip(start_line + len) {
			*elm = (*elm as i64 + diff) as usize;
		}
''', '''		let _ = (additional_ranges, start_line, addition_byte);
		self.ranges = LspFile::parse_string(&self.file);
''')),
 b('l-u16', LS, (LF, 'let end = self.lsp_to_byte(&lsp_range.end);', 'let end = self.lsp_to_byte(&lsp_range.end).max(start);') if False else (LF, 'let end = self.lsp_to_byte(&lsp_range.end);', 'let end = self.lsp_to_byte(&lsp_range.start) + (lsp_range.end.character - lsp_range.start.character);')),
 # ---- parser
 k('r-inv', PA, (PR, '''		// invalidate overlapping entries
''' + INV, '''		// invalidate overlapping entries
		self.invalidate_before(range.start);
	}

	fn invalidate_before(&mut self, start: usize) {
		for (pos, col) in self.memo_table.iter_mut().enumerate().take(start) {
			if pos as isize + col.max_examined_length > start as isize {
				invalidate_entries_in_column(col, pos, start);
			}
		}
''')),
 k('r-inv2', PA, (PR, INV, '''		let affected = range.start.min(self.memo_table.len());
		for (pos, col) in self.memo_table[..affected].iter_mut().enumerate() {
			invalidate_entries_in_column(col, pos, range.start);
		}
''')),
 k('r-invretain', PA, (PR, INVC, '''			col.memo.retain(|_, entry| pos + entry.examined_length <= start_pos);
			col.max_examined_length = col.memo.values().map(|entry| entry.examined_length as isize).max().unwrap_or(0);
''')),
 k('r-invcollect', PA, (PR, INVC, '''			let to_remove: Vec<_> =
				col.memo.iter().filter(|(_, entry)| pos + entry.examined_length > start_pos).map(|(name, _)| *name).collect();

			for k in to_remove {
				col.memo.remove(k);
			}

			col.max_examined_length = col.memo.values().map(|entry| entry.examined_length).max().unwrap_or(0) as isize;
''')),
 k('r-methods', PA, (PR, TERM, '''				self.eval_terminal(vec)
'''), (PR, CHOICE, '''				self.eval_choice(options)
'''), (PR, SEQ, '''				self.eval_sequence(parts)
'''), (PR, '	// originally a Rule method\n', '''	fn eval_terminal(&mut self, tokens: &Rc<Vec<Token>>) -> Option<Rc<Cst<Token>>> {
		for token in tokens.iter() {
			if !self.consume(token) {
				return None;
			}
		}

		Some(Rc::new(Cst::Terminal(tokens.clone())))
	}

	fn eval_choice(&mut self, options: &[RuleName]) -> Option<Rc<Cst<Token>>> {
		let start = self.pos;

		for option in options.iter() {
			self.pos = start;

			if let Some(cst) = self.memoized_eval_rule(option) {
				return Some(Rc::new(Cst::Choice(option, cst)));
			}
		}

		None
	}

	fn eval_sequence(&mut self, parts: &[RuleName]) -> Option<Rc<Cst<Token>>> {
		let mut matches = Vec::with_capacity(parts.len());

		for part in parts {
			matches.push(self.memoized_eval_rule(part)?);
		}

		Some(Rc::new(Cst::Sequence(matches)))
	}

	// originally a Rule method
''')),
 k('r-seqq', PA, (PR, SEQ, '''				let mut matches = Vec::with_capacity(parts.len());
				for rule in parts {
					let cst = self.memoized_eval_rule(rule)?;
					matches.push(cst);
				}

				Some(Cst::Sequence(matches).into())
''')),
 k('r-seqmatch', PA, (PR, SEQ, '''				let mut matches = vec![];
				for rule in parts.iter() {
					match self.memoized_eval_rule(rule) {
						None => return None,
						Some(cst) => matches.push(cst),
					}
				}

				Some(Rc::new(Cst::Sequence(matches)))
''')),
 k('r-termidx', PA, (PR, TERM, '''				for i in 0..vec.len() {
					if !self.consume(&vec[i]) {
						return None;
					}
				}

				Some(Cst::Terminal(vec.clone()).into())
''')),
 k('r-termwhile', PA, (PR, TERM, '''				let mut tokens = vec.iter();
				while let Some(tk) = tokens.next() {
					if !self.consume(tk) {
						return None;
					}
				}

				Some(Rc::new(Cst::Terminal(Rc::clone(vec))))
''')),
 k('r-termany', PA, (PR, TERM, '''				if vec.iter().any(|tk| !self.consume(tk)) {
					return None;
				}

				Some(Cst::Terminal(vec.clone()).into())
''')),
 k('r-repif', PA, (PR, REP, '''				let mut matches = vec![];
				let mut end = self.pos;
				while let Some(cst) = self.memoized_eval_rule(rule) {
					if self.pos == end {
						break;
					}

					matches.push(cst);
					end = self.pos;
				}
				self.pos = end;

				Some(Cst::Repetition(matches).into())
''')),
 k('r-notmatch', PA, (PR, NOT, '''				let orig_pos = self.pos;
				match self.memoized_eval_rule(rule) {
					Some(_) => None,
					None => {
						self.pos = orig_pos;
						Some(Rc::new(Cst::Not(rule)))
					}
				}
''')),
 k('r-notpos', PA, (PR, NOT, '''				let orig_pos = self.pos;
				let matched = self.memoized_eval_rule(rule);
				self.pos = orig_pos;

				if matched.is_none() {
					Some(Cst::Not(rule).into())
				} else {
					None
				}
''')),
 k('r-useq', PA, (PR, USE, '''		let col = self.memo_table.get(self.pos)?;
		let entry = col.memo.get(rule_name)?;
		let last_examined = (self.pos + entry.examined_length) as isize - 1;
		self.max_examined_pos = self.max_examined_pos.max(last_examined);

		let existing = entry.existing_match.as_ref()?;
		self.pos += existing.match_length;
		Some(existing.cst.clone())
''')),
 k('r-useif', PA, (PR, USE, '''		let entry = self.memo_table.get(self.pos).and_then(|col| col.memo.get(rule_name))?;

		self.max_examined_pos = std::cmp::max(self.max_examined_pos, (self.pos + entry.examined_length) as isize - 1);

		match &entry.existing_match {
			Some(ExistingMatch { cst, match_length }) => {
				self.pos += match_length;
				Some(cst.clone())
			}
			None => None,
		}
''')),
 k('r-consume', PA, (PR, CONSUME, '''		self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);

		let matched = self.input.get(self.pos) == Some(tk);
		if matched {
			self.pos += 1;
		}

		matched
''')),
 k('r-consume2', PA, (PR, CONSUME, '''		if self.pos as isize > self.max_examined_pos {
			self.max_examined_pos = self.pos as isize;
		}

		match self.input.get(self.pos) {
			Some(token) if token == tk => {
				self.pos += 1;
				true
			}
			_ => false,
		}
''')),
 k('r-consume3', PA, (PR, CONSUME, '''		self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);

		if self.pos >= self.input.len() || self.input[self.pos] != *tk {
			return false;
		}

		self.pos += 1;
		true
''')),
 k('r-consume4', PA, (PR, CONSUME, '''		self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);

		let matched = self.input.get(self.pos).map_or(false, |token| token == tk);
		self.pos += usize::from(matched);
		matched
''')),
 k('r-consume5', PA, (PR, CONSUME, '''		if self.max_examined_pos < self.pos as isize {
			self.max_examined_pos = self.pos as isize;
		}

		let matched = self.input.get(self.pos) == Some(tk);
		self.pos += matched as usize;
		matched
''')),
 b('r-consume6', PA, (PR, CONSUME, '''		let matched = self.input.get(self.pos) == Some(tk);
		self.pos += matched as usize;
		if self.max_examined_pos < self.pos as isize {
			self.max_examined_pos = self.pos as isize;
		}
		matched
''')),
 k('r-inv3', PA, (PR, INV, '''		let affected = range.start.min(self.memo_table.len());
		for pos in 0..affected {
			let col = &mut self.memo_table[pos];
			if pos as isize + col.max_examined_length > range.start as isize {
				invalidate_entries_in_column(col, pos, range.start);
			}
		}
''')),
 k('r-match', PA, (PR, MATCH, '''		let cst = matcher.memoized_eval_rule("start")?;

		if matcher.pos != matcher.input.len() {
			return None;
		}

		Some((*cst).clone())
''')),
 k('r-match2', PA, (PR, MATCH, '''		match matcher.memoized_eval_rule("start") {
			Some(cst) if matcher.pos == matcher.input.len() => Some(cst.as_ref().clone()),
			_ => None,
		}
''')),
 k('r-gram', PA, (PR, GRAM, '''		for (k, rule) in &rules {
			for n in neighbours(rule) {
				if !rules.contains_key(n) {
					return Err(anyhow!("Rule '{k}' references undefined '{n}'"));
				}
			}
		}
''')),
 k('r-gram2', PA, (PR, GRAM, '''		let undefined = rules
			.iter()
			.find_map(|(k, rule)| neighbours(rule).into_iter().find(|n| !rules.contains_key(n)).map(|n| (*k, n)));

		if let Some((k, n)) = undefined {
			return Err(anyhow!("Rule '{k}' references undefined '{n}'"));
		}
''')),
 k('r-gram3', PA, (PR, 'if !rules.contains_key("start") {', 'if rules.get("start").is_none() {')),
 k('r-memoor', PA, (PR, MEMO, '''		self.use_memoized_result(rule_name).or_else(|| {
			let orig_pos = self.pos;
			let orig_max = self.max_examined_pos;
			self.max_examined_pos = -1;

			let cst = self.eval_rule(rule_name);
			self.memoize_result(orig_pos, rule_name, cst.clone());

			self.max_examined_pos = self.max_examined_pos.max(orig_max);
			cst
		})
''')),
 k('r-memorepl', PA, (PR, MEMO, '''		if let Some(cst) = self.use_memoized_result(rule_name) {
			return Some(cst);
		}

		let orig_pos = self.pos;
		let orig_max = std::mem::replace(&mut self.max_examined_pos, -1);
		let cst = self.eval_rule(rule_name);

		self.memoize_result(orig_pos, rule_name, cst.clone());
		if orig_max > self.max_examined_pos {
			self.max_examined_pos = orig_max;
		}

		cst
''')),
 k('r-memmatch', PA, (PR, MEMR, '''		if self.memo_table.len() <= pos {
			self.memo_table.resize_with(pos + 1, Default::default);
		}

		let examined_length = std::cmp::max(self.max_examined_pos - pos as isize + 1, 0) as usize;
		let existing_match = match cst {
			Some(cst) => Some(ExistingMatch { cst, match_length: self.pos - pos }),
			None => None,
		};

		let col = &mut self.memo_table[pos];
		col.max_examined_length = col.max_examined_length.max(examined_length as isize);
		col.memo.insert(rule_name, MemoTableEntry { existing_match, examined_length });
''')),
 b('r-cache', PA, (PR, USE, '''		let col = self.memo_table.get(self.pos)?;
		let entry = col.memo.get(rule_name)?;
		let existing = entry.existing_match.as_ref()?;
		let last_examined = (self.pos + existing.match_length) as isize - 1;
		self.max_examined_pos = self.max_examined_pos.max(last_examined);

		self.pos += existing.match_length;
		Some(existing.cst.clone())
''')),
 b('r-len', PA, (PR, INV, '''		let affected = range.start.min(self.memo_table.len());
		for (pos, col) in self.memo_table[..affected].iter_mut().enumerate().rev() {
			if col.memo.is_empty() {
				break;
			}
			invalidate_entries_in_column(col, pos, range.start);
		}
''')),
 b('r-ranges', PA, (PR, 'invalidate_entries_in_column(col, pos, range.start);', 'invalidate_entries_in_column(col, pos, range.end);')),
 b('r-startonly', PA, (PR, GRAM, GRAM.replace('for (k, rule) in rules.iter() {', 'for (k, rule) in rules.iter().filter(|(k, _)| !k.starts_with(\'_\')) {'))),
 b('r-rest', PA, (PR, 'match_length: self.pos - pos', 'match_length: (self.pos - pos).min(examined_length)')),
 b('r-short', PA, (PR, TERM, '''				if self.input.len() - self.pos.min(self.input.len()) < vec.len() {
					return None;
				}
''' + TERM)),
 b('r-peek', PA, (PR, CHOICE, CHOICE.replace('''				for rule in options {
''', '''				if self.input.get(orig_pos).is_none() {
					return None;
				}
				for rule in options {
'''))),
 ('workspace-folders-denied', 'break', ['C23'], [('crates/analyzer-host/src/lsp_impl/active_uninitialized.rs', 'supported: Some(true),', 'supported: Some(false),')]),
 ('sync-none', 'break', ['C23'], [('crates/analyzer-host/src/lsp_impl/active_uninitialized.rs', 'TextDocumentSyncKind::INCREMENTAL', 'TextDocumentSyncKind::NONE')]),
 ('tail-end-line', 'break', ['C10'], [('crates/analyzer-core/src/lsp_file.rs', '.skip(start_line + len)', '.skip(end_line + len)')]),
 ('tail-local', 'keep', ['C10'], [('crates/analyzer-core/src/lsp_file.rs', '		for elm in self.ranges.iter_mut().skip(start_line + len) {', '		let first = len + start_line;\n		for elm in self.ranges.iter_mut().skip(first) {')]),
 ('include-reopened', 'break', ['C19'], [('crates/analyzer-core/src/preprocessor.rs', '					self.state.insert(file, VertexState::Closed);', '					self.state.remove(&file);')]),
]
