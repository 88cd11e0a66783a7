F = 'crates/analyzer-abstractions/src/futures_extensions.rs'
B = ['C01', 'C02']
SET = '''		let mut writer = self.state.value.write().unwrap();

		// Only one completer can hold the lock, so no other one can complete between this check and the store below.
		let completed = self.state.completed.load(Ordering::Relaxed);

		if completed {
			return Err(FutureCompletionSourceError::Invalid);
		}

		// Store the result, set the `completed` state to true and then notify all those that are currently
		// awaiting to resolve their 'Future'.
		writer.replace(result);
		self.state.completed.store(true, Ordering::Relaxed);
		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.

		Ok(())'''
STATE = '''		match self.state.completed.load(Ordering::Relaxed) {
			true => {
				let reader = self.state.value.read().unwrap();
				let result = reader.as_ref().unwrap();

				Poll::Ready(match result {
					Ok(value) => Ok(value.clone()),
					Err(err) => Err(*err),
				})
			}
			false => Poll::Pending,
		}'''
CASES = [
    ('unlocked-check', 'break', B, [(F, SET, SET.replace('''		let mut writer = self.state.value.write().unwrap();

''', '').replace('		writer.replace', '		let mut writer = self.state.value.write().unwrap();\n		writer.replace'))]),
    ('notify-one', 'break', B, [(F, 'notify(usize::MAX)', 'notify(1)')]),
    ('notify-early', 'break', B, [(F, '		self.state.completed.store(true, Ordering::Relaxed);\n		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.\n', '		self.state.on_completed.notify(usize::MAX);\n		self.state.completed.store(true, Ordering::Relaxed);\n')]),
    ('notify-only-ok', 'break', B, [(F, '		writer.replace(result);', '		let good = result.is_ok();\n		writer.replace(result);'), (F, '		self.state.on_completed.notify(usize::MAX);', '		if good {\n			self.state.on_completed.notify(usize::MAX);\n		}\n')]),
    ('notify-relaxed', 'break', B, [(F, 'on_completed.notify(', 'on_completed.notify_relaxed(')]),
    ('late-listen', 'break', B, [(F, '''		if let Poll::Ready(value) = self.state() {
			return value;
		}

		listener.await''', '''		listener.await''')]),
    ('flag-before', 'break', B, [(F, 'let mut writer = self.state.value.write().unwrap();\n', 'if self.state.completed.swap(true, Ordering::Relaxed) {\n			return Err(FutureCompletionSourceError::Invalid);\n		}\n		let mut writer = self.state.value.write().unwrap();\n'), (F, '''		let completed = self.state.completed.load(Ordering::Relaxed);

		if completed {
			return Err(FutureCompletionSourceError::Invalid);
		}
''', '')]),
    ('new-with-flag', 'break', B, [(F, 'completed: AtomicBool::new(true)', 'completed: AtomicBool::new(false)')]),
    ('swap-err', 'break', B, [(F, 'self.set_inner_value(Err(err))', '{ let _ = err; Ok(()) }')]),
    ('clone-state', 'break', B, [(F, '''				Poll::Ready(match result {
					Ok(value) => Ok(value.clone()),
					Err(err) => Err(*err),
				})''', '''				match result {
					Ok(value) => Poll::Ready(Ok(value.clone())),
					Err(_) => Poll::Pending,
				}''')]),
    ('take-value', 'break', B, [(F, '''let reader = self.state.value.read().unwrap();
				let result = reader.as_ref().unwrap();
''', '''let mut reader = self.state.value.write().unwrap();
				let result = reader.take().unwrap();
'''), (F, '''					Ok(value) => Ok(value.clone()),
					Err(err) => Err(*err),''', '''					Ok(value) => Ok(value),
					Err(err) => Err(err),''')]),
    ('k-noop', 'keep', B, [(F, '		Ok(())\n	}\n}', '		let _ = 0;\n		Ok(())\n	}\n}')]),
    ('k-slot-check', 'keep', B, [(F, '''		let completed = self.state.completed.load(Ordering::Relaxed);

		if completed {''', '''		if writer.is_some() {''')]),
    ('k-helper', 'keep', B, [(F, '''		writer.replace(result);
		self.state.completed.store(true, Ordering::Relaxed);
		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
''', '''		*writer = Some(result);
		self.publish();
'''), (F, '''	#[inline(always)]
	fn set_inner''', '''	fn publish(&self) {
		self.state.completed.store(true, Ordering::SeqCst);
		self.state.on_completed.notify(usize::MAX);
	}

	fn set_inner''')]),
    ('k-unlock-first', 'keep', B, [(F, '		self.state.on_completed.notify', '		drop(writer);\n		self.state.on_completed.notify')]),
    ('k-block', 'keep', B, [(F, SET, '''		{
			let mut slot = self.state.value.write().unwrap();
			if self.state.completed.load(Ordering::Acquire) {
				return Err(FutureCompletionSourceError::Invalid);
			}
			*slot = Some(result);
			self.state.completed.store(true, Ordering::Release);
		}
		self.state.on_completed.notify(usize::MAX);
		Ok(())''')]),
    ('k-loop', 'keep', B, [(F, '''		if let Poll::Ready(value) = self.state() {
			return value;
		}

		// Otherwise,''', '''		// Otherwise,'''), (F, '''		let listener = self.state.on_completed.listen();

		if let Poll::Ready(value) = self.state() {
			return value;
		}

		listener.await; // Asynchronously wait for the on-completed event.

		if let Poll::Ready(value) = self.state() {
			return value;
		}

		unreachable!()''', '''		loop {
			let listener = self.state.on_completed.listen();
			if let Poll::Ready(value) = self.state() {
				return value;
			}
			listener.await;
		}''')]),
    ('k-loop2', 'keep', B, [(F, '''		let listener = self.state.on_completed.listen();

		if let Poll::Ready(value) = self.state() {
			return value;
		}

		listener.await; // Asynchronously wait for the on-completed event.

		if let Poll::Ready(value) = self.state() {
			return value;
		}

		unreachable!()''', '''		let mut listener = None;
		loop {
			if let Poll::Ready(value) = self.state() {
				return value;
			}
			match listener.take() {
				None => listener = Some(self.state.on_completed.listen()),
				Some(l) => { let l: event_listener::EventListener = l; l.await },
			}
		}''')]),
    ('k-state-if', 'keep', B, [(F, STATE, '''		if !self.state.completed.load(Ordering::Acquire) {
			return Poll::Pending;
		}
		let reader = self.state.value.read().unwrap();
		let outcome = reader.clone_outcome();
		Poll::Ready(outcome)''' .replace('reader.clone_outcome()', '''match &*reader {
			Some(Ok(value)) => Ok(value.clone()),
			Some(Err(err)) => Err(*err),
			None => unreachable!(),
		}'''))]),
    ('k-state-slot', 'keep', B, [(F, STATE, '''		let reader = self.state.value.read().unwrap();
		match reader.as_ref() {
			Some(Ok(value)) => Poll::Ready(Ok(value.clone())),
			Some(Err(err)) => Poll::Ready(Err(*err)),
			None => Poll::Pending,
		}''')]),
    ('k-state-then', 'keep', B, [(F, STATE, '''		if self.state.completed.load(Ordering::Relaxed) {
			Poll::Ready(self.outcome())
		} else {
			Poll::Pending
		}'''), (F, '''	#[inline(always)]
	fn set_inner''', '''	fn outcome(&self) -> Result<T, TError> {
		let guard = self.state.value.read().unwrap();
		match guard.as_ref().expect("completed without a value") {
			Ok(v) => Ok(v.clone()),
			Err(e) => Err(*e),
		}
	}

	fn set_inner''')]),
    ('k-clone', 'keep', B, [(F, '''#[derive(Clone)]
pub struct FutureCompletionSource''', '''pub struct FutureCompletionSource'''), (F, 'type FutureCompletionSourceResult', '''impl<T, TError> Clone for FutureCompletionSource<T, TError> {
	fn clone(&self) -> Self {
		Self { state: Arc::clone(&self.state) }
	}
}

type FutureCompletionSourceResult''')]),
    ('k-ctor', 'keep', B, [(F, '''		Self {
			state: Arc::new(State {
				completed: AtomicBool::new(false),
				on_completed: Event::new(),
				value: Arc::new(RwLock::new(None)),
			}),
		}''', '''		Self::with_state(None)'''), (F, '''		Self {
			state: Arc::new(State {
				completed: AtomicBool::new(true),
				on_completed: Event::new(),
				value: Arc::new(RwLock::new(Some(Ok(value)))),
			}),
		}
	}''', '''		Self::with_state(Some(Ok(value)))
	}

	fn with_state(initial: Option<Result<T, TError>>) -> Self {
		Self {
			state: Arc::new(State {
				completed: AtomicBool::new(initial.is_some()),
				on_completed: Event::new(),
				value: Arc::new(RwLock::new(initial)),
			}),
		}
	}''')]),
]
