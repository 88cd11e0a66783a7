F = 'crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs'
B = ['C03', 'C04']
LOOP = open('/repo/' + F).read()
BODY = LOOP[LOOP.index('					let mut future_slot'):LOOP.index('				}\n				Err(_) => break')]
WHILE = LOOP[LOOP.index('		while !cancel_token'):LOOP.index('		if cancel_token.is_canceled() {\n			return Err')]
END = LOOP[LOOP.index('		if cancel_token.is_canceled() {\n			return Err'):LOOP.index('	pub fn stop()')]
SPAWN = LOOP[LOOP.index('		let (sender, _) = WORK_CHANNEL.with(|c| c.borrow().clone());\n		let future'):]
CASES = [
    ('ready-kept', 'break', B, [(F, 'if future.as_mut().poll(context).is_pending() {\n							*future_slot = Some(future)\n						}', 'let _ = future.as_mut().poll(context);\n*future_slot = Some(future);')]),
    ('pending-lost', 'break', B, [(F, '.is_pending()', '.is_ready()')]),
    ('never-restored', 'break', B, [(F, '*future_slot = Some(future)', '*future_slot = None')]),
    ('try-lock', 'break', B, [(F, 'let mut future_slot = work.future.lock().unwrap();', 'let Ok(mut future_slot) = work.future.try_lock() else { continue };')]),
    ('lock-dropped-early', 'break', B, [(F, BODY, '''let taken = work.future.lock().unwrap().take();
if let Some(mut future) = taken {
	let waker = waker_ref(&work);
	let context = &mut Context::from_waker(&*waker);
	if future.as_mut().poll(context).is_pending() {
		*work.future.lock().unwrap() = Some(future)
	}
}
''')]),
    ('noop-waker', 'break', B, [(F, 'let waker = waker_ref(&work);', 'let waker = futures::task::noop_waker();'), (F, '&*waker', '&waker')]),
    ('wake-skipped', 'break', B, [(F, 'if arc_self.sender.is_closed() {', 'if arc_self.sender.is_closed() || arc_self.sender.len() > 64 {')]),
    ('wake-if-empty', 'break', B, [(F, 'if arc_self.sender.is_closed() {', 'if !arc_self.sender.is_empty() {')]),
    ('wake-trylock', 'break', B, [(F, 'if arc_self.sender.is_closed() {', 'if arc_self.future.try_lock().is_err() || arc_self.sender.is_closed() {')]),
    ('wake-unwrap', 'break', B, [(F, 'let _ = arc_self.sender.send_blocking(cloned);', 'arc_self.sender.send_blocking(cloned).unwrap();')]),
    ('bounded', 'break', B, [(F, 'async_channel::unbounded::<Arc<AsyncWork>>()', 'async_channel::bounded::<Arc<AsyncWork>>(1024)')]),
    ('spawn-twice', 'break', B, [(F, '		sender.send_blocking(work).unwrap();', '		let _ = sender.send_blocking(work.clone());\n		sender.send_blocking(work).unwrap();')]),
    ('spawn-none', 'break', B, [(F, 'Mutex::new(Some(Box::pin(future)))', 'Mutex::new(None)')]),
    ('own-channel', 'break', B, [(F, 'AsyncWork::new(future, sender.clone())', 'AsyncWork::new(future, async_channel::unbounded().0)')]),
    ('skip-first-cancel', 'break', B, [(F, WHILE, WHILE.replace('while !cancel_token.is_canceled() {', 'loop {').replace('Err(_) => break, // `work_channel` has been closed.\n			}', 'Err(_) => break,\n			}\nif cancel_token.is_canceled() { break; }'))]),
    ('cancel-ok', 'break', B, [(F, '			return Err(OperationCanceled);', '			return Ok(());')]),
    ('no-final-check', 'break', B, [(F, END, '		Ok(())\n	}\n')]),
    ('err-continue', 'break', B, [(F, 'Err(_) => break, // `work_channel` has been closed.', 'Err(_) => {}')]),
    ('stop-noop', 'break', B, [(F, '		sender.close();', '		drop(sender);')]),
    ('drain-inner', 'break', B, [(F, WHILE, '''		while !cancel_token.is_canceled() {
			let Ok(first) = receiver.recv().await else { break };
			let mut next = Some(first);
			while let Some(work) = next {
				let mut future_slot = work.future.lock().unwrap();
				if let Some(mut future) = future_slot.take() {
					let waker = waker_ref(&work);
					let context = &mut Context::from_waker(&*waker);
					if future.as_mut().poll(context).is_pending() {
						*future_slot = Some(future)
					}
				}
				drop(future_slot);
				next = receiver.try_recv().ok();
			}
		}

''')]),
    ('drop-when-cancel', 'break', B, [(F, 'Ok(work) => {\n', 'Ok(work) => {\nif receiver.len() > 1000 { continue; }\n')]),
    ('is-none-keep', 'keep', B, [(F, WHILE, '''		loop {
			if cancel_token.is_canceled() { break; }
			let work = match receiver.recv().await { Ok(w) => w, Err(_) => break };
			Self::run_one(&work);
		}

'''), (F, '	pub fn stop() {', '''	fn run_one(work: &Arc<AsyncWork>) {
		let mut slot = work.future.lock().unwrap();
		let Some(mut future) = slot.take() else { return };
		let waker = waker_ref(work);
		let mut cx = Context::from_waker(&waker);
		match future.as_mut().poll(&mut cx) {
			std::task::Poll::Pending => { slot.replace(future); }
			std::task::Poll::Ready(()) => {}
		}
	}

	pub fn stop() {''')]),
    ('poll-in-place', 'keep', B, [(F, BODY, '''let mut slot = work.future.lock().unwrap();
if let Some(future) = slot.as_mut() {
	let waker = waker_ref(&work);
	let context = &mut Context::from_waker(&*waker);
	if future.as_mut().poll(context).is_ready() {
		*slot = None;
	}
}
''')]),
    ('channel-helper', 'keep', B, [(F, SPAWN, '''		let sender = Self::channel().0;
		let work = Arc::new(AsyncWork::new(Box::pin(future), sender.clone()));
		if let Err(e) = sender.send_blocking(work) { panic!("{:?}", e.to_string()); }
	}

	fn channel() -> WorkChannel { WORK_CHANNEL.with(|c| c.borrow().clone()) }
}
''')]),
    ('wake-try-send', 'keep', B, [(F, '''		if arc_self.sender.is_closed() {
			return;
		}
		let cloned = arc_self.clone();
''', '		let cloned = Arc::clone(arc_self);\n'), (F, 'let _ = arc_self.sender.send_blocking(cloned);', 'if arc_self.sender.try_send(cloned).is_err() { return; }')]),
    ('end-match', 'keep', B, [(F, END, '		match cancel_token.is_canceled() { true => Err(OperationCanceled), false => Ok(()) }\n	}\n')]),
    ('wake-vtable', 'keep', B, [(F, 'let waker = waker_ref(&work);\n						let context = &mut Context::from_waker(&*waker);', 'let waker = futures::task::waker(work.clone());\n						let context = &mut Context::from_waker(&waker);')]),
]
