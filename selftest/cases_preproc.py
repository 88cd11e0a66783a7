F = 'crates/analyzer-core/src/preprocessor.rs'
L = 'crates/analyzer-core/src/lib.rs'
C, I = ['C18'], ['C19']
B = ['C18', 'C19']
S = open('/repo/' + F).read()
ELIF = S[S.index("						if let Some((tk, mut branches, already_processed)) = self.conditional_stack.pop() {\n							branches.push((id, dir.clone(), span));"):S.index("					dir @ PreprocessorDirective::Else => {")]
INCL = S[S.index("						if self.state.get(&file_id).is_some() {"):S.index("					ref d @ PreprocessorDirective::If(ref cond) => {")]
SKIP = S[S.index("		while let Some((id, tk, span)) = input.pop_front() {\n			match match tk {"):S.index("		assert!(\n			!self.conditional_stack.is_empty(),")]
WS = S[S.index("				Token::Whitespace => match result.last() {"):S.index("				_ => result.push((id, tk, span)),\n			}\n\n			previous_file")]
CASES = [
    # the defects that were there
    ('pragma-todo', 'break', C, [(F, 'PreprocessorDirective::Pragma(_) => (),\n					PreprocessorDirective::Other(name, _) => {', 'PreprocessorDirective::Pragma(_) => todo!(),\n					PreprocessorDirective::Other(name, _) => {')]),
    ('reversed', 'break', I, [(F, '								.rev()\n', '')]),
    ('root-not-open', 'break', I, [(F, 'self.state.insert(*root, VertexState::Open);', 'let _ = root;')]),
    # conditionals
    ('elif-always', 'break', C, [(F, '_ if already_processed => false, // a previous #if or #elif already matched\n', '')]),
    ('elif-forgets', 'break', C, [(F, 'self.conditional_stack.push((tk, branches, already_processed || include_body));', 'self.conditional_stack.push((tk, branches, include_body));')]),
    ('elif-flag-old', 'break', C, [(F, 'self.conditional_stack.push((tk, branches, already_processed || include_body));', 'self.conditional_stack.push((tk, branches, already_processed));')]),
    ('else-flag', 'break', C, [(F, 'self.conditional_stack.push((tk, branches, true));\n							if already_processed', 'self.conditional_stack.push((tk, branches, false));\n							if already_processed')]),
    ('else-keeps', 'break', C, [(F, '							if already_processed {\n								self.skip_conditional_directive(input)\n							}', '							let _ = already_processed;')]),
    ('if-inverted', 'break', C, [(F, '						if !c {\n							self.skip', '						if c {\n							self.skip')]),
    ('if-flag-true', 'break', C, [(F, 'vec![], c));', 'vec![], true));')]),
    ('if-push-late', 'break', C, [(F, '						self.conditional_stack.push(((id, d.clone(), span), vec![], c));\n						if !c {\n							self.skip_conditional_directive(input)\n						}', '						if !c {\n							self.skip_conditional_directive(input)\n						}\n						self.conditional_stack.push(((id, d.clone(), span), vec![], c));')]),
    ('endif-silent', 'break', C, [(F, 'if self.conditional_stack.pop().is_none() {\n							self.error(id, span, "Dangling #endif".to_string())\n						}', 'let _ = self.conditional_stack.pop();')]),
    ('skip-nested-not-pushed', 'break', C, [(F, 'self.conditional_stack.push(((id, d, span), vec![], false));', 'let _ = (id, d, span);')]),
    ('skip-else-any', 'break', C, [(F, 'd @ PreprocessorDirective::Else if self.conditional_stack.len() == level => {', 'd @ PreprocessorDirective::Else if self.conditional_stack.len() >= level => {')]),
    ('skip-else-lost', 'break', C, [(F, '					// alternative branch again\n					input.push_front((id, Token::PreprocessorDirective(d), span));\n', '					let _ = d;\n')]),
    ('skip-else-back', 'break', C, [(F, '					// alternative branch again\n					input.push_front(', '					input.push_back(')]),
    ('skip-define', 'break', C, [(F, '				PreprocessorDirective::Define(_, _) => (),', '				PreprocessorDirective::Define(k, v) => { self.definitions.insert(k, v); }')]),
    ('skip-endif-le', 'break', C, [(F, 'if self.conditional_stack.len() < level {', 'if self.conditional_stack.len() <= level {')]),
    ('skip-drain', 'break', C, [(F, 'self.conditional_stack.drain((level - 1)..);', 'self.conditional_stack.drain(level..);')]),
    ('skip-end-silent', 'break', C, [(F, '		self.check_empty_cond_stack();\n		// drain', '		// drain')]),
    ('end-silent', 'break', C, [(F, '		self.check_empty_cond_stack();\n\n		result', '		result')]),
    ('undef-define', 'break', C, [(F, 'self.definitions.remove(&k);', 'self.definitions.insert(k, String::new());')]),
    ('define-first', 'break', C, [(F, 'self.definitions.insert(k, rhs);', 'self.definitions.entry(k).or_insert(rhs);')]),
    ('define-swap', 'break', C, [(F, 'self.definitions.insert(k, rhs);', 'self.definitions.insert(rhs, k);')]),
    ('ws-any-file', 'break', C, [(F, 'Some((existing_id, Token::Whitespace, existing_span)) if *existing_id == id => {', 'Some((_, Token::Whitespace, existing_span)) => {')]),
    ('ws-dropped', 'break', C, [(F, '					_ => result.push((id, Token::Whitespace, span)),\n', '					Some((_, Token::Comment, _)) => (),\n					_ => result.push((id, Token::Whitespace, span)),\n')]),
    ('ws-span', 'break', C, [(F, 'existing_span.start..span.end', 'span.start..span.end')]),
    ('cond-twice', 'break', C, [(F, '_ if self.interpret_condition(cond) => true,', '_ if !self.interpret_condition(cond) => true,')]),
    # includes
    ('no-guard', 'break', I, [(F, 'if self.state.get(&file_id).is_some() {', 'if false {')]),
    ('guard-closed', 'break', I, [(F, 'if self.state.get(&file_id).is_some() {', 'if self.state.get(&id).is_none() {')]),
    ('not-opened', 'break', I, [(F, '							self.state.insert(file_id, VertexState::Open);\n', '')]),
    ('tag-includer', 'break', I, [(F, '.map(|(tk, span)| (file_id, tk, span))\n								.for_each', '.map(|(tk, span)| (id, tk, span))\n								.for_each')]),
    ('back', 'break', I, [(F, '.for_each(|x| input.push_front(x));', '.for_each(|x| input.push_back(x));')]),
    ('skip-first', 'break', I, [(F, '								.rev()\n', '								.skip(1)\n								.rev()\n')]),
    ('not-found-silent', 'break', I, [(F, 'self.error(id, span, not_found_err);', 'let _ = not_found_err;')]),
    ('recursive-silent', 'break', I, [(F, 'self.error(id, span, recursive_err);', 'let _ = recursive_err;')]),
    ('lex-other', 'break', I, [(F, '(self.lex)(file_id) as', '(self.lex)(id) as')]),
    ('q-resolve-none', 'break', I, [(L, 'FileId::new(db, db.resolve_path(file_id, path))', 'FileId::new(db, path.to_string())')]),
    ('q-dep-inverted', 'break', I, [(L, 'is_resolved: lexemes.is_some() }', 'is_resolved: lexemes.is_none() }')]),
    ('q-dep-only-missing', 'break', I, [(L, '			IncludedDependencies::push(db, IncludedDependency { file_id, is_resolved: lexemes.is_some() });', '			if lexemes.is_none() { IncludedDependencies::push(db, IncludedDependency { file_id, is_resolved: false }); }')]),
    ('q-report-file', 'break', I, [(L, 'Diagnostic { file, location, severity: Severity::Error, message: msg }', 'Diagnostic { file: file_id, location: location.start..file.path(db).len(), severity: Severity::Error, message: msg }')]),
    ('q-lex-root', 'break', I, [(L, '			let lexemes = fs.fs(db).get(&file_id).map(|&buf| {', '			let root = &root;\n			let lexemes = fs.fs(db).get(root).map(|&buf| {'), (L, '	let mut pp = PreprocessorState::new(', '	let root = file_id;\n	let mut pp = PreprocessorState::new(')]),
    # the behaviour stays
    ('k-elif-or', 'keep', B, [(F, ELIF, '''						match self.conditional_stack.pop() {
							None => self.error(id, span, "An #elif cannot follow an #else".to_string()),
							Some((opener, mut arms, done)) => {
								arms.push((id, dir.clone(), span));
								let take = !done && self.interpret_condition(cond);
								self.conditional_stack.push((opener, arms, done | take));
								if take {
									continue;
								}
								self.skip_conditional_directive(input)
							}
						}
					}
''')]),
    ('k-include', 'keep', B, [(F, INCL, '''						if self.state.contains_key(&file_id) {
							self.error(id, span, recursive_err);
							continue;
						}
						match (self.lex)(file_id) {
							None => self.error(id, span, not_found_err),
							Some(tokens) => {
								self.state.insert(file_id, VertexState::Open);
								for (tk, span) in tokens.iter().rev() {
									input.push_front((file_id, tk.clone(), span.clone()));
								}
							}
						}
					}
''')]),
    ('k-skip-depth', 'keep', B, [(F, SKIP, '''		while let Some((id, tk, span)) = input.pop_front() {
			let directive = if let Token::PreprocessorDirective(directive) = tk { directive } else { continue };
			let inner = self.conditional_stack.len() != level;
			match directive {
				PreprocessorDirective::If(_) => self.conditional_stack.push(((id, directive, span), vec![], false)),
				PreprocessorDirective::ElseIf(_) | PreprocessorDirective::Else => {
					if !inner {
						input.push_front((id, Token::PreprocessorDirective(directive), span));
						return;
					}
				}
				PreprocessorDirective::EndIf => {
					self.conditional_stack.pop();
					if !inner {
						return;
					}
				}
				_ => {}
			}
		}

''')]),
    ('k-ws', 'keep', B, [(F, WS, '''				Token::Whitespace => {
					let start = match result.last() {
						Some((last_id, Token::Whitespace, last_span)) if *last_id == id => Some(last_span.start),
						_ => None,
					};
					let span = match start {
						Some(start) => {
							result.pop();
							start..span.end
						}
						None => span,
					};
					result.push((id, Token::Whitespace, span))
				}
''')]),
    ('k-helper', 'keep', B, [(F, '''						let c = self.interpret_condition(cond);
						self.conditional_stack.push(((id, d.clone(), span), vec![], c));
						if !c {
							self.skip_conditional_directive(input)
						}
''', '''						let c = self.open_conditional(id, d, cond, span);
						if c {
							previous_file = Some(id);
							continue;
						}
						self.skip_conditional_directive(input)
'''), (F, '	/// Skip the body of an `#if`', '''	fn open_conditional(&mut self, id: FileId, d: &PreprocessorDirective, cond: &PreprocessorExpression, span: Span) -> bool {
		let taken = self.interpret_condition(cond);
		self.conditional_stack.push(((id, d.clone(), span), vec![], taken));
		taken
	}

	/// Skip the body of an `#if`''')]),
    ('k-query', 'keep', B, [(L, '''			let lexemes = fs.fs(db).get(&file_id).map(|&buf| {
				let lexed = lex(db, file_id, buf);
				lexed.lexemes(db)
			});

			IncludedDependencies::push(db, IncludedDependency { file_id, is_resolved: lexemes.is_some() });

			lexemes
''', '''			match fs.fs(db).get(&file_id) {
				Some(buf) => {
					IncludedDependencies::push(db, IncludedDependency { file_id, is_resolved: true });
					Some(lex(db, file_id, *buf).lexemes(db))
				}
				None => {
					IncludedDependencies::push(db, IncludedDependency { file_id, is_resolved: false });
					None
				}
			}
'''), (L, '	let mut input = lexemes.iter().cloned().map(|(tk, span)| (file_id, tk, span)).collect();', '''	let mut input = std::collections::VecDeque::new();
	for (tk, span) in lexemes {
		input.push_back((file_id, tk.clone(), span.clone()));
	}''')]),
]
