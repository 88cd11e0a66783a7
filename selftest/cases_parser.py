F = 'crates/analyzer-core/src/parser.rs'
G, S, M = ['C11'], ['C12'], ['C13']
A = ['C11', 'C12', 'C13']
T = open('/repo/' + F).read()
SEQ = T[T.index('				let mut matches = vec![];\n				for rule in parts'):T.index('				Some(Cst::Sequence(matches).into())')]
REP = T[T.index('				let mut matches = vec![];\n				loop {'):T.index('			Rule::Not(rule) => {\n				let orig')]
CHO = T[T.index('				let orig_pos = self.pos;\n				for rule in options'):T.index('			Rule::Sequence(parts) => {\n				let mut')]
INV = T[T.index('			let mut new_max = 0;'):T.index('			col.max_examined_length = new_max as isize;')]
USE = T[T.index('		self.memo_table.get(self.pos).and_then'):T.index('	fn consume')]
LOOP = T[T.index('		for pos in 0..range.start {'):T.index('		fn invalidate_entries')]
VAL = T[T.index('		for (k, rule) in rules.iter() {'):T.index('		Ok(move |buffer|')]
CASES = [
    # C11
    ('g-start', 'break', G, [(F, 'if !rules.contains_key("start") {', 'if rules.is_empty() {')]),
    ('g-first', 'break', G, [(F, '.iter().find(|name| !rules', '.first().filter(|name| !rules')]),
    ('g-neg', 'break', G, [(F, 'find(|name| !rules.contains_key', 'find(|name| rules.contains_key')]),
    ('g-skiprep', 'break', G, [(F, 'Rule::Repetition(rule) => vec![*rule],', 'Rule::Repetition(_) => vec![],')]),
    ('g-skipnot', 'break', G, [(F, 'Rule::Not(rule) => vec![*rule],', 'Rule::Not(_) => vec![],')]),
    ('g-choice1', 'break', G, [(F, 'Rule::Choice(options) => options.clone(),', 'Rule::Choice(options) => options[..1].to_vec(),')]),
    ('g-take', 'break', G, [(F, 'for (k, rule) in rules.iter() {', 'for (k, rule) in rules.iter().skip(1) {')]),
    ('g-any-ok', 'keep', A, [(F, VAL, '''		for (k, rule) in &rules {
			for n in neighbours(rule) {
				if rules.get(n).is_none() {
					return Err(anyhow!("Rule '{k}' references undefined '{n}'"));
				}
			}
		}

''')]),
    ('g-fn-ok', 'keep', A, [(F, VAL, '''		for (k, rule) in rules.iter() {
			if !neighbours(rule).iter().all(|n| rules.contains_key(n)) {
				return Err(anyhow!("Rule '{k}' references an undefined rule"));
			}
		}

''')]),
    ('g-flat-ok', 'keep', A, [(F, VAL, '''		if let Some(n) = rules.values().flat_map(|rule| neighbours(rule)).find(|n| !rules.contains_key(n)) {
			return Err(anyhow!("undefined rule '{n}'"));
		}

''')]),
    # C12
    ('s-term-skip', 'break', S, [(F, 'for tk in vec.iter() {', 'for tk in vec.iter().skip(1) {')]),
    ('s-choice-nopos', 'break', S, [(F, '					self.pos = orig_pos;\n					if let Some(cst) = self.memoized_eval_rule(rule) {\n						return Some(Cst::Choice', '					if let Some(cst) = self.memoized_eval_rule(rule) {\n						return Some(Cst::Choice')]),
    ('s-choice-rev', 'break', S, [(F, 'for rule in options {', 'for rule in options.iter().rev() {')]),
    ('s-seq-partial', 'break', S, [(F, '					} else {\n						return None;\n					}\n				}\n\n				Some(Cst::Sequence', '					} else {\n						break;\n					}\n				}\n\n				Some(Cst::Sequence')]),
    ('s-rep-nopos', 'break', S, [(F, '							self.pos = orig_pos;\n							break Some', '							break Some')]),
    ('s-rep-orig', 'break', S, [(F, '				loop {\n					let orig_pos = self.pos;', '				let orig_pos = self.pos;\n				loop {')]),
    ('s-not-inv', 'break', S, [(F, 'if self.memoized_eval_rule(rule).is_some() {', 'if self.memoized_eval_rule(rule).is_none() {')]),
    ('s-not-pos', 'break', S, [(F, '				} else {\n					self.pos = orig_pos;\n					Some(Cst::Not', '				} else {\n					Some(Cst::Not')]),
    ('s-match-prefix', 'break', S, [(F, '.filter(|_| matcher.pos == matcher.input.len())', '.filter(|_| matcher.pos <= matcher.input.len())')]),
    ('s-match-none', 'break', S, [(F, '			.filter(|_| matcher.pos == matcher.input.len())\n', '')]),
    ('s-consume-adv', 'break', S, [(F, '			self.pos += 1;\n			true\n		} else {\n			false', '			self.pos += 1;\n			true\n		} else {\n			self.pos += 1;\n			false')]),
    ('s-consume-ne', 'break', S, [(F, 'if self.input.get(self.pos) == Some(tk) {', 'if self.input.get(self.pos).map_or(true, |t| t == tk) {')]),
    ('s-seq-map-ok', 'keep', A, [(F, SEQ + '				Some(Cst::Sequence(matches).into())', '''				let mut matches = Vec::with_capacity(parts.len());
				for rule in parts {
					matches.push(self.memoized_eval_rule(rule)?);
				}

				Some(Cst::Sequence(matches).into())''')]),
    ('s-seq-collect-ok', 'keep', A, [(F, SEQ + '				Some(Cst::Sequence(matches).into())', '''				let matches: Option<Vec<_>> = parts.iter().map(|rule| self.memoized_eval_rule(rule)).collect();
				matches.map(|m| Cst::Sequence(m).into())''')]),
    ('s-choice-find-ok', 'keep', A, [(F, CHO, '''				let orig_pos = self.pos;
				options.iter().find_map(|rule| {
					self.pos = orig_pos;
					self.memoized_eval_rule(rule).map(|cst| Cst::Choice(rule, cst).into())
				})
			}
''')]),
    ('s-choice-after-ok', 'keep', A, [(F, CHO, '''				let orig_pos = self.pos;
				for rule in options {
					match self.memoized_eval_rule(rule) {
						Some(cst) => return Some(Rc::new(Cst::Choice(rule, cst))),
						None => self.pos = orig_pos,
					}
				}
				None
			}
''')]),
    ('s-rep-while-ok', 'keep', A, [(F, REP, '''				let mut matches = vec![];
				let mut end = self.pos;
				while let Some(cst) = self.memoized_eval_rule(rule) {
					if self.pos == end {
						break;
					}
					matches.push(cst);
					end = self.pos;
				}
				self.pos = end;
				Some(Cst::Repetition(matches).into())
			}
''')]),
    ('s-term-all-ok', 'keep', A, [(F, '''				for tk in vec.iter() {
					if !self.consume(tk) {
						return None;
					}
				}

				Some(Cst::Terminal(vec.clone()).into())''', '''				if vec.iter().all(|tk| self.consume(tk)) {
					Some(Cst::Terminal(vec.clone()).into())
				} else {
					None
				}''')]),
    ('s-helper-ok', 'keep', A, [(F, '''			Rule::Not(rule) => {
				let orig_pos = self.pos;
				if self.memoized_eval_rule(rule).is_some() {
					None
				} else {
					self.pos = orig_pos;
					Some(Cst::Not(rule).into())
				}
			}
		}
	}
''', '''			Rule::Not(rule) => self.eval_not(rule),
		}
	}

	fn eval_not(&mut self, rule: RuleName) -> Option<Rc<Cst<Token>>> {
		let start = self.pos;
		match self.memoized_eval_rule(rule) {
			Some(_) => None,
			None => {
				self.pos = start;
				Some(Rc::new(Cst::Not(rule)))
			}
		}
	}
''')]),
    ('s-match-if-ok', 'keep', A, [(F, '''		matcher
			.memoized_eval_rule("start")
			.filter(|_| matcher.pos == matcher.input.len())
			.map(|rc| (*rc).clone())
''', '''		let rc = matcher.memoized_eval_rule("start")?;
		if matcher.pos < matcher.input.len() {
			return None;
		}
		Some(rc.as_ref().clone())
''')]),
    ('s-consume-match-ok', 'keep', A, [(F, '''		if self.input.get(self.pos) == Some(tk) {
			self.pos += 1;
			true
		} else {
			false
		}
''', '''		match self.input.get(self.pos) {
			Some(t) if t == tk => {
				self.pos += 1;
				true
			}
			_ => false,
		}
''')]),
    # C13
    ('m-use-len', 'break', M, [(F, 'self.pos += m.match_length;', 'self.pos += entry.examined_length;')]),
    ('m-use-noexam', 'break', M, [(F, '				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);\n\n', '')]),
    ('m-use-exam-match', 'break', M, [(F, '(self.pos + entry.examined_length) as isize - 1);', '(self.pos + entry.existing_match.as_ref().map_or(0, |m| m.match_length)) as isize - 1);')]),
    ('m-use-later', 'break', M, [(F, '''				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);

				entry.existing_match.clone().map(|m| {
''', '''				entry.existing_match.clone().map(|m| {
					self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);
''')]),
    ('m-consume-late', 'break', M, [(F, '''		self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);

		if self.input.get(self.pos) == Some(tk) {
''', '''		if self.input.get(self.pos) == Some(tk) {
			self.max_examined_pos = self.max_examined_pos.max(self.pos as isize);
''')]),
    ('m-mem-len', 'break', M, [(F, 'match_length: self.pos - pos }', 'match_length: examined_length }')]),
    ('m-mem-short', 'break', M, [(F, '(self.max_examined_pos - pos as isize + 1)', '(self.max_examined_pos - pos as isize)')]),
    ('m-mem-colmax', 'break', M, [(F, 'col.max_examined_length = col.max_examined_length.max(examined_length as isize)', 'col.max_examined_length = examined_length as isize')]),
    ('m-mem-pos', 'break', M, [(F, 'self.memoize_result(orig_pos, rule_name', 'self.memoize_result(self.pos, rule_name')]),
    ('m-noreset', 'keep', A, [(F, '			self.max_examined_pos = -1;\n\n			let cst = self.eval_rule', '			let cst = self.eval_rule')]),
    ('m-nomax', 'break', M, [(F, '			self.max_examined_pos = self.max_examined_pos.max(orig_max);\n', '')]),
    ('m-restore', 'break', M, [(F, 'self.max_examined_pos = self.max_examined_pos.max(orig_max);', 'self.max_examined_pos = orig_max;')]),
    ('m-cond-max', 'break', M, [(F, 'self.max_examined_pos = self.max_examined_pos.max(orig_max);', 'if cst.is_some() {\n				self.max_examined_pos = self.max_examined_pos.max(orig_max);\n			}')]),
    ('m-rule', 'break', M, [(F, 'col.memo.get(rule_name).and_then', 'col.memo.values().next().and_then')]),
    ('e-inner-ge', 'keep', A, [(F, 'if pos + entry.examined_length > start_pos {', 'if pos + entry.examined_length >= start_pos {')]),
    ('e-inner-off', 'break', M, [(F, 'if pos + entry.examined_length > start_pos {', 'if pos + entry.examined_length > start_pos + 1 {')]),
    ('e-inner-matchlen', 'break', M, [(F, 'if pos + entry.examined_length > start_pos {', 'if pos + entry.existing_match.as_ref().map_or(entry.examined_length, |m| m.match_length) > start_pos {')]),
    ('e-outer-off', 'break', M, [(F, 'if pos as isize + col.max_examined_length > range.start as isize {', 'if pos as isize + col.max_examined_length > range.start as isize + 1 {')]),
    ('e-outer-end', 'break', M, [(F, 'if pos as isize + col.max_examined_length > range.start as isize {', 'if pos as isize + col.max_examined_length > range.end as isize {')]),
    ('e-noelse', 'break', M, [(F, '} else if entry.examined_length > new_max {', '} else if entry.existing_match.is_some() && entry.examined_length > new_max {')]),
    ('e-newmax0', 'break', M, [(F, 'col.max_examined_length = new_max as isize;', 'col.max_examined_length = -1;')]),
    ('e-newmax-min', 'break', M, [(F, '} else if entry.examined_length > new_max {', '} else if new_max == 0 {')]),
    ('e-range1', 'break', M, [(F, 'for pos in 0..range.start {', 'for pos in 1..range.start {')]),
    ('e-lastonly', 'break', M, [(F, 'for pos in 0..range.start {', 'for pos in range.start.saturating_sub(16)..range.start {')]),
    ('e-count', 'break', M, [(F, '.take(r.len())', '.take(range.len())')]),
    ('e-nosplice', 'break', M, [(F, '		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));\n', '')]),
    ('e-noresize', 'break', M, [(F, '''		if self.memo_table.len() < range.end {
			self.memo_table.resize(range.end, Default::default());
		}
''', '')]),
    ('e-break', 'break', M, [(F, LOOP, '''		for pos in (0..range.start).rev() {
			if let Some(col) = self.memo_table.get_mut(pos) {
				if pos as isize + col.max_examined_length > range.start as isize {
					invalidate_entries_in_column(col, pos, range.start);
				} else {
					break;
				}
			}
		}

''')]),
    ('e-retain-ok', 'keep', A, [(F, INV, '''			let mut new_max = 0;
			col.memo.retain(|_, entry| {
				let keep = pos + entry.examined_length <= start_pos;
				if keep && entry.examined_length > new_max {
					new_max = entry.examined_length;
				}
				keep
			});

''')]),
    ('e-retain2-ok', 'keep', A, [(F, INV, '''			col.memo.retain(|_, entry| pos + entry.examined_length <= start_pos);
			let new_max = col.memo.values().map(|e| e.examined_length).max().unwrap_or(0);

''')]),
    ('e-retain-bad', 'break', M, [(F, INV, '''			col.memo.retain(|_, entry| pos + entry.examined_length <= start_pos || entry.existing_match.is_none());
			let new_max = col.memo.values().map(|e| e.examined_length).max().unwrap_or(0);

''')]),
    ('e-max-ok', 'keep', A, [(F, '''				} else if entry.examined_length > new_max {
					new_max = entry.examined_length;
				}
''', '''				} else {
					new_max = new_max.max(entry.examined_length);
				}
''')]),
    ('e-itermut-ok', 'keep', A, [(F, LOOP, '''		for (pos, col) in self.memo_table.iter_mut().enumerate().take(range.start) {
			if pos as isize + col.max_examined_length > range.start as isize {
				invalidate_entries_in_column(col, pos, range.start);
			}
		}

''')]),
    ('e-always-ok', 'keep', A, [(F, LOOP, '''		for pos in 0..range.start {
			invalidate_entries_in_column(&mut self.memo_table[pos], pos, range.start);
		}

''')]),
    ('e-filter-ok', 'keep', A, [(F, INV, '''			let to_remove: Vec<_> =
				col.memo.iter().filter(|(_, e)| pos + e.examined_length > start_pos).map(|(k, _)| *k).collect();
			for k in &to_remove {
				col.memo.remove(k);
			}
			let new_max = col.memo.values().map(|e| e.examined_length).max().unwrap_or_default();

''')]),
    ('e-continue-ok', 'keep', A, [(F, LOOP, '''		let start = range.start;
		for pos in 0..start {
			let Some(col) = self.memo_table.get_mut(pos) else { break };
			if pos as isize + col.max_examined_length <= start as isize {
				continue;
			}
			invalidate_entries_in_column(col, pos, start);
		}

''')]),
    ('m-use-if-ok', 'keep', A, [(F, USE, '''		let entry = self.memo_table.get(self.pos)?.memo.get(rule_name)?;
		self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
		let m = entry.existing_match.clone()?;
		self.pos += m.match_length;
		Some(m.cst)
	}

''')]),
    ('m-eval-early-ok', 'keep', A, [(F, '''		if let Some(cst) = self.use_memoized_result(rule_name) {
			Some(cst)
		} else {
			let orig_pos = self.pos;
			let orig_max = self.max_examined_pos;
			self.max_examined_pos = -1;

			let cst = self.eval_rule(rule_name);
			self.memoize_result(orig_pos, rule_name, cst.clone());

			self.max_examined_pos = self.max_examined_pos.max(orig_max);
			cst
		}
''', '''		let hit = self.use_memoized_result(rule_name);
		if hit.is_some() {
			return hit;
		}
		let start = self.pos;
		let before = std::mem::replace(&mut self.max_examined_pos, -1);
		let result = self.eval_rule(rule_name);
		self.memoize_result(start, rule_name, result.clone());
		if before > self.max_examined_pos {
			self.max_examined_pos = before;
		}
		result
''')]),
    ('m-mem-resize-ok', 'keep', A, [(F, '''		while self.memo_table.len() <= pos {
			self.memo_table.push(Default::default());
		}
''', '''		if self.memo_table.len() <= pos {
			self.memo_table.resize(pos + 1, Default::default());
		}
''')]),
]
