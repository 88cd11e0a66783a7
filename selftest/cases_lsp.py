F = 'crates/analyzer-core/src/lsp_file.rs'
U, D = ['C09'], ['C10']
S = open('/repo/' + F).read()
LC = S[S.index('		// a useful case to expect'):S.index('	// content of a line that starts')]
PS = S[S.index('		let mut result: Vec<usize> = Vec::new();'):S.index('	// used to get a valid lsp position')]
LB = S[S.index('		// get byte offset for character position in line'):S.index('	pub fn lsp_range_to_byte_range')]
BL = S[S.index('		// calculate character position in byte offset'):S.index('	pub fn byte_range_to_lsp_range')]
CASES = [
    ('lc-len', 'break', U, [(F, 'slice.chars().count()\n', 'slice.len()\n')]),
    ('lc-gt', 'break', U, [(F, '		if line >= self.ranges.len() {\n			return 0;', '		if line > self.ranges.len() {\n			return 0;')]),
    ('lc-nonl', 'break', U, [(F, 'self.file.slice(start_pos..self.ranges[line] + 1)', 'self.file.slice(start_pos..self.ranges[line])')]),
    ('lc-span', 'break', U, [(F, "self.ranges.get(line - 1).unwrap_or(&0) + 1 };\n\n		let slice", "self.ranges.get(line.saturating_sub(2)).unwrap_or(&0) + 1 };\n\n		let slice")]),
    ('off-one', 'break', U, [(F, "				break;\n			}\n			byte_count += c.len_utf8();", "				break;\n			}\n			byte_count += 1;")]),
    ('off-chars', 'break', U, [(F, LB, '''		let slice = self.line_content(start_byte, lsp_pos.line);
		start_byte + slice.chars().take(lsp_pos.character).count()
	}
''')]),
    ('off-min', 'break', U, [(F, LB, '''		let slice = self.line_content(start_byte, lsp_pos.line);
		start_byte + lsp_pos.character.min(slice.len())
	}
''')]),
    ('off-nth-ok', 'keep', U, [(F, LB, '''		let content = self.line_content(start_byte, lsp_pos.line);
		start_byte + content.char_indices().nth(lsp_pos.character).map_or(content.len(), |(i, _)| i)
	}
''')]),
    ('off-sum-ok', 'keep', U, [(F, LB, '''		let content = self.line_content(start_byte, lsp_pos.line);
		start_byte + content.chars().take(lsp_pos.character).map(char::len_utf8).sum::<usize>()
	}
''')]),
    ('content-old', 'break', U, [(F, 'let content = self.file.slice(start_byte..self.ranges[line] + 1).unwrap_or("");\n		content.strip_suffix(\'\\n\').unwrap_or(content)', 'self.file.slice(start_byte..self.ranges[line]).unwrap_or("")')]),
    ('content-nl-ok', 'keep', U, [(F, 'let content = self.file.slice(start_byte..self.ranges[line] + 1).unwrap_or("");\n		content.strip_suffix(\'\\n\').unwrap_or(content)', 'let end = self.ranges[line];\n		let end = if self.file.as_bytes()[end] == b\'\\n\' { end } else { end + 1 };\n		&self.file[start_byte..end]')]),
    ('pos-bytes', 'break', U, [(F, 'let mut char = slice.clone().count();', 'let mut char = byte_pos - byte_count;')]),
    ('pos-bytelen', 'break', U, [(F, '				char = i;\n', '				char = byte_count;\n')]),
    ('pos-ci', 'break', U, [(F, BL, '''		let start = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
		let content = self.line_content(start, line);
		let mut char = content.chars().count();
		for (i, c) in content.char_indices() {
			if start + i + c.len_utf8() > byte_pos {
				char = i;
				break;
			}
		}
		Position { line, character: char }
	}

''')]),
    ('pos-ci-ok', 'keep', U, [(F, BL, '''		let start = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
		let content = self.line_content(start, line);
		let mut char = 0;
		for (i, c) in content.char_indices() {
			if start + i + c.len_utf8() > byte_pos {
				break;
			}
			char += 1;
		}
		Position { line, character: char }
	}

''')]),
    ('pos-swapped', 'break', U, [(F, 'Position { line, character: char }', 'Position { line: char, character: line }')]),
    ('rng-swap', 'break', U, [(F, 'let end = self.lsp_to_byte(&lsp_range.end);', 'let end = self.lsp_to_byte(&lsp_range.start);')]),
    ('rng-swap2', 'break', U, [(F, 'let start = self.byte_to_lsp(byte_range.start);\n		let end = self.byte_to_lsp(byte_range.end);', 'let start = self.byte_to_lsp(byte_range.end);\n		let end = self.byte_to_lsp(byte_range.start);')]),
    ('rng-inline-ok', 'keep', U, [(F, 'let start = self.lsp_to_byte(&lsp_range.start);\n		let end = self.lsp_to_byte(&lsp_range.end);\n		start..end', 'self.lsp_to_byte(&lsp_range.start)..self.lsp_to_byte(&lsp_range.end)')]),
    ('parse-one', 'break', U, [(F, 'byte_count += c.len_utf8();\n			if c == ', 'byte_count += 1;\n			if c == ')]),
    ('parse-idx', 'break', U, [(F, '		for (_, c) in chars.enumerate() {\n			byte_count += c.len_utf8();\n			if c == \'\\n\' {\n				result.push(byte_count - 1);', '		for (i, c) in chars.enumerate() {\n			byte_count += c.len_utf8();\n			if c == \'\\n\' {\n				result.push(i);')]),
    ('parse-cr', 'break', D, [(F, "if c == '\\n' {\n				result.push", "if c == '\\n' || c == '\\r' {\n				result.push")]),
    ('parse-crm', 'break', D, [(F, "if c == '\\n' {\n				result.push", "if matches!(c, '\\n' | '\\u{2028}') {\n				result.push")]),
    ('parse-ws', 'break', D, [(F, "if c == '\\n' {\n				result.push", "if c.is_control() && c != '\\t' {\n				result.push")]),
    ('parse-ci-ok', 'keep', U + D, [(F, PS, '''		let mut result: Vec<usize> = Vec::new();
		for (i, c) in string.char_indices() {
			if c == '\\n' {
				result.push(i);
			}
		}
		if !string.is_empty() && !string.ends_with('\\n') {
			result.push(string.len() - 1);
		}
		result
	}

''')]),
    ('parse-mi-ok', 'keep', U + D, [(F, PS, '''		let mut result: Vec<usize> = string.match_indices('\\n').map(|(i, _)| i).collect();
		if let Some(last) = string.len().checked_sub(1) {
			if result.last() != Some(&last) {
				result.push(last);
			}
		}
		result
	}

''')]),
    ('add-charlen', 'break', U, [(F, 'additional_ranges.last().map_or(-1, |value| *value as i64)', 'changes.text.chars().count() as i64 - 1')]),
    ('add-len-ok', 'keep', U + D, [(F, 'additional_ranges.last().map_or(-1, |value| *value as i64)', 'changes.text.len() as i64 - 1')]),
    ('add-startchar', 'break', U, [(F, '			*elm += start_byte;', '			*elm += start_byte + start_pos.character - start_pos.character;')]),
    ('add-line', 'break', U, [(F, '*self.ranges.get(end_line).unwrap_or', '*self.ranges.get(end_pos_exc.character).unwrap_or')]),
    ('add-noreplace', 'break', D, [(F, '		self.file.replace_range(range, &changes.text);\n', '		if !range.is_empty() || changes.text.len() < 65536 {\n			self.file.replace_range(range, &changes.text);\n		}\n')]),
    ('add-notable', 'break', D, [(F, '		self.ranges.splice(s..e, additional_ranges); // used', '		if s < 1_000_000 {\n			self.ranges.splice(s..e, additional_ranges);\n		} // used')]),
    ('add-clear', 'break', D, [(F, '				self.ranges.clear();\n', '')]),
    ('add-early', 'break', D, [(F, '		// undefined behaviour\n', '		if start_byte_eq(&start_pos, &end_pos_exc) && changes.text.starts_with(\'\\u{feff}\') {\n			return;\n		}\n		// undefined behaviour\n'), (F, '#[derive(Clone, Debug)]\npub struct LspFile', 'fn start_byte_eq(a: &Position, b: &Position) -> bool { a == b }\n\n#[derive(Clone, Debug)]\npub struct LspFile')]),
    ('add-full', 'break', D, [(F, 'changes.range.is_none() || self.ranges.is_empty()', 'changes.range.is_none() || self.ranges.is_empty() || changes.text.len() > self.file.len() * 16')]),
    ('add-endstart', 'break', D, [(F, 'let end_byte = self.lsp_to_byte(&end_pos_exc);', 'let end_byte = if changes.text.len() > 4096 { start_byte } else { self.lsp_to_byte(&end_pos_exc) };')]),
    ('add-after', 'break', D, [(F, '		let range = start_byte..end_byte;\n', '		self.file.replace_range(start_byte..start_byte, "");\n		let range = self.lsp_to_byte(&start_pos)..self.lsp_to_byte(&end_pos_exc);\n')]),
    ('add-reparse-ok', 'keep', U + D, [(F, '		// undefined behaviour\n', '''		if changes.text.len() > 100_000 {
			let r = self.lsp_to_byte(&start_pos)..self.lsp_to_byte(&end_pos_exc);
			let mut text = self.file.clone();
			text.replace_range(r, &changes.text);
			*self = LspFile::new(&text);
			return;
		}
		// undefined behaviour
''')]),
    ('add-if-ok', 'keep', U + D, [(F, '''		if changes.range.is_none() || self.ranges.is_empty() {
			*self = LspFile::new(&changes.text);
			return;
		}
''', '''		let whole = match changes.range {
			None => true,
			Some(_) => self.file.is_empty() || self.ranges.is_empty(),
		};
		if whole {
			self.file = changes.text.clone();
			self.ranges = LspFile::parse_string(&changes.text);
			return;
		}
''')]),
    ('add-destr-ok', 'keep', U + D, [(F, '''		let start_pos = self.lsp_to_lsp(&changes.range.unwrap().start); // inclusive
		let end_pos_exc = self.lsp_to_lsp(&changes.range.unwrap().end); // exclusive
''', '''		let Range { start, end } = changes.range.unwrap();
		let start_pos = self.lsp_to_lsp(&start);
		let end_pos_exc = self.lsp_to_lsp(&end);
''')]),
    ('add-letelse-ok', 'keep', U + D, [(F, '''		let start_pos = self.lsp_to_lsp(&changes.range.unwrap().start); // inclusive
		let end_pos_exc = self.lsp_to_lsp(&changes.range.unwrap().end); // exclusive
''', '''		let Some(wanted) = changes.range.as_ref() else { return };
		let (start_pos, end_pos_exc) = (self.lsp_to_lsp(&wanted.start), self.lsp_to_lsp(&wanted.end));
''')]),
    ('add-loop-ok', 'keep', U + D, [(F, '''		for elm in self.ranges.iter_mut().skip(start_line + len) {
			*elm = (*elm as i64 + diff) as usize;
		}
''', '''		let from = start_line + len;
		for i in from..self.ranges.len() {
			self.ranges[i] = (self.ranges[i] as i64 + diff) as usize;
		}
'''), (F, '''		for elm in &mut additional_ranges {
			*elm += start_byte;
		}
''', '''		additional_ranges.iter_mut().for_each(|elm| *elm += start_byte);
''')]),
    ('lc-first', 'break', U, [(F, LC[LC.index('		let start_pos'):LC.index('\n\n		let slice')], "		let start_pos = if line != 0 { 0 } else { self.ranges.get(line - 1).unwrap_or(&0) + 1 };")]),
    ('lc-first-1', 'break', U, [(F, LC[LC.index('		let start_pos'):LC.index('\n\n		let slice')], "		let start_pos = if line <= 1 { 0 } else { self.ranges.get(line - 1).unwrap_or(&0) + 1 };")]),
    ('lc-next', 'break', U, [(F, LC[LC.index('		let start_pos'):LC.index('\n\n		let slice')], "		let start_pos = if line == 0 { 0 } else { self.ranges.get(line + 1).unwrap_or(&0) + 1 };")]),
    ('lc-one', 'break', U, [(F, LC[LC.index('		if line >='):LC.index('\n\n		let start')], "		if line >= self.ranges.len() {\n			return 1;\n		}")]),
    ('lc-never', 'break', U, [(F, LC[LC.index('		if line >='):LC.index('\n\n		let start')], "		if line < usize::MAX {\n			return 0;\n		}")]),
    ('lc-match-ok', 'keep', U, [(F, LC[LC.index('		let start_pos'):LC.index('\n\n		let slice')], "		let start_pos = match line {\n			0 => 0,\n			n => self.ranges[n - 1] + 1,\n		};")]),
    ('lc-checked-ok', 'keep', U, [(F, LC[LC.index('		let start_pos'):LC.index('\n\n		let slice')], "		let start_pos = line.checked_sub(1).map_or(0, |l| self.ranges[l] + 1);")]),
    ('lc-gt-ok', 'keep', U, [(F, LC[LC.index('		let start_pos'):LC.index('\n\n		let slice')], "		let mut start_pos = 0;\n		if line > 0 {\n			start_pos = self.ranges[line - 1] + 1;\n		}")]),
]
