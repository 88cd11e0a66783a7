F = 'crates/analyzer-core/src/lexer.rs'
L = 'crates/analyzer-core/src/lib.rs'
X = ['C21']
S = open('/repo/' + F).read()
def op(*p): return [(F, p[i], p[i + 1]) for i in range(0, len(p), 2)]
COMMENT = S[S.index("		let mut rem = self.0.remainder().chars();"):S.index("	/** Read characters until")]
LINE = S[S.index("		let mut iter = s.chars();\n		let mut buf"):S.index("	fn report(")]
DEF = S[S.index("		let mut symbol = String::new();"):S.index("		// the escapes have been")]
INT = S[S.index("		let str = parse_width(str)"):S.index("		lit.value = match")]
VAL = S[S.index("		lit.value = match"):S.index("		Some(lit)")]
DIR = S[S.index("		let directive = match caps"):S.index("	fn parse_include")]
SCAN = open('/repo/' + L).read()
SCAN = SCAN[SCAN.index("			match (&*state, &tk) {"):SCAN.index("			Some(tk)\n")]
CASES = [
    ('int-anchor', 'break', X, op('"^0([bB', '"0([bB')),
    ('int-width-anchor', 'break', X, op('"^([0-9][0-9]*)', '"([0-9][0-9]*)')),
    ('int-octal', 'break', X, op('"o" | "O" => 8', '"o" => 8,\n\t\t\t"O" => 10')),
    ('int-signed', 'break', X, op('"w" => false', '"w" => true', '"s" => true', '"s" => false')),
    ('int-underscore', 'break', X, op('&str.replace(\'_\', "")', 'str')),
    ('int-radix', 'break', X, op('lit.base as u32).ok()', '10).ok()')),
    ('int-cut', 'break', X, op('&str[sign.end()..]', '&str[caps.get(1).unwrap().end()..]')),
    ('int-start', 'break', X, op('&str[base_indicator.end()..]', '&str[base_indicator.start()..]')),
    ('int-panics', 'break', X, op('.parse().ok()?', '.parse().unwrap()')),
    ('int-nowidth', 'break', X, op('lit.width = Some(width);', 'let _ = width;')),
    ('int-order', 'break', X, op(INT, INT.replace('parse_width(str)\n\t\t\t.map(|((width, sign), str)| {\n\t\t\t\tlit.width = Some(width);\n\t\t\t\tlit.signed = sign;\n\t\t\t\tstr\n\t\t\t})\n\t\t\t.unwrap_or(str);\n\t\tlet str = ', ''))),
    ('tok-swap', 'break', X, op('#[token("<")]', '#[token("@")]', '#[token(">")]', '#[token("<")]', '#[token("@")]', '#[token(">")]')),
    ('tok-kw', 'break', X, op('#[token("typedef")]', '#[token("type")]')),
    ('tok-ident', 'break', X, op('[a-zA-Z_][a-zA-Z0-9_]*', '[a-zA-Z][a-zA-Z0-9_]*')),
    ('tok-int', 'break', X, op('[0-9][0-9wsbBdDoOxXa-fA-F_]*', '[0-9][0-9wsbBdDxXa-fA-F_]*')),
    ('tok-case', 'break', X, op('#[token("apply")]', '#[token("apply", ignore(ascii_case))]')),
    ('tok-comment', 'break', X, op('//[^\\n]*\\n?', '//[^\\n]*\\n')),
    ('tok-ws', 'break', X, op(r'r"\s\s*"', r'r"[ \t\n]+"')),
    ('dir-elif', 'break', X, op('PreprocessorDirective::ElseIf(expr)', 'PreprocessorDirective::If(expr)')),
    ('dir-name', 'break', X, op('"endif" =>', '"end" =>')),
    ('dir-else-arg', 'break', X, op('"else" => PreprocessorDirective::Else', '"else" if arg.is_empty() => PreprocessorDirective::Else')),
    ('dir-undef', 'break', X, op('"undef" => {', '"undefine" => {')),
    ('line-bump', 'break', X, op(LINE, LINE.replace('self.0.bump(ch.len_utf8())', 'self.0.bump(1)'))),
    ('line-escape', 'break', X, op(LINE, LINE.replace("\t\t\t\t\tescape = false\n", ""))),
    ('line-newline', 'break', X, op(LINE, LINE.replace("Some('\\n') if !escape => break", "Some('\\n') => break"))),
    ('comment-star', 'break', X, op(COMMENT, COMMENT.replace("Some(_) => asterisk = false", "Some(_) => ()"))),
    ('comment-bump', 'break', X, op(COMMENT, COMMENT.replace("self.0.bump(ch.len_utf8())", "self.0.bump(1)"))),
    ('comment-eof', 'break', X, op(COMMENT, COMMENT.replace("break false", "break true"))),
    ('comment-slash', 'break', X, op(COMMENT, COMMENT.replace("Some('/') if asterisk", "Some('/')"))),
    ('inc-style', 'break', X, op("Some('<') => Some(AngleBrackets)", "Some('<') => Some(DoubleQuotes)")),
    ('inc-close', 'break', X, op("AngleBrackets => '>'", "AngleBrackets => '\"'")),
    ('def-body', 'break', X, op('let rhs = iter.collect();', 'let rhs = iter.take_while(|ch| *ch != \'/\').collect();')),
    ('def-name', 'break', X, op("if ch.is_ascii_alphanumeric() || *ch == '_' {", "if !ch.is_ascii_whitespace() {")),
    ('err-merge', 'break', X, [(L, 'err_span.start..span.end', 'span.start..span.end')]),
    ('err-twice', 'break', X, [(L, '\t\t\t\t\t*state = None;\n', '')]),
    ('err-none', 'break', X, [(L, '(None, (Token::Error, span)) => *state = Some(span.clone()),', '(None, (Token::Error, _)) => (),')]),
    ('err-last', 'break', X, [(L, 'Position::Last(_) | Position::Only(_) => None', 'Position::Only(_) => None')]),
    ('k-comment-for', 'keep', X, op(COMMENT, """		let text = self.0.remainder();
		let mut asterisk = false;
		for ch in text.chars() {
			self.0.bump(ch.len_utf8());
			if asterisk && ch == '/' {
				return true;
			}
			asterisk = ch == '*';
		}
		false
	}

""")),
    ('k-line-for', 'keep', X, op(LINE, """		let mut buf = String::new();
		let mut escape = false;
		for ch in s.chars() {
			self.0.bump(ch.len_utf8());
			if escape {
				buf.push(ch);
				escape = false;
				continue;
			}
			match ch {
				'\\\\' => escape = true,
				'\\n' => break,
				_ => buf.push(ch),
			}
		}
		buf
	}

""")),
    ('k-int-iflet', 'keep', X, op(INT, """		let mut rest = str;
		if let Some(((width, sign), tail)) = parse_width(rest) {
			lit.width = Some(width);
			lit.signed = sign;
			rest = tail;
		}
		if let Some((base, tail)) = parse_base(rest) {
			lit.base = base;
			rest = tail;
		}
		let str = rest;
""")),
    ('k-int-val', 'keep', X, op(VAL, """		let digits = str.replace('_', "");
		if let Ok(i) = i64::from_str_radix(&digits, lit.base.into()) {
			lit.value = i;
		} else {
			self.report(Severity::Error, "malformed integer literal");
			return None;
		}
""")),
    ('k-int-lower', 'keep', X, op('"^0([bBdDoOxX])"', '"^0([b-bBdDoxXO])"', '"d" | "D" => 10,\n', '', '"x" | "X" => 16,', '"x" | "X" => 16,\n\t\t\t"d" | "D" => 10,')),
    ('k-int-lit', 'keep', X, op('Some(lit)', 'Some(Literal { base: lit.base, signed: lit.signed, width: lit.width, value: lit.value })')),
    ('k-tok-order', 'keep', X, op('#[token("}")]\n\tCloseBrace,\n\n\t#[token("]")]\n\tCloseBracket,', '#[token("]")]\n\tCloseBracket,\n\n\t/// `}`\n\t#[token("}")]\n\tCloseBrace,')),
    ('k-tok-ident', 'keep', X, op('[a-zA-Z_][a-zA-Z0-9_]*', '[_a-zA-Z]([_0-9a-z]|[A-Z])*')),
    ('k-ws', 'keep', X, op(r'\s\s*', r'\s+')),
    ('k-dir-some', 'keep', X, op('"else" => PreprocessorDirective::Else,', '"else" => return Some(PreprocessorDirective::Else),')),
    ('k-dir-if', 'keep', X, op("""				let expr = parse_pp_expression(arg)?;
				PreprocessorDirective::If(expr)""", """				let Some(expr) = parse_pp_expression(arg) else {
					return None;
				};
				PreprocessorDirective::If(expr)""")),
    ('k-dir-undef', 'keep', X, op("""				let words: Vec<_> = arg.trim().split_ascii_whitespace().collect();
				if words.len() != 1 {
					return None;
				}
				PreprocessorDirective::Undef(words[0].to_string())""", """				let mut words = arg.split_ascii_whitespace();
				match (words.next(), words.next()) {
					(Some(word), None) => PreprocessorDirective::Undef(word.to_string()),
					_ => return None,
				}""")),
    ('k-scan', 'keep', X, [(L, SCAN, """			let (token, span) = &tk;
			if let Token::Error = token {
				let start = match &*state {
					Some(earlier) => earlier.start,
					None => span.start,
				};
				*state = Some(start..span.end);
			} else if let Some(location) = state.take() {
				let message = "unexpected token".to_string();
				Diagnostics::push(db, Diagnostic { file: file_id, location, severity: Severity::Error, message });
			}
""")]),
    ('k-define', 'keep', X, op("		let rhs = iter.collect();", "		let rhs: String = iter.collect::<String>();")),
    ('k-report', 'keep', X, op("""				self.report(Severity::Error, "malformed integer literal");
				return None;""", """				self.malformed();
				return None;""", """	fn read_comment(&mut self)""", """	fn malformed(&mut self) {
		self.report(Severity::Error, "malformed integer literal")
	}

	fn read_comment(&mut self)""")),
]
