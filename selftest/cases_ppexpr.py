F = 'crates/analyzer-core/src/preprocessor.rs'
X = ['C20']
S = open('/repo/' + F).read()
IDENT = S[S.index("				if expanding.contains(name) {"):S.index("			PreprocessorExpression::BinOp(op, lhs, rhs) => {\n				let l")]
BIN = S[S.index("				let l = self.interpret_pp_expr_in(lhs, expanding)?;"):S.index("			PreprocessorExpression::Not(inner) => Some(")]
NOT = "Some(self.interpret_pp_expr_in(inner, expanding).map_or(1, |n| (n == 0) as i64))"
COND = S[S.index("		match self.interpret_pp_expr(cond) {\n			None => false,"):S.index("	fn interpret_pp_expr(&self")]
def op(a, b): return [(F, a, b)]
LOOP = S[S.index("		let mut f: Rc<dyn Fn(&'a str)"):S.index("		move |input| {\n			fold_many1(")]
CASES = [
    ('shr-rr', 'break', X, op('l.checked_shr(r.try', 'r.checked_shr(r.try')),
    ('sub-swapped', 'break', X, op('l.checked_sub(r)?', 'r.checked_sub(l)?')),
    ('rem-div', 'break', X, op('l.checked_rem(r)?', 'l.checked_div(r)?')),
    ('rem-euclid', 'break', X, op('l.checked_rem(r)?', 'l.checked_rem_euclid(r)?')),
    ('add-panics', 'break', X, op('l.checked_add(r)?', 'l + r')),
    ('div-panics', 'break', X, op('l.checked_div(r)?', 'l.wrapping_div(r)')),
    ('shl-panics', 'break', X, op('l.checked_shl(r.try_into().ok()?)?', 'l << r')),
    ('shl-unwrap', 'break', X, op('l.checked_shl(r.try_into().ok()?)?', 'l.checked_shl(r.try_into().unwrap())?')),
    ('saturating', 'break', X, op('l.checked_add(r)?', 'l.saturating_add(r)')),
    ('or-and', 'break', X, op('PreprocessorBinOp::Or => l | r', 'PreprocessorBinOp::Or => l & r')),
    ('xor-or', 'break', X, op('l ^ r', 'l | r')),
    ('lt-le', 'break', X, op('(l < r) as i64', '(l <= r) as i64')),
    ('ge-swapped', 'break', X, op('(l >= r) as i64', '(r >= l) as i64')),
    ('eq-ne', 'break', X, op('(l == r) as i64', '(l != r) as i64')),
    ('or-one-sided', 'break', X, op('(l != 0 || r != 0) as i64', '(l != 0) as i64')),
    ('and-positive', 'break', X, op('(l != 0 && r != 0) as i64', '(l > 0 && r > 0) as i64')),
    ('and-bits', 'break', X, op('(l != 0 && r != 0) as i64', '((l & r) != 0) as i64')),
    ('not-same', 'break', X, op('(n == 0) as i64', '(n != 0) as i64')),
    ('not-undefined', 'break', X, op('.map_or(1, |n|', '.map_or(0, |n|')),
    ('not-none', 'break', X, op(NOT, 'self.interpret_pp_expr_in(inner, expanding).map(|n| (n == 0) as i64)')),
    ('defined-inverted', 'break', X, op('Some(self.definitions.contains_key(name) as i64)', 'Some(!self.definitions.contains_key(name) as i64)')),
    ('defined-none', 'break', X, op('Some(self.definitions.contains_key(name) as i64)', 'self.definitions.get(name).map(|_| 1)')),
    ('defined-value', 'break', X, op('Some(self.definitions.contains_key(name) as i64)', 'Some(self.definitions.get(name).map_or(false, |s| !s.is_empty()) as i64)')),
    ('literal-abs', 'break', X, op('Some(n),\n			PreprocessorExpression::Identifier', 'Some(n + 0 * 2),\n			PreprocessorExpression::Identifier')),
    ('guard-fresh', 'break', X, op('let r = self.interpret_pp_expr_in(rhs, expanding)?;', 'let r = self.interpret_pp_expr(rhs)?;')),
    ('guard-truth', 'break', X, op(NOT, 'Some(!self.interpret_condition(inner) as i64)')),
    ('guard-other', 'break', X, op('expanding.push(name.clone());', 'expanding.push(rhs.clone());')),
    ('guard-none', 'break', X, op('					expanding.push(name.clone());\n', '')),
    ('guard-left', 'break', X, op('					expanding.pop();\n', '')),
    ('guard-unchecked', 'break', X, op('if expanding.contains(name) {', 'if expanding.len() > 1 && expanding.contains(name) && rhs_is(name) {') + op('	fn interpret_pp_expr(&self', '	fn _x() {}\n	fn interpret_pp_expr(&self') + op('pub type PreprocessorValue = i64;', 'pub type PreprocessorValue = i64;\nfn rhs_is(s: &str) -> bool { s.len() > 3 }')),
    ('ident-one', 'break', X, op('					value\n				} else {\n					None\n', '					value\n				} else {\n					Some(1)\n')),
    ('ident-defined', 'break', X, op('let value = self.interpret_pp_expr_in(&expr, expanding);', 'let value = self.interpret_pp_expr_in(&expr, expanding).or(Some(1));')),
    ('cond-positive', 'break', X, op('Some(n) => n != 0,', 'Some(n) => n > 0,')),
    ('cond-none', 'break', X, op('			None => false,\n			Some(n)', '			None => true,\n			Some(n)')),
    # parsing
    ('table-swap', 'break', X, op('("<<", BitwiseShiftLeft), (">>", BitwiseShiftRight)', '("<<", BitwiseShiftRight), (">>", BitwiseShiftLeft)')),
    ('table-lost', 'break', X, op('("*", Times), ("/", Divide), ("%", Modulo)', '("*", Times), ("/", Divide)')),
    ('table-prefix', 'break', X, op('("<=", LessOrEqual), ("<", LessThan), (">=", GreaterOrEqual), (">", GreaterThan)', '("<", LessThan), ("<=", LessOrEqual), (">", GreaterThan), (">=", GreaterOrEqual)')),
    ('table-forward', 'break', X, op('variants.iter().rev()', 'variants.iter()')),
    ('level-same', 'break', X, op('bin_op(&f, factor, &[("*", Times), ("/", Divide), ("%", Modulo)])', 'bin_op(&f, factor, &[("*", Times), ("/", Divide), ("%", Modulo), ("&", And)])') + op('bin_op(&e, exp7, &[("&", And)])(input).or(Ok((input, e)))', 'Ok((input, e))')),
    ('level-order', 'break', X, op('bin_op(&e, exp8, &[("^", Xor)])', 'bin_op(&e, exp8, &[("|", Or)])') + op('bin_op(&e, exp9, &[("|", Or)])', 'bin_op(&e, exp9, &[("^", Xor)])')),
    ('level-operand', 'break', X, op('bin_op(&e, exp4, &[("<<"', 'bin_op(&e, exp3, &[("<<"')),
    ('level-right', 'break', X, op('bin_op(&e, exp3, &[("+"', 'bin_op(&e, exp4, &[("+"')),
    ('build-swapped', 'break', X, op('|l, (op, r)| PreprocessorExpression::BinOp(op, l.into(), r.into())', '|l, (op, r)| PreprocessorExpression::BinOp(op, r.into(), l.into())')),
    ('ident-first', 'break', X, op('			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),\n			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),\n', '			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),\n			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),\n')),
    ('no-not', 'break', X, op('			map(preceded(pair(tag("!"), multispace0), factor), |e| Not(e.into())),\n', '')),
    ('not-all', 'break', X, op('preceded(pair(tag("!"), multispace0), factor)', 'preceded(pair(tag("!"), multispace0), exp12)')),
    ('parens-factor', 'break', X, op('delimited(tag("("), exp12, tag(")"))', 'delimited(tag("("), exp11, tag(")"))')),
    ('defined-as-ident', 'break', X, op('|ident| Defined(ident.to_string())', '|ident| Identifier(ident.to_string())')),
    ('hex-last', 'break', X, op('alt((hexadecimal, decimal))', 'alt((decimal, hexadecimal))')),
    ('hex-digits', 'break', X, op('one_of("0123456789abcdefABCDEF")', 'one_of("0123456789abcdefABCDE")')),
    ('hex-base', 'break', X, op('i64::from_str_radix(&str::replace(out, "_", ""), 16)', 'i64::from_str_radix(&str::replace(out, "_", ""), 10)')),
    ('defined-space', 'break', X, op('delimited(tuple((tag("defined"), multispace0, tag("("))), ws', 'delimited(tag("defined("), ws')),
    # rewrites
    ('helper-binop', 'keep', X, op(BIN, '				let l = self.interpret_pp_expr_in(lhs, expanding)?;\n				let r = self.interpret_pp_expr_in(rhs, expanding)?;\n				apply(op, l, r)\n			}\n') + op('pub type PreprocessorValue = i64;', 'pub type PreprocessorValue = i64;\n\nfn apply(op: &PreprocessorBinOp, l: i64, r: i64) -> Option<i64> {\n' + BIN[BIN.index('				Some(match op {'):BIN.rindex('			}')] + '}\n')),
    ('if-else', 'keep', X, op('(l == r) as i64', 'if l == r { 1 } else { 0 }') + op('(l != 0 || r != 0) as i64', 'if l == 0 && r == 0 { 0 } else { 1 }') + op('(l < r) as i64', 'i64::from(r > l)')),
    ('wrapping', 'keep', X, op('l.checked_add(r)?', 'l.wrapping_add(r)') + op('l.checked_mul(r)?', 'r.wrapping_mul(l)')),
    ('div-if', 'keep', X, op('l.checked_div(r)?', 'if r == 0 { return None } else { l.wrapping_div(r) }')),
    ('try-from', 'keep', X, op('l.checked_shl(r.try_into().ok()?)?', 'l.checked_shl(u32::try_from(r).ok()?)?')),
    ('ident-match', 'keep', X, op(IDENT, '				if expanding.iter().any(|n| n == name) {\n					return None;\n				}\n				let rhs = self.definitions.get(name)?;\n				let (_, expr) = expression(rhs).ok()?;\n				expanding.push(name.clone());\n				let value = self.interpret_pp_expr_in(&expr, expanding);\n				expanding.pop();\n				value\n			}\n')),
    ('ident-set', 'keep', X, op('cond: &PreprocessorExpression,\n		expanding: &mut Vec<String>', 'cond: &PreprocessorExpression,\n		expanding: &mut HashSet<String>') + op('expanding.push(name.clone())', 'expanding.insert(name.clone())') + op('expanding.pop()', 'expanding.remove(name)') + op('&mut vec![]', '&mut HashSet::new()')),
    ('ident-set-insert', 'keep', X, op('cond: &PreprocessorExpression,\n		expanding: &mut Vec<String>', 'cond: &PreprocessorExpression,\n		expanding: &mut HashSet<String>') + op('&mut vec![]', '&mut HashSet::new()') + op(IDENT, '				let (_, expr) = expression(self.definitions.get(name)?).ok()?;\n				if !expanding.insert(name.clone()) {\n					return None;\n				}\n				let value = self.interpret_pp_expr_in(&expr, expanding);\n				expanding.remove(name);\n				value\n			}\n')),
    ('depth', 'keep', X, op('expanding: &mut Vec<String>,\n	)', 'expanding: usize,\n	)') + op('&mut vec![]', '64') + op(IDENT, '				let rhs = self.definitions.get(name)?;\n				let (_, expr) = expression(rhs).ok()?;\n				self.interpret_pp_expr_in(&expr, expanding.checked_sub(1)?)\n			}\n')),
    ('cond-matches', 'keep', X, op(COND, '		matches!(self.interpret_pp_expr(cond), Some(n) if n != 0)\n	}\n\n')),
    ('cond-map', 'keep', X, op(COND, '		self.interpret_pp_expr(cond).map_or(false, |n| n != 0)\n	}\n\n')),
    ('cond-unwrap', 'keep', X, op(COND, '		self.interpret_pp_expr(cond).unwrap_or(0) != 0\n	}\n\n')),
    ('not-truth', 'keep', X, op(NOT, 'Some(match self.interpret_pp_expr_in(inner, expanding) {\n				None | Some(0) => 1,\n				Some(_) => 0,\n			})')),
    ('table-fwd', 'keep', X, op('variants.iter().rev()', 'variants.iter()') + op('("<=", LessOrEqual), ("<", LessThan), (">=", GreaterOrEqual), (">", GreaterThan)', '("<", LessThan), ("<=", LessOrEqual), (">", GreaterThan), (">=", GreaterOrEqual)')),
    ('table-const', 'keep', X, op('bin_op(&e, exp4, &[("<<", BitwiseShiftLeft), (">>", BitwiseShiftRight)])(input)', 'bin_op(&e, exp4, SHIFTS)(input)') + op('	pub(super) fn exp5(', "	const SHIFTS: &[(&str, PreprocessorBinOp)] = &[(\">>\", PreprocessorBinOp::BitwiseShiftRight), (\"<<\", PreprocessorBinOp::BitwiseShiftLeft)];\n	pub(super) fn exp5(")),
    ('table-let', 'keep', X, op('bin_op(&e, exp4, &[("<<", BitwiseShiftLeft), (">>", BitwiseShiftRight)])(input)', 'bin_op(&e, exp4, &ops)(input)') + op('		let (input, e) = ws(exp4)(input)?;\n', '		let ops = [("<<", BitwiseShiftLeft), (">>", BitwiseShiftRight)];\n		let (input, e) = ws(exp4)(input)?;\n')),
    ('alts-order', 'keep', X, op('			map(terminated(integer, multispace0), IntLiteral),\n', '').copy() + op('			delimited(tag("("), exp12, tag(")")),\n', '			map(terminated(integer, multispace0), IntLiteral),\n			delimited(char(\'(\'), exp12, char(\')\')),\n')),
    ('symbol-loop', 'keep', X, op(LOOP, """		let table: Vec<(&'static str, PreprocessorBinOp)> = variants.to_vec();
		let f = move |s: &'a str| -> IResult<&'a str, PreprocessorBinOp> {
			for (sym, op) in table.iter() {
				let sym: &'static str = sym;
				let res: IResult<&'a str, PreprocessorBinOp> = tag(sym)(s).map(|(rest, _)| (rest, op.clone()));
				if res.is_ok() {
					return res;
				}
			}
			fail(s)
		};
		let f = Rc::new(f);

""")),
]
