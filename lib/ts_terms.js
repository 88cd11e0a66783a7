// Terms of what the functions of TypeScript sources compute, for rules/client_fs.py.
// usage: node ts_terms.js <typescript> <file>...   ->   JSON on stdout
const ts = require(process.argv[2]);
const fs = require('fs');
const K = ts.SyntaxKind;
const out = { requests: [], calls: [], errors: [], streams: [], writes: [] };
let D = 0;

function unwrap(e) {
	while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isAwaitExpression(e) ||
		(ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)) || ts.isTypeAssertionExpression(e))) e = e.expression;
	return e;
}
function fnOf(e) { return e && (ts.isArrowFunction(e) || ts.isFunctionExpression(e) || ts.isFunctionDeclaration(e) || ts.isMethodDeclaration(e)) ? e : null; }

function bind(env, name, t) {
	if (ts.isIdentifier(name)) { env[name.text] = t; return; }
	if (ts.isObjectBindingPattern(name)) for (const el of name.elements) {
		if (el.dotDotDotToken) continue;
		bind(env, el.name, ['get', t, (el.propertyName || el.name).text]);
	}
	if (ts.isArrayBindingPattern(name)) name.elements.forEach((el, i) => { if (ts.isBindingElement(el)) bind(env, el.name, ['get', t, String(i)]); });
}

function term(e, env) {
	e = unwrap(e);
	if (!e) return ['undefined'];
	if (++D > 60) { D--; return ['?', 'deep']; }
	try {
		if (ts.isStringLiteralLike(e)) return ['str', e.text];
		if (ts.isNumericLiteral(e)) return ['num', e.text];
		if (e.kind === K.ThisKeyword) return ['this'];
		if (ts.isIdentifier(e)) return e.text === 'undefined' ? ['undefined'] : Object.prototype.hasOwnProperty.call(env, e.text) ? env[e.text] : ['name', e.text];
		if (ts.isPropertyAccessExpression(e)) return ['get', term(e.expression, env), e.name.text];
		if (ts.isElementAccessExpression(e)) return ['get', term(e.expression, env), ts.isStringLiteralLike(e.argumentExpression) ? e.argumentExpression.text : ['idx', term(e.argumentExpression, env)]];
		if (ts.isTemplateExpression(e)) return ['cat', ['str', e.head.text], ...e.templateSpans.flatMap(s => [term(s.expression, env), ['str', s.literal.text]])];
		if (ts.isObjectLiteralExpression(e)) return ['obj', e.properties.map(p => ts.isPropertyAssignment(p) ? [p.name.text, term(p.initializer, env)] : ts.isShorthandPropertyAssignment(p) ? [p.name.text, term(p.name, env)] : ['...', ['?', 'spread']])];
		if (ts.isArrayLiteralExpression(e)) return ['arr', ...e.elements.map(x => term(x, env))];
		if (ts.isNewExpression(e)) return ['new', term(e.expression, env), ...(e.arguments || []).map(x => term(x, env))];
		if (fnOf(e)) return ['fn', e, env];
		if (ts.isCallExpression(e)) {
			const f = term(e.expression, env), args = e.arguments.map(x => term(x, env));
			if (f[0] === 'fn') return apply(f, args);
			return ['call', f, ...args.map(a => a[0] === 'fn' ? ['lambda', apply(a, [['item', e.pos], ['index']])] : a)];
		}
		if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return ['not', term(e.operand, env)];
		if (ts.isConditionalExpression(e)) return ['alt', term(e.whenTrue, env), term(e.whenFalse, env)];
		if (ts.isBinaryExpression(e)) return [e.operatorToken.kind === K.PlusToken ? 'cat' : 'op', ...(e.operatorToken.kind === K.PlusToken ? [] : [e.operatorToken.getText()]), term(e.left, env), term(e.right, env)];
		return ['?', K[e.kind]];
	} finally { D--; }
}

function apply(f, args) {
	const [, node, outer] = f, env = Object.create(outer);
	Object.assign(env, outer);
	node.parameters.forEach((p, i) => bind(env, p.name, args[i] || ['undefined']));
	if (!node.body) return ['?', 'no body'];
	if (!ts.isBlock(node.body)) return term(node.body, env);
	const rs = [];
	block(node.body, env, rs);
	return rs.length === 0 ? ['undefined'] : rs.length === 1 ? rs[0] : ['alt', ...rs];
}

function block(b, env, rs) {
	for (const s of b.statements || [b]) {
		if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) bind(env, d.name, term(d.initializer, env));
		else if (ts.isFunctionDeclaration(s) && s.name) env[s.name.text] = ['fn', s, env];
		else if (ts.isReturnStatement(s)) rs.push(term(s.expression, env));
		else if (ts.isIfStatement(s)) { block(s.thenStatement, env, rs); if (s.elseStatement) block(s.elseStatement, env, rs); }
		else if (ts.isBlock(s)) block(s, env, rs);
		else if (ts.isTryStatement(s)) { block(s.tryBlock, env, rs); if (s.catchClause) block(s.catchClause.block, env, rs); }
		else if (ts.isForOfStatement(s) && ts.isVariableDeclarationList(s.initializer)) {
			bind(env, s.initializer.declarations[0].name, ['each', term(s.expression, env)]);
			block(s.statement, env, rs);
		}
		else if (ts.isExpressionStatement(s)) {
			const e = unwrap(s.expression);
			if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken && ts.isIdentifier(e.left)) env[e.left.text] = term(e.right, env);
			else if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === 'push' && ts.isIdentifier(e.expression.expression)) {
				const n = e.expression.expression.text;
				env[n] = ['pushed', env[n] || ['name', n], ...e.arguments.map(x => term(x, env))];
			}
			else if (ts.isCallExpression(e)) {
				const f = term(e.expression, env);
				if (f[0] === 'fn') apply(f, e.arguments.map(x => term(x, env)));
			}
		}
	}
}

// ---- what happens, in order, when a function of a class is called: calls, assignments, tests
function trace(fn, args, cls, evs, loop, stack, consts) {
	const env = Object.assign({}, consts);
	fn.parameters.forEach((p, i) => bind(env, p.name, args[i] || ['undefined']));
	if (!fn.body) return ['?', 'no body'];
	const rs = [];
	const methodOf = t => t[0] === 'get' && t[1][0] === 'this' && typeof t[2] === 'string' ? cls[t[2]] : t[0] === 'fn' ? t[1] : null;
	const at = n => n.getSourceFile().getLineAndCharacterOfPosition(n.getStart()).line + 1;
	const effects = (e, lp) => {
		if (!e) return;
		e = unwrap(e);
		if (fnOf(e)) return;
		if (ts.isBinaryExpression(e) && e.operatorToken.kind >= K.FirstAssignment && e.operatorToken.kind <= K.LastAssignment) {
			effects(e.right, lp);
			let v = term(e.right, env);
			const l = term(e.left, env), k = e.operatorToken.kind;
			if (k === K.PlusEqualsToken) v = ['cat', l, v];
			else if (k === K.MinusEqualsToken) v = ['op', '-', l, v];
			else if (k !== K.EqualsToken) v = ['?', 'assign'];
			if (ts.isIdentifier(e.left)) env[e.left.text] = lp && k !== K.EqualsToken ? ['name', e.left.text] : v;
			evs.push({ op: 'set', place: clean(ts.isIdentifier(e.left) ? ['name', e.left.text] : l), val: clean(v), loop: lp, line: at(e) });
			return;
		}
		if (ts.isCallExpression(e)) {
			effects(e.expression, lp);
			e.arguments.forEach(a => effects(a, lp));
			const f = term(e.expression, env), as = e.arguments.map(a => term(a, env));
			const m = methodOf(f);
			if (m) { call(m, as, lp, e); return; }
			for (const a of as) {                       // a callback: setImmediate(this.m.bind(this)), forEach(x => ..)
				let g = methodOf(a);
				if (!g && a[0] === 'call' && a[1][0] === 'get' && a[1][2] === 'bind') g = methodOf(a[1][1]);
				if (g) call(g, [['item', e.pos]], lp, e, true);
			}
			evs.push({ op: 'call', fn: clean(f), args: clean(as), loop: lp, line: at(e) });
			return;
		}
		ts.forEachChild(e, c => { if (ts.isExpression(c)) effects(c, lp); else if (ts.isTemplateSpan(c)) effects(c.expression, lp); });
	};
	const call = (m, as, lp, e, later) => {
		if (stack.includes(m)) { evs.push({ op: 'again', loop: true, line: at(e), from: stack.length - stack.indexOf(m) }); return; }
		if (stack.length < 8) trace(m, as, cls, evs, lp, stack.concat([m]), consts);
	};
	const exits = n => !!n && (ts.isReturnStatement(n) || ts.isBreakStatement(n) || ts.isContinueStatement(n) || ts.isThrowStatement(n) || ts.isBlock(n) && n.statements.some(exits));
	const again = n => ts.isContinueStatement(n) || !!ts.forEachChild(n, c => again(c) || undefined);
	const leaves = n => ts.isBlock(n) ? n.statements.length > 0 && leaves(n.statements[n.statements.length - 1]) : ts.isReturnStatement(n) || ts.isBreakStatement(n) || ts.isThrowStatement(n);
	const repeats = (n, lp) => lp || !leaves(n) || again(n);
	const stmt = (s, lp) => {
		if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) { effects(d.initializer, lp); bind(env, d.name, s.declarationList.flags & ts.NodeFlags.Const || d.initializer ? term(d.initializer, env) : ['name', d.name.getText()]); }
		else if (ts.isFunctionDeclaration(s) && s.name) env[s.name.text] = ['fn', s, env];
		else if (ts.isExpressionStatement(s)) effects(s.expression, lp);
		else if (ts.isReturnStatement(s)) { effects(s.expression, lp); rs.push(term(s.expression, env)); }
		else if (ts.isBlock(s)) s.statements.forEach(x => stmt(x, lp));
		else if (ts.isIfStatement(s)) {
			effects(s.expression, lp);
			evs.push({ op: 'if', cond: clean(term(s.expression, env)), exit: exits(s.thenStatement), loop: lp, line: at(s) });
			stmt(s.thenStatement, lp);
			if (s.elseStatement) stmt(s.elseStatement, lp);
		}
		else if (ts.isWhileStatement(s) || ts.isDoStatement(s)) { const r = repeats(s.statement, lp); effects(s.expression, r); evs.push({ op: 'while', cond: clean(term(s.expression, env)), loop: r, line: at(s) }); stmt(s.statement, r); }
		else if (ts.isForStatement(s)) {
			if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) bind(env, d.name, ['name', d.name.getText()]); else effects(s.initializer, lp); }
			if (s.condition) evs.push({ op: 'while', cond: clean(term(s.condition, env)), loop: true, line: at(s) });
			stmt(s.statement, repeats(s.statement, lp));
			if (s.incrementor) effects(s.incrementor, true);
		}
		else if (ts.isForOfStatement(s) || ts.isForInStatement(s)) { effects(s.expression, lp); if (ts.isVariableDeclarationList(s.initializer)) bind(env, s.initializer.declarations[0].name, ['each', term(s.expression, env)]); stmt(s.statement, true); }
		else if (ts.isTryStatement(s)) { stmt(s.tryBlock, lp); if (s.catchClause) stmt(s.catchClause.block, lp); if (s.finallyBlock) stmt(s.finallyBlock, lp); }
		else if (ts.isSwitchStatement(s)) s.caseBlock.clauses.forEach(c => c.statements.forEach(x => stmt(x, lp)));
	};
	if (ts.isBlock(fn.body)) fn.body.statements.forEach(x => stmt(x, loop)); else effects(fn.body, loop);
	return rs.length === 1 ? rs[0] : ['?', 'returns'];
}

function clean(t) { return Array.isArray(t) ? t[0] === 'fn' ? ['fn'] : t.map(clean) : t; }

for (const path of process.argv.slice(3)) {
	const sf = ts.createSourceFile(path, fs.readFileSync(path, 'utf8'), ts.ScriptTarget.Latest, true);
	for (const d of sf.parseDiagnostics || []) out.errors.push(path + ': ' + ts.flattenDiagnosticMessageText(d.messageText, ' '));
	const env = {};
	for (const s of sf.statements) {
		if (ts.isFunctionDeclaration(s) && s.name) env[s.name.text] = ['fn', s, env];
		if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) if (s.declarationList.flags & ts.NodeFlags.Const && d.initializer) bind(env, d.name, term(d.initializer, env));
	}
	const classes = n => {
		if (ts.isClassDeclaration(n) || ts.isClassExpression(n)) {
			const cls = {};
			for (const m of n.members) if (m.name && (ts.isMethodDeclaration(m) || ts.isPropertyDeclaration(m) && fnOf(m.initializer))) cls[m.name.text] = ts.isMethodDeclaration(m) ? m : m.initializer;
			const look = (x, local) => {
				if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ['on', 'addListener'].includes(x.expression.name.text) && /stdin/.test(x.expression.expression.getText()) && x.arguments.length === 2 && ts.isStringLiteralLike(x.arguments[0]) && x.arguments[0].text === 'data') {
					let h = unwrap(x.arguments[1]), f = fnOf(h);
					if (!f && ts.isCallExpression(h) && ts.isPropertyAccessExpression(h.expression) && h.expression.name.text === 'bind') h = h.expression.expression;
					if (!f && ts.isPropertyAccessExpression(h) && h.expression.kind === K.ThisKeyword) f = cls[h.name.text];
					if (f) { const evs = []; trace(f, [['chunk']], cls, evs, false, [f], env); out.streams.push({ file: path, line: sf.getLineAndCharacterOfPosition(f.getStart()).line + 1, events: evs }); }
				}
				if (ts.isNewExpression(x) && x.arguments) for (const a of x.arguments) {
					let h = unwrap(a), f = fnOf(h);
					if (!f && ts.isCallExpression(h) && ts.isPropertyAccessExpression(h.expression) && h.expression.name.text === 'bind') h = h.expression.expression;
					if (!f && ts.isPropertyAccessExpression(h) && h.expression.kind === K.ThisKeyword) f = cls[h.name.text];
					if (f) { const evs = []; trace(f, [['message']], cls, evs, false, [f], env); out.writes.push({ file: path, line: sf.getLineAndCharacterOfPosition(f.getStart()).line + 1, events: evs }); }
				}
				ts.forEachChild(x, look);
			};
			look(n);
		}
		ts.forEachChild(n, classes);
	};
	classes(sf);
	const visit = (n, fn) => {
		if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
			const line = sf.getLineAndCharacterOfPosition(n.getStart()).line + 1, name = n.expression.name.text;
			if ((name === 'onRequest' || name === 'onNotification') && n.arguments.length === 2) {
				const local = Object.assign({}, env);
				const h = term(n.arguments[1], local);
				out.requests.push({ kind: name, file: path, line, method: clean(term(n.arguments[0], local)), answer: h[0] === 'fn' ? clean(apply(h, [['params']])) : null });
			}
			if (name === 'setP4AnalyzerHandlers' || name === 'start') out.calls.push({ name, on: n.expression.expression.getText(), file: path, line, pos: n.getStart(), fn: fn ? fn.pos : -1 });
		}
		ts.forEachChild(n, c => visit(c, fnOf(n) || fn));
	};
	visit(sf, null);
}
console.log(JSON.stringify(out));
