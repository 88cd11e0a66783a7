FE = 'crates/analyzer-abstractions/src/futures_extensions.rs'
AE = 'crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs'
JR = 'crates/analyzer-host/src/json_rpc.rs'
JM = 'crates/analyzer-host/src/json_rpc/message.rs'
LF = 'crates/analyzer-core/src/lsp_file.rs'
PR = 'crates/analyzer-core/src/parser.rs'
PH = '''use analyzer_core::parser::*;
type P = Parser<char>;
fn t(s: &str) -> Rule<char> { Rule::Terminal(s.chars().collect::<Vec<_>>().into()) }
fn v(s: &str) -> Vec<char> { s.chars().collect() }
'''
PP = 'crates/analyzer-core/src/preprocessor.rs'
CL = 'crates/analyzer-core/src/lib.rs'
LX = 'crates/analyzer-core/src/lexer.rs'
LI = 'crates/analyzer-host/src/lsp_impl/'
WS = 'crates/analyzer-host/src/lsp/workspace.rs'
RQ = 'crates/analyzer-host/src/lsp/request.rs'
PG = 'crates/analyzer-host/src/lsp/progress.rs'
TR = 'crates/analyzer-host/src/tracing.rs'
CORE = '''use analyzer_core::{base_abstractions::*, lexer::*, preprocessor::*, *};
fn analyzer() -> Analyzer { Analyzer::new(|_base: &str, path: &str| Ok(path.to_string()), |_| ()) }
fn out(a: &Analyzer, f: FileId) -> String {
	let mut s = String::new();
	for (_, t, _) in a.preprocessed(f).unwrap() { if let Token::Identifier(n) = t { s += n; s += " "; } }
	s.trim().to_string()
}
fn pp(text: &str) -> String { let mut a = analyzer(); let f = a.file_id("main.p4"); a.update(f, &text.to_string()); out(&a, f) }
'''
HOST = '''use analyzer_abstractions::{fs::EnumerableFileSystem, lsp_types::{TextDocumentIdentifier, Url}, BoxFuture};
use analyzer_host::{json_rpc::message::Message, AnalyzerHost};
use async_channel::{unbounded, Receiver, Sender};
use serde_json::{json, Value};
use std::{sync::{Arc, Mutex}, thread, time::{Duration, Instant}};
/// the files of the file system: address, contents, and how many milliseconds reading them takes
type Files = Arc<Mutex<Vec<(String, Option<String>, u64)>>>;
struct Fs(Files);
async fn pause(ms: u64) {
	if ms == 0 { return }
	let (s, r) = unbounded::<()>();
	thread::spawn(move || { thread::sleep(Duration::from_millis(ms)); drop(s) });
	let _ = r.recv().await;
}
impl EnumerableFileSystem for Fs {
	fn enumerate_folder<'a>(&'a self, u: Url, _: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let v = self.0.lock().unwrap().iter().filter(|f| f.0.starts_with(u.as_str())).map(|f| TextDocumentIdentifier { uri: Url::parse(&f.0).unwrap() }).collect();
		Box::pin(async move { v })
	}
	fn file_contents<'a>(&'a self, u: Url) -> BoxFuture<'a, Option<String>> {
		let v = self.0.lock().unwrap().iter().find(|f| f.0 == u.as_str()).map(|f| (f.1.clone(), f.2));
		Box::pin(async move { let (text, ms) = v?; pause(ms).await; text })
	}
}
struct Client { to: Sender<Message>, from: Receiver<Message>, seen: Vec<Value>, id: i32 }
impl Client {
	fn start(files: &Files) -> Client {
		let ((to, inp), (outp, from)) = (unbounded(), unbounded());
		let fs: Box<dyn EnumerableFileSystem + Send + Sync + 'static> = Box::new(Fs(files.clone()));
		let fs = Arc::new(fs);
		thread::spawn(move || {
			let host = AnalyzerHost::new((outp, inp), None, Some(fs));
			let _ = futures::executor::block_on(host.start(cancellation::CancellationTokenSource::new().token().clone()));
		});
		Client { to, from, seen: vec![], id: 100 }
	}
	fn send(&self, v: Value) {
		let t = v.to_string();
		let t = format!("Content-Length: {}\\r\\n\\r\\n{}", t.len(), t);
		let _ = self.to.send_blocking(Message::read(&mut t.as_bytes()).unwrap().unwrap());
	}
	fn recv(&mut self, ms: u64) -> Option<Value> {
		let end = Instant::now() + Duration::from_millis(ms);
		while Instant::now() < end {
			if let Ok(m) = self.from.try_recv() {
				let mut b = vec![];
				m.write(&mut b).unwrap();
				let s = String::from_utf8(b).unwrap();
				let v: Value = serde_json::from_str(s.split_once("\\r\\n\\r\\n").unwrap().1).unwrap();
				self.seen.push(v.clone());
				if v.get("method").is_some() && v.get("id").is_some() { self.send(json!({"jsonrpc": "2.0", "id": v["id"], "result": null})); }
				return Some(v);
			}
			thread::sleep(Duration::from_millis(2));
		}
		None
	}
	/// the response to a request, if there is one within ten seconds
	fn ask(&mut self, method: &str, params: Value) -> Option<Value> {
		self.id += 1;
		let id = self.id;
		self.send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
		loop {
			let v = self.recv(10000)?;
			if v.get("method").is_none() && v["id"] == json!(id) { return Some(v); }
		}
	}
	fn tell(&self, method: &str, params: Value) { self.send(json!({"jsonrpc": "2.0", "method": method, "params": params})); }
	fn init(&mut self, params: Value) -> Option<Value> {
		let r = self.ask("initialize", params);
		self.tell("initialized", json!({}));
		r
	}
	fn open(&self, uri: &str, text: &str) { self.tell("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": text}})); }
	/// the names the server completes in a document, sorted; none if it does not answer
	fn names(&mut self, uri: &str) -> Option<Vec<String>> {
		let r = self.ask("textDocument/completion", json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}))?;
		let r = &r["result"];
		let l = r.get("items").unwrap_or(r).as_array()?.iter().map(|x| x["label"].as_str().unwrap().to_string());
		let mut v: Vec<String> = l.collect();
		v.sort();
		Some(v)
	}
}
fn files(v: &[(&str, &str, u64)]) -> Files { Arc::new(Mutex::new(v.iter().map(|f| (f.0.to_string(), Some(f.1.to_string()), f.2)).collect())) }
'''
ADAPTER_SH = """#!/bin/bash
# runs the adapter with stand-ins for the WASM server, standard input and standard output
set -e
node "$(dirname "$0")/demo.js" "$PWD/packages/p4-analyzer/src/server/index.ts"
"""
ADAPTER_JS = r"""const ts = require('/opt/veriftools/node/node_modules/typescript'), fs = require('fs'), { EventEmitter } = require('events');
const got = [], out = [];
class LspServer { constructor(f) { this.f = f; } start() {} stop() {} async sendRequest(b) { got.push(Buffer.from(b).toString()); } }
const stand = { stdin: Object.assign(new EventEmitter(), { pause() { return this; }, resume() { return this; }, setEncoding() { return this; } }), stdout: { pause() {}, write: x => { out.push(Buffer.from(x)); return true; } }, stderr: { write: () => true }, on: () => stand, env: {} };
let server = null;
const get = n => n.includes('wasm') ? { LspServer: class extends LspServer { constructor(f) { super(f); server = this; } } } : require(n);
const m = { exports: {} };
new Function('require', 'exports', 'module', 'process', ts.transpile(fs.readFileSync(process.argv[2], 'utf8'), { module: 1, target: 9, esModuleInterop: true }))(get, m.exports, m, stand);
const frame = s => `Content-Length: ${Buffer.byteLength(s)}\r\n\r\n${s}`;
(async () => {
	await new m.exports.default().start();
	const sent = ['{"id":1}', '{"text":"a\u00e9\u20acb"}', '{"id":3}'];
	stand.stdin.emit('data', Buffer.from(sent.map(frame).join('')));
	for (let i = 0; i < 20; i++) await new Promise(r => setImmediate(r));
	server.f(Buffer.from('{"answer":"a\u00e9\u20acb"}'));
	server.f(Buffer.from('{}'));
	const want = frame('{"answer":"a\u00e9\u20acb"}') + frame('{}');
	if (JSON.stringify(got) !== JSON.stringify(sent)) { console.log('received', got); process.exit(1); }
	if (Buffer.concat(out).toString() !== want) { console.log('written', Buffer.concat(out).toString()); process.exit(1); }
})().catch(e => { console.log(e); process.exit(1); });
"""
SEEDS = [
 dict(id='s01-chars-length', prop='C05', needs='a message whose JSON text contains a character outside ASCII', breaks='the declared Content-Length counts characters, so the reader stops short and loses the frame boundary',
  edits=[(JR, 'msg.len())?', 'msg.chars().count())?')], deps=['host', 'serde_json = "1"'],
  rs='''use analyzer_host::json_rpc::message::*;
fn main() {
	let m = Message::Notification(Notification::new("window/logMessage", "d\\u{e9}j\\u{e0} vu"));
	let mut v = Vec::new();
	m.write(&mut v).unwrap();
	let s = String::from_utf8(v).unwrap();
	let (h, b) = s.split_once("\\r\\n\\r\\n").unwrap();
	let n: usize = h.strip_prefix("Content-Length: ").unwrap().parse().unwrap();
	assert_eq!(n, b.len());
}
'''),
 dict(id='s02-short-read', prop='C06', needs='a stream that delivers the content in more than one chunk', breaks='the content is taken with a single read: the rest of it stays in the stream and is taken for the next header',
  edits=[(JR, 'inp.read_exact(&mut buf)?;', 'let n = inp.read(&mut buf)?;\n\tif n == 0 && size > 0 {\n\t\treturn Ok(None);\n\t}')], deps=['host', 'serde_json = "1"'],
  rs='''use analyzer_host::json_rpc::message::*;
use std::io::*;
struct Chunks(Vec<u8>, usize);
impl Read for Chunks { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = b.len().min(7).min(self.0.len() - self.1); b[..n].copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; Ok(n) } }
impl BufRead for Chunks { fn fill_buf(&mut self) -> Result<&[u8]> { let e = (self.1 + 7).min(self.0.len()); Ok(&self.0[self.1..e]) } fn consume(&mut self, n: usize) { self.1 += n } }
fn main() {
	let mut v = Vec::new();
	Message::Notification(Notification::new("one", "some content")).write(&mut v).unwrap();
	Message::Notification(Notification::new("two", "more content")).write(&mut v).unwrap();
	let mut c = Chunks(v, 0);
	for name in ["one", "two"] {
		match Message::read(&mut c).unwrap().unwrap() { Message::Notification(n) => assert_eq!(n.method, name), _ => panic!() }
	}
	assert!(Message::read(&mut c).unwrap().is_none());
}
'''),
 dict(id='s03-notify-one-err', prop='C02', needs='two consumers waiting when the source is completed with an error', breaks='an error wakes only one waiting consumer; the others sleep for ever',
  edits=[(FE, '		writer.replace(result);\n', '		let waiters = if result.is_ok() { usize::MAX } else { 1 };\n		writer.replace(result);\n'), (FE, 'self.state.on_completed.notify(usize::MAX)', 'self.state.on_completed.notify(waiters)')], deps=['abs', 'futures = "0.3"'],
  rs='''use analyzer_abstractions::futures_extensions::FutureCompletionSource;
use futures::{executor::LocalPool, task::LocalSpawnExt};
use std::{cell::Cell, rc::Rc};
fn main() {
	let s: FutureCompletionSource<i32, i32> = FutureCompletionSource::new();
	let mut pool = LocalPool::new();
	let n = Rc::new(Cell::new(0));
	for _ in 0..3 {
		let (s, n) = (s.clone(), n.clone());
		pool.spawner().spawn_local(async move { s.future().await.unwrap_err(); n.set(n.get() + 1); std::future::pending::<()>().await }).unwrap();
	}
	pool.run_until_stalled();
	s.set_err(7).unwrap();
	pool.run_until_stalled();
	assert_eq!(n.get(), 3);
}
'''),
 dict(id='s04-wake-in-poll', prop='C03', needs='a task that wakes itself from inside its own poll', breaks='a wake-up that arrives while the slot is locked, that is during the poll, is dropped and the task never runs again',
  edits=[(AE, 'if arc_self.sender.is_closed() {', 'if arc_self.sender.is_closed() || arc_self.future.try_lock().is_err() {')], deps=['abs', 'futures = "0.3"', 'cancellation = "0.1"'],
  rs='''use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use std::{future::Future, pin::Pin, sync::{atomic::*, Arc}, task::*};
struct Yield(bool);
impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; c.waker().wake_by_ref(); Poll::Pending } } }
fn main() {
	let done = Arc::new(AtomicBool::new(false));
	let (d, t) = (done.clone(), std::thread::spawn(|| std::thread::sleep(std::time::Duration::from_secs(20))));
	AsyncPool::spawn_work(async move { Yield(false).await; d.store(true, Ordering::SeqCst); AsyncPool::stop(); });
	let src = cancellation::CancellationTokenSource::new();
	let tok = src.token().clone();
	let mut pool = futures::executor::LocalPool::new();
	let _ = futures::task::LocalSpawnExt::spawn_local(&pool.spawner(), async move { let _ = AsyncPool::start(tok).await; });
	pool.run_until_stalled();
	drop(t);
	assert!(done.load(Ordering::SeqCst), "the task was never polled again");
}
'''),
 dict(id='s05-flag-before-check', prop='C01', needs='a second completion after the first', breaks='a refused completion still replaces the stored outcome',
  edits=[(FE, '		if completed {\n			return Err(FutureCompletionSourceError::Invalid);\n		}\n', '		let previous = writer.take();\n\n		if completed && previous.map_or(true, |value| value.is_ok() || result.is_err()) {\n			*writer = Some(result);\n			return Err(FutureCompletionSourceError::Invalid);\n		}\n')], deps=['abs'],
  rs='''use analyzer_abstractions::futures_extensions::FutureCompletionSource;
fn main() {
	let s: FutureCompletionSource<i32, i32> = FutureCompletionSource::new();
	s.set_value(1).unwrap();
	assert!(s.set_err(2).is_err());
	assert_eq!(s.state(), std::task::Poll::Ready(Ok(1)));
}
'''),
 dict(id='s06-notification-first', prop='C07', needs='a request or response read back after being written', breaks='the notification alternative is tried before the request one and accepts every request',
  edits=[(JM, '	Request(Request),\n	Response(Response),\n	Notification(Notification),', '	Response(Response),\n	Notification(Notification),\n	Request(Request),')], deps=['host', 'serde_json = "1"'],
  rs='''use analyzer_host::json_rpc::message::*;
fn main() {
	let mut v = Vec::new();
	Message::Request(Request::new(5.into(), "initialize".to_string(), 1)).write(&mut v).unwrap();
	assert!(matches!(Message::read(&mut &v[..]).unwrap(), Some(Message::Request(_))));
}
'''),
 dict(id='s07-null-result', prop='C08', needs='a response whose result is the JSON null', breaks='a null result is omitted: the response carries neither a result nor an error',
  edits=[(JR, 'Response { id, result: Some(serde_json::to_value(data).unwrap()), error: None }', 'Response { id, result: Some(serde_json::to_value(data).unwrap()).filter(|value| !value.is_null()), error: None }')], deps=['host', 'serde_json = "1"'],
  rs='''use analyzer_host::json_rpc::message::*;
fn main() {
	let r = Response::new(5.into(), ());
	assert!(r.result.is_some() != r.error.is_some());
}
'''),
 dict(id='s08-line-bytes', prop='C09', needs='a line with a multi-byte character', breaks='the number of characters of a line is reported in bytes',
  edits=[(LF, 'slice.chars().count()\n', 'slice.len()\n')], deps=['core'],
  rs="""use analyzer_core::lsp_file::*;
fn main() {
	let f = LspFile::new(&"h\\u{e9}llo\\nx".to_string());
	assert_eq!(f.line_char(0), 6);
	assert_eq!(f.line_char(1), 1);
}
"""),
 dict(id='s10-large-paste', prop='C10', needs='a paste more than sixteen times as long as the document', breaks='a large insertion replaces the whole document',
  edits=[(LF, 'changes.range.is_none() || self.ranges.is_empty()', 'changes.range.is_none() || self.ranges.is_empty() || changes.text.len() > self.file.len() * 16')], deps=['core'],
  rs="""use analyzer_core::lsp_file::*;
fn main() {
	let mut f = LspFile::new(&"ab".to_string());
	f.lazy_add(&ChangeEvent { range: Some(Range::new(Position::new(0, 1), Position::new(0, 1))), text: "x".repeat(100) });
	assert_eq!(f.get_file_content().len(), 102);
}
"""),
 dict(id='s11-separators', prop='C10', needs='a text with a U+2028 line separator', breaks='the line table breaks a line that the editor does not',
  edits=[(LF, "if c == '\\n' {\n				result.push", "if matches!(c, '\\n' | '\\u{2028}') {\n				result.push")], deps=['core'],
  rs="""use analyzer_core::lsp_file::*;
fn main() {
	let f = LspFile::new(&"a\\u{2028}b\\nc\\n".to_string());
	assert_eq!(f.get_ranges().len(), 2);
	assert_eq!(f.lsp_to_byte(&Position::new(1, 0)), 6);
}
"""),

 dict(id='s12-negation-unchecked', prop='C11', needs='a grammar whose only reference to an undefined rule is in a negation', breaks='the reference of a negation is not validated: the parser is built and panics when the rule is looked up',
  edits=[(PR, 'Rule::Not(rule) => vec![*rule],', 'Rule::Not(_) => vec![],')], deps=['core'],
  rs=PH + """fn main() {
	let g = [("start", Rule::Sequence(vec!["n", "a"])), ("a", t("a")), ("n", Rule::Not("missing"))];
	assert!(P::from_rules(&g).is_err());
}
"""),
 dict(id='s14-negation-consumes', prop='C12', needs='a negated rule that fails after consuming tokens', breaks='a negation that holds leaves the position where the negated rule failed',
  edits=[(PR, '				} else {\n					self.pos = orig_pos;\n					Some(Cst::Not(rule).into())', '				} else {\n					Some(Cst::Not(rule).into())')], deps=['core'],
  rs=PH + """fn main() {
	let g = [("start", Rule::Sequence(vec!["n", "ac"])), ("n", Rule::Not("ab")), ("ab", Rule::Sequence(vec!["a", "b"])), ("ac", Rule::Sequence(vec!["a", "c"])), ("a", t("a")), ("b", t("b")), ("c", t("c"))];
	assert!(P::from_rules(&g).unwrap()(v("ac").into())._match().is_some());
}
"""),
 dict(id='s15-lookahead-forgotten', prop='C13', needs='a rule that reuses a memoised match with look-ahead, and an edit of the looked-ahead token', breaks='a reused match passes on only what it matched, not what it looked ahead at: the rules built on it survive an edit of the looked-ahead token',
  edits=[(PR, """				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);

				entry.existing_match.clone().map(|m| {
""", """				let seen = entry.existing_match.as_ref().map_or(entry.examined_length, |m| m.match_length);
				self.max_examined_pos = self.max_examined_pos.max((self.pos + seen) as isize - 1);

				entry.existing_match.clone().map(|m| {
""")], deps=['core'],
  rs=PH + """fn main() {
	// x = a !b is evaluated by the choice "p" (which fails), then reused by "v"
	let g = [("start", Rule::Choice(vec!["p", "q"])), ("p", Rule::Sequence(vec!["x", "z"])), ("q", Rule::Sequence(vec!["v", "any"])), ("v", Rule::Sequence(vec!["x"])),
		("x", Rule::Sequence(vec!["a", "nb"])), ("nb", Rule::Not("b")), ("any", Rule::Choice(vec!["b", "c"])), ("a", t("a")), ("b", t("b")), ("c", t("c")), ("z", t("z"))];
	let mut p = P::from_rules(&g).unwrap()(v("ac").into());
	assert!(p._match().is_some());
	p.apply_edit(1..2, &['b']);
	assert_eq!(p._match(), P::from_rules(&g).unwrap()(v("ab").into())._match());
}
"""),
 dict(id='s16-column-maximum', prop='C13', needs='two edits: the first drops some entries of a column and keeps one with look-ahead, the second reaches into the look-ahead', breaks='after an edit the maximum of a column covers the matches of the kept entries but not their look-ahead, so a later edit skips the column',
  edits=[(PR, """				} else if entry.examined_length > new_max {
					new_max = entry.examined_length;
""", """				} else {
					let seen = entry.existing_match.as_ref().map_or(entry.examined_length, |m| m.match_length);
					new_max = seen.max(new_max);
""")], deps=['core'],
  rs=PH + """fn main() {
	let g = [("start", Rule::Sequence(vec!["x", "any", "y", "y"])), ("x", Rule::Sequence(vec!["a", "nb"])), ("nb", Rule::Not("b")), ("any", Rule::Choice(vec!["b", "c"])),
		("a", t("a")), ("b", t("b")), ("c", t("c")), ("y", t("y"))];
	let mut p = P::from_rules(&g).unwrap()(v("acyy").into());
	assert!(p._match().is_some());
	p.apply_edit(2..3, &['y']);
	p.apply_edit(1..2, &['b']);
	assert_eq!(p._match(), P::from_rules(&g).unwrap()(v("abyy").into())._match());
}
"""),
 dict(id='s09-empty-range', prop='C09', needs='an empty byte range', breaks='an empty byte range becomes a range that covers a character',
  edits=[(LF, 'self.byte_to_lsp(byte_range.end);', 'self.byte_to_lsp(byte_range.end.max(byte_range.start + 1));')], deps=['core'],
  rs="""use analyzer_core::lsp_file::*;
fn main() {
	let f = LspFile::new(&"one\\ntwo\\n".to_string());
	let r = f.byte_range_to_lsp_range(&(2..2));
	assert_eq!(r.start, r.end);
}
"""),
 dict(id='s13-short-terminal', prop='C13', needs='a terminal of several tokens that does not fit before the end of the input, in a rule that matches all the same, then an insertion at the end', breaks='a terminal that cannot fit fails without having examined the end of the input: the match of the rule built on it survives an insertion there',
  edits=[(PR, '				for tk in vec.iter() {\n', '				if self.pos < self.input.len() && self.input.len() - self.pos < vec.len() {\n					return None;\n				}\n\n				for tk in vec.iter() {\n')], deps=['core'],
  rs=PH + """fn main() {
	let g = [("start", Rule::Sequence(vec!["r", "tail"])), ("r", Rule::Repetition("ab")), ("ab", t("ab")), ("tail", Rule::Choice(vec!["a", "e"])), ("a", t("a")), ("e", t(""))];
	let mut p = P::from_rules(&g).unwrap()(v("aba").into());
	assert!(p._match().is_some());
	p.apply_edit(3..3, &['b']);
	assert_eq!(p._match(), P::from_rules(&g).unwrap()(v("abab").into())._match());
}
"""),
 dict(id='s17-negation-at-end', prop='C12', needs='a negation, at the end of the input, of a rule that matches nothing', breaks='a negation at the end of the input holds whatever it negates',
  edits=[(PR, 'if self.memoized_eval_rule(rule).is_some() {\n					None', 'if self.pos < self.input.len() && self.memoized_eval_rule(rule).is_some() {\n					None')], deps=['core'],
  rs=PH + """fn main() {
	let g = [("start", Rule::Sequence(vec!["a", "n"])), ("a", t("a")), ("n", Rule::Not("e")), ("e", t(""))];
	assert!(P::from_rules(&g).unwrap()(v("a").into())._match().is_none());
}
"""),
 dict(id='s19-elif-forgets', prop='C18', full=1, needs='an #if that holds, followed by an #elif that does not, followed by an #else', breaks='an #elif that does not hold forgets that an earlier branch was taken, so that the #else is kept as well',
  edits=[(PP, 'branches, already_processed || include_body)', 'branches, include_body)')],
  rs=CORE + """fn main() {
	assert_eq!(pp("#if 1\\na\\n#elif 0\\nb\\n#else\\nc\\n#endif\\n"), "a");
}
"""),
 dict(id='s20-errors-of-includes', prop='C19', full=1, needs='a file that includes another file in which there is an error', breaks='an error of the preprocessor in an included file is reported as one of the file that includes it',
  edits=[(CL, 'for ((file, location), msg) in pp.errors {\n\t\tDiagnostics::push(db, Diagnostic { file, location,', 'for ((_, location), msg) in pp.errors {\n\t\tDiagnostics::push(db, Diagnostic { file: file_id, location,')],
  rs=CORE + """fn main() {
	let mut a = analyzer();
	let (m, h) = (a.file_id("m"), a.file_id("h"));
	a.update(h, &"x\\n#endif\\n".to_string());
	a.update(m, &"#include \\"h\\"\\ny\\n".to_string());
	assert_eq!(out(&a, m), "x y");
	let d = a.diagnostics(m);
	assert!(d.iter().any(|d| d.message.contains("endif")));
	assert!(d.iter().filter(|d| d.message.contains("endif")).all(|d| d.file == h));
}
"""),
 dict(id='s21-prefix-operator', prop='C20', full=1, needs='a condition with ">=" that does not hold', breaks='">" is tried before ">=", so that the condition ends behind its left operand',
  edits=[(PP, '(">=", GreaterOrEqual), (">", GreaterThan)', '(">", GreaterThan), (">=", GreaterOrEqual)')],
  rs=CORE + """fn main() {
	for (l, r) in [(1, 2), (2, 2), (3, 2)] { assert_eq!(pp(&format!("#if {l} >= {r}\\na\\n#else\\nb\\n#endif\\n")), if l >= r { "a" } else { "b" }); }
}
"""),
 dict(id='s22-asterisks', prop='C21', full=1, needs='a block comment that ends with an even number of asterisks', breaks='two asterisks before the slash cancel each other, so that the comment goes on',
  edits=[(LX, "Some('*') => asterisk = true,", "Some('*') => asterisk = !asterisk,")],
  rs=CORE + """fn main() {
	assert_eq!(pp("/* a */ x /** b ***/ y\\n/*** c **/ z\\n/**/ w"), "x y z w");
}
"""),
 dict(id='s23-file-gone-again', prop='C22', full=1, needs='a file that is reported as changed and is gone when it is read', breaks='the server panics when a changed file cannot be read any more',
  edits=[(LI + 'active_initialized.rs', 'file_contents(uri.clone()).await.unwrap_or_default();', 'file_contents(uri.clone()).await.unwrap();')],
  rs=HOST + """fn main() {
	let fs = files(&[("file:///w/a.p4", "aa", 0)]);
	let mut c = Client::start(&fs);
	c.init(json!({"capabilities": {}})).unwrap();
	assert_eq!(c.names("file:///w/a.p4"), Some(vec!["aa".to_string()]));
	fs.lock().unwrap()[0].1 = None;
	c.tell("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": "file:///w/a.p4", "type": 2}]}));
	assert!(c.names("file:///w/a.p4").is_some());
}
"""),
 dict(id='s24-progress-unasked', prop='C23', full=1, needs='a client with workspace folders that says something about windows, but nothing about progress', breaks='progress is reported to a client that does not support it',
  edits=[(LI + 'active_uninitialized.rs', 'value.work_done_progress.map_or(false, |value| value)', 'value.work_done_progress.map_or(true, |value| value)')],
  rs=HOST + """fn main() {
	let fs = files(&[("file:///w/a.p4", "aa", 0)]);
	for (window, want) in [(json!({}), false), (json!({"workDoneProgress": false}), false), (json!({"workDoneProgress": true}), true)] {
		let mut c = Client::start(&fs);
		c.init(json!({"capabilities": {"window": window, "workspace": {"didChangeWatchedFiles": {"dynamicRegistration": true}}}, "workspaceFolders": [{"uri": "file:///w/", "name": "w"}]})).unwrap();
		while c.recv(1500).is_some() {}
		assert_eq!(c.seen.iter().any(|v| v["method"] == "window/workDoneProgress/create"), want);
	}
}
"""),
 dict(id='s25-changes-reversed', prop='C24', full=1, needs='a change notification with two changes that depend on their order', breaks='the changes of one notification are made last to first',
  edits=[(LI + 'active_initialized.rs', '\t\t.content_changes\n\t\t.into_iter()\n', '\t\t.content_changes\n\t\t.into_iter()\n\t\t.rev()\n')],
  rs=HOST + """fn main() {
	let mut c = Client::start(&files(&[]));
	c.init(json!({"capabilities": {}})).unwrap();
	c.open("file:///a.p4", "aa");
	let at = |n: i32| json!({"start": {"line": 0, "character": n}, "end": {"line": 0, "character": n}});
	c.tell("textDocument/didChange", json!({"textDocument": {"uri": "file:///a.p4", "version": 2}, "contentChanges": [{"range": at(0), "text": "x "}, {"range": at(2), "text": "y"}]}));
	assert_eq!(c.names("file:///a.p4"), Some(vec!["x".to_string(), "yaa".to_string()]));
}
"""),
 dict(id='s26-lock-while-loading', prop='C25', full=1, needs='a request for a file that is still being loaded', breaks='the lock of a file is held while its contents are awaited, so that whoever brings them panics',
  edits=[(WS, '\t\tdrop(state);\n\n\t\tmatch parsed_unit.future().await {', '\t\tmatch parsed_unit.future().await {')],
  rs=HOST + """fn main() {
	let mut c = Client::start(&files(&[("file:///w/a.p4", "aa", 700)]));
	c.init(json!({"capabilities": {}})).unwrap();
	assert_eq!(c.names("file:///w/a.p4"), Some(vec!["aa".to_string()]));
}
"""),
 dict(id='s27-details-unasked', prop='C26', full=1, needs='a client that wants traces without details', breaks='the details of a trace are sent also when only messages were asked for',
  edits=[(TR, 'if *trace_value == TraceValue::Verbose {', 'if *trace_value != TraceValue::Off {')],
  rs="""use analyzer_abstractions::{lsp_types::TraceValue, tracing::{info, subscriber}};
use analyzer_host::{json_rpc::message::Message, tracing::{tracing_subscriber::{layer::SubscriberExt, Registry}, LspTracingLayer}};
fn main() {
	let ch = async_channel::unbounded::<Message>();
	let layer = LspTracingLayer::new(ch.clone());
	let level = layer.trace_value();
	subscriber::with_default(Registry::default().with(layer), || {
		info!(detail = 1, "off");
		level.set(TraceValue::Messages);
		info!(detail = 2, "messages");
		level.set(TraceValue::Verbose);
		info!(detail = 3, "verbose");
	});
	let mut got = vec![];
	while let Ok(Message::Notification(n)) = ch.1.try_recv() { got.push((n.params["message"].as_str().unwrap().to_string(), n.params.get("verbose").map_or(false, |v| !v.is_null()))); }
	assert_eq!(got, vec![("messages".to_string(), false), ("verbose".to_string(), true)]);
}
"""),
 dict(id='s28-latin1', prop='C30', needs='a file with a character outside ASCII', breaks='the extension reads files as Latin-1: every other character of the text differs from the file',
  edits=[('packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts', 'encoding: "utf-8"', 'encoding: "latin1"')],
  sh="""#!/bin/bash
# runs the handlers of the extension with a stand-in of the vscode module
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/p4demo.XXXXXX)
trap 'rm -r "$d"' EXIT
printf 'a\\xc3\\xa9\\xe2\\x82\\xacb' > "$d/x.p4"
node "$here/demo.js" "$PWD/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts" "$d/x.p4"
""",
  extra={'demo.js': """const ts = require('/opt/veriftools/node/node_modules/typescript'), fs = require('fs'), M = require('module'), path = require('path'), url = require('url');
const uri = s => ({ toString: () => s, scheme: 'file', fsPath: url.fileURLToPath(s), path: url.fileURLToPath(s) });
class RelativePattern { constructor(b, p) { this.base = b; this.pattern = p; } }
const vscode = { Uri: { parse: uri, file: f => uri(url.pathToFileURL(f).toString()) }, RelativePattern, workspace: { getWorkspaceFolder: u => ({ uri: u, name: 'w', index: 0 }), findFiles: async () => [], fs: { readFile: async u => new Uint8Array(fs.readFileSync(u.fsPath)) } } };
const handlers = {};
class BaseLanguageClient { onRequest(m, f) { handlers[m] = f; } }
const load = M._load;
function get(n, from) {
	if (n === 'vscode') return vscode;
	if (n.startsWith('vscode-languageclient')) return { BaseLanguageClient, TextDocumentIdentifier: { create: u => ({ uri: u }) } };
	if (n.startsWith('.')) return run(path.resolve(path.dirname(from), n.replace(/\\.(ts|js)$/, '') + '.ts'));
	return load(n, module);
}
function run(f) {
	const m = { exports: {} };
	new Function('require', 'exports', 'module', ts.transpile(fs.readFileSync(f, 'utf8'), { module: 1, target: 9, esModuleInterop: true }))(n => get(n, f), m.exports, m);
	return m.exports;
}
run(process.argv[2]);
new BaseLanguageClient().setP4AnalyzerHandlers();
handlers['p4analyzer/fileContents']({ uri: url.pathToFileURL(process.argv[3]).toString() }).then(t => {
	if (t !== 'a\\u00e9\\u20acb') { console.log('answered', JSON.stringify(t)); process.exit(1); }
}, e => { console.log(e); process.exit(1); });
"""}),
 dict(id='s29-id-of-count', prop='C29', needs='a file that lies in two workspaces, or any entry that is not the document of a new file', breaks='the id of a document is the number of known files, which another entry may already have',
  edits=[('crates/lsif-p4/src/lsif_writer.rs', "\t\tlet new_id = self.get_id();\n\t\tlet id = Self::i32_to_enum(new_id);\n\n\t\tlet vertex = Entry {\n\t\t\tid,\n\t\t\tdata: Element::Vertex(Vertex::Document", "\t\tlet new_id = self.data.files.len() as i32;\n\t\tself.id = self.id.max(new_id + 1);\n\t\tlet id = Self::i32_to_enum(new_id);\n\n\t\tlet vertex = Entry {\n\t\t\tid,\n\t\t\tdata: Element::Vertex(Vertex::Document")],
  sh="""#!/bin/bash
# builds the writer of /repo with a stand-in for the command line flags and writes a dump
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/p4demo.XXXXXX)
trap 'rm -r "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUSTC_WRAPPER=
mkdir -p "$d/demo/src" "$d/out"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cp "$repo/crates/lsif-p4/src/lsif_writer.rs" "$d/demo/src/"
cp "$repo/Cargo.lock" "$d/demo/Cargo.lock"
V=$(awk '/^name = "lsp-types"$/{getline; gsub(/[^0-9.]/,""); print; exit}' "$repo/Cargo.lock")
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
lsp-types = "=$V"
serde_json = "1"
url = "2"
[workspace]
T
cd "$d/demo"
timeout 280 cargo build --offline --quiet
"$d/target/debug/demo" "$d/out"
""",
  extra={'demo.rs': """#![allow(warnings)]
mod flags {
	use std::path::PathBuf;
	#[derive(Debug)]
	pub struct LsifP4Cmd { pub header_files: PathBuf, pub workspace: Option<PathBuf>, pub filename: Option<String>, pub output: Option<PathBuf>, pub version: bool }
}
mod lsif_writer;
use std::{collections::HashSet, path::PathBuf, sync::Arc};
fn main() {
	let out = PathBuf::from(std::env::args().nth(1).unwrap());
	let cmd = flags::LsifP4Cmd { header_files: out.clone(), workspace: None, filename: Some("d".into()), output: Some(out.clone()), version: false };
	let mut w = lsif_writer::LsifWriter::new(Arc::new(cmd));
	for u in ["file:///a", "file:///b", "file:///a", "file:///c"] { w.document(&lsp_types::Url::parse(u).unwrap()); }
	w.write_file_to_disk();
	let text = std::fs::read_to_string(out.join("d.lsif")).unwrap();
	let mut ids = HashSet::new();
	for l in text.lines() { assert!(ids.insert(serde_json::from_str::<serde_json::Value>(l).unwrap()["id"].to_string()), "id used twice: {l}"); }
	assert_eq!(ids.len(), 4);
}
"""}),

 dict(id='s30-last-first', prop='C31', needs='one chunk of standard input that holds several messages', breaks='the messages of a chunk are handled in reverse order: edits of a document are applied last first',
  edits=[('packages/p4-analyzer/src/server/index.ts', 'requestMessageBufferQueue.shift()', 'requestMessageBufferQueue.pop()')],
  sh=ADAPTER_SH, extra={'demo.js': ADAPTER_JS}),
 dict(id='s31-length-in-characters', prop='C31', needs='an answer with a character outside ASCII', breaks='the announced length of an answer counts characters: the client cuts the answer short and is out of step from there on',
  edits=[('packages/p4-analyzer/src/server/index.ts', '${message.byteLength}', '${message.toString().length}')],
  sh=ADAPTER_SH, extra={'demo.js': ADAPTER_JS}),
]
