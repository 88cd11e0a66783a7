FE = 'crates/analyzer-abstractions/src/futures_extensions.rs'
AE = 'crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs'
JR = 'crates/analyzer-host/src/json_rpc.rs'
JM = 'crates/analyzer-host/src/json_rpc/message.rs'
TRUST = ' Assumes the models of std and of the third-party crates in lib/models.py and the rules in %s; sequentially consistent atomics; unwinding out of a panic is not followed.'


def note(t, r): return t + TRUST % r


LF = 'crates/analyzer-core/src/lsp_file.rs'
PR = 'crates/analyzer-core/src/parser.rs'
DT = 'crates/analyzer-host/src/lsp/dispatch_target.rs'
DI = 'crates/analyzer-host/src/lsp/dispatch.rs'
FS = 'crates/analyzer-host/src/fsm.rs'
LB = 'crates/analyzer-host/src/lib.rs'
RQ = 'crates/analyzer-host/src/lsp/request.rs'
PP = 'crates/analyzer-core/src/preprocessor.rs'
CL = 'crates/analyzer-core/src/lib.rs'
AI = 'crates/analyzer-host/src/lsp_impl/active_initialized.rs'
UI = 'crates/analyzer-host/src/lsp_impl/active_uninitialized.rs'
SS = 'crates/analyzer-host/src/lsp_impl/state.rs'
WS = 'crates/analyzer-host/src/lsp/workspace.rs'
PG = 'crates/analyzer-host/src/lsp/progress.rs'
LA = 'crates/analyzer-host/src/lsp/analyzer.rs'
NF = 'crates/analyzer-host/src/fs.rs'
DRV = 'crates/p4-analyzer/src/driver.rs'
DRV = 'crates/p4-analyzer/src/driver.rs'
PROPS = [
 dict(id='C01', title='A completion source is completed at most once, with one consistent outcome',
  statement='However many producers race to complete a completion source, exactly one completion succeeds; every other attempt is refused and changes nothing. Everyone who observes the source as completed, at any time and any number of times, sees the outcome given by the one that succeeded.',
  over=['schedules', 'histories'], quant='All interleavings of any number of producers and consumers of one completion source.',
  why='The tests complete a source twice from one thread; they cannot reach two completers interleaved between the check and the store.',
  files=[FE], mech=[('completion path: check, store and publish under the slot lock', FE + ' set_inner_value'), ('observation', FE + ' state')],
  note=note('Every path of the completion path and of every constructor is analysed; a write of the slot or the flag anywhere else is reported.', 'rules/fcs.py')),
 dict(id='C02', title='A consumer of a completion source never misses its completion',
  statement='A consumer that awaits a completion source finishes once the source is completed, wherever the completion falls relative to its check and its registration. No completion leaves a waiting consumer asleep.',
  over=['schedules'], quant='All interleavings of a completion with any number of awaiting consumers.',
  why='The losing window is a few instructions wide, between the check and the registration; the tests complete the source long after the consumers wait.',
  files=[FE], mech=[('register the listener, then check again, then wait', FE + ' future'), ('publish, then notify all', FE + ' set_inner_value')],
  note=note('Order of registration, re-check and await on every path of the consumer, and of publication and notification on every path of the producer.', 'rules/fcs.py')),
 dict(id='C03', title='A spawned task runs to completion, one poll at a time, and no wake-up is lost',
  statement='A task given to the pool is polled until it completes and never after that, never by two pollers at once, and with a waker that puts this very task back on the queue of its pool. A task that is pending stays owned by the pool, and each wake-up before the pool is stopped leads to another poll; waking a task never panics and never blocks.',
  over=['schedules', 'programs'], quant='All tasks, all wake-up schedules including wake-ups from inside the poll and after the pool was stopped.',
  why='No test exercises the pool; the failures need a wake-up in a particular window or a stopped pool.',
  files=[AE], mech=[('poll under the slot lock, restore the future iff pending', AE + ' AsyncPool::start'), ('re-queue on wake', AE + ' AsyncWork::wake_by_ref'), ('enqueue', AE + ' AsyncPool::spawn_work')],
  note=note('Typestate of the task slot on every path of the executor; what wake and spawn enqueue, and where.', 'rules/pool.py')),
 dict(id='C04', title='The pool ends when stopped or cancelled, and says which',
  statement='Once the pool is stopped, or its token is cancelled, the executor starts no further task beyond the one it was already waiting for and ends. It reports cancellation exactly when the token was cancelled and a normal end otherwise.',
  over=['schedules', 'histories'], quant='All interleavings of stop and cancellation with queued tasks.',
  why='No test starts the pool; the ordering of cancellation against queued work is a schedule.',
  files=[AE], mech=[('token tested before each dequeue, loop left when the queue is closed', AE + ' AsyncPool::start'), ('closing the queue', AE + ' AsyncPool::stop')],
  note=note('Every path of the executor and of stop. That a blocked receive returns after a close is the contract of the channel.', 'rules/pool.py')),
 dict(id='C05', title='Every message written to the wire is one correctly framed JSON-RPC message',
  statement='Whenever writing a message succeeds, the stream has received, completely and flushed, exactly one frame: a Content-Length header giving the byte length of the body, an empty line, and the body, which is the JSON text of the message with "jsonrpc": "2.0". An error of the stream is reported, never swallowed.',
  over=['inputs', 'fault_sequences'], quant='All messages, with any Unicode content, and all streams, including ones that write short or fail.',
  why='json_rpc has no tests at all; the length/encoding relation must hold for every text.',
  files=[JR], mech=[('frame writer', JR + ' write_msg_text'), ('envelope', JR + ' Message::buffered_write')],
  note=note('The sequence of writes on every path is reduced to a canonical frame; the declared length must be the byte length of the very text written.', 'rules/jsonrpc.py')),
 dict(id='C06', title='Reading consumes exactly one frame, decodes its content and never panics',
  statement='Reading a message takes from the stream exactly one header block and then exactly the declared number of content bytes, and yields the message decoded from those bytes. It reports end of stream only at the end of the stream, an error for anything malformed (also a length too large to allocate), and never panics.',
  over=['inputs', 'fault_sequences'], quant='All byte streams, including malformed headers, repeated or unknown headers, truncation and non-UTF-8 content.',
  why='json_rpc has no tests; the malformed and chunked streams are unbounded in number.',
  files=[JR], mech=[('frame reader', JR + ' read_msg_text'), ('decoder', JR + ' Message::buffered_read')],
  note=note('Every path of the reader: provenance of the length, of the buffer and of the decoded text; feasibility of every panic site.', 'rules/jsonrpc.py')),
 dict(id='C07', title='Requests, responses and notifications keep their kind and members on the wire',
  statement='A message that is written and read back is of the same kind with the same members: a request never decodes as a notification or response, nor the reverse. Members are named as in JSON-RPC 2.0, an absent optional member is omitted, and an identifier keeps its type.',
  over=['inputs'], quant='All messages of the three kinds and all identifiers.',
  why='json_rpc has no tests; ambiguity between alternatives shows only for particular combinations of members.',
  files=[JM, JR], mech=[('untagged alternatives of Message, tried in order', JM + ' Message'), ('identifier', JR + ' RequestId')],
  note=note('The members written and demanded by the generated serialisers and deserialisers are extracted from MIR; every ordered pair of alternatives is compared.', 'rules/jsonrpc.py')),
 dict(id='C08', title='A response carries a result or an error, never both and never neither',
  statement='Every response the programs of the workspace build carries exactly one of a result and an error. Each constructor puts the identifier, method and payload it was given in the member of that name.',
  over=['inputs', 'programs'], quant='All response values built anywhere in the workspace.',
  why='No test builds a response; the violation is a property of construction sites, not of sampled values.',
  files=[JR, 'crates/analyzer-host/src/lsp/dispatch_target.rs'], mech=[('constructors', JR + ' Response::new, Response::new_error')],
  note=note('All construction sites of Response in all crates are enumerated in MIR.', 'rules/jsonrpc.py')),
 dict(id='C09', title='Position and offset conversions never confuse bytes, characters and lines',
  statement='A line number or character index of a document position counts lines and characters, a byte offset counts bytes and lies on a character boundary, and a line-table entry is the last byte of its line, for text in any script. Range conversions map start to start and end to end. Conversions of positions outside the text do not panic.',
  over=['inputs'], quant='All texts, including multi-byte characters, empty and unterminated last lines; all positions and offsets.',
  why='The tests use ASCII, in which bytes and characters coincide; the confusion appears only for other texts.',
  files=[LF], mech=[('line table', LF + ' LspFile::parse_string'), ('conversions', LF + ' lsp_to_byte, byte_to_lsp, line_char, lsp_range_to_byte_range, byte_range_to_lsp_range'), ('incremental edits', LF + ' lazy_add')],
  note=note('A unit (bytes with distance to a boundary, characters, lines) is inferred for every value by coinductive dataflow; mixed arithmetic and every sink are checked. Values whose unit cannot be inferred raise no alarm.', 'rules/lspfile.py')),
 dict(id='C10', title='An edit changes the text and the line table of a document together',
  statement='Applying a change event to a document replaces exactly the range the event names, as it was before the edit, by the text of the event, once, and updates the line table with it. The whole text is replaced only when the event names no range or the document is empty. Only an event without text may leave the document as it was. The table has an entry for line breaks (\\n) and the end of the text only; all entries after the edited lines move with the text.',
  over=['inputs', 'histories'], quant='All documents, all change events and all sequences of them.',
  why='The tests replay short ASCII texts; paths guarded by size, content or encoding are not reached.',
  files=[LF], mech=[('incremental edits', LF + ' LspFile::lazy_add'), ('line table', LF + ' LspFile::parse_string')],
  note=note('Typestate over every path of lazy_add; provenance of the edited range and of the text; break test dominating every table entry; linear forms of the entries realigned, of the inserted ones and of the bounds of the splice, and completeness of the realigning walk. Full equality with a rebuilt table (which lines merge at the edges) is not decided.', 'rules/lspfile.py')),
 dict(id='C11', title='A grammar is accepted exactly when it is closed',
  statement='Building a parser succeeds exactly when the grammar defines a rule "start" and every rule name that any rule refers to, in whatever position; otherwise it fails with an error. A parser that was built never looks up an undefined rule.',
  over=['inputs'], quant='All grammars, with any number of rules of the five kinds and any references between them.',
  why='The tests build only well-formed grammars; the reference that goes unchecked may sit in any rule at any place.',
  files=[PR], mech=[('validation', PR + ' Parser::from_rules')],
  note=note('Every kind of rule must contribute all its references, each must be looked up among the rules, and success must be dominated by both checks.', 'rules/parser.py')),
 dict(id='C12', title='Matching follows the semantics of the grammar and always ends',
  statement='A terminal matches exactly its tokens; a choice yields its first alternative that matches, each tried at the same place; a sequence matches all its parts one after the other; a repetition matches as often as it can and stops at the first failure or empty match, before the tokens of the failed attempt; a negation matches where its rule does not and takes no token. The tree mirrors the rules that matched. A match of the input is a match of all of it.',
  over=['inputs', 'programs'], quant='All grammars and all token sequences.',
  why='The tests never use negation, never fail inside a repetition or a sequence after progress, and never repeat an empty match.',
  files=[PR], mech=[('evaluation of the five kinds of rule', PR + ' Matcher::eval_rule'), ('token test', PR + ' Matcher::consume'), ('match of the whole input', PR + ' Parser::_match')],
  note=note('Symbolic positions on every path of the evaluator, per kind of rule. Grammars with left recursion are outside: they recurse without bound.', 'rules/parser.py')),
 dict(id='C13', title='What an edit may have changed is never served from the memo table',
  statement='A memoised result is used only for its rule at its position, advances by the length of the match and passes on everything the match examined. It remembers at least the span of tokens examined to obtain it, including look-ahead beyond the match and tokens examined through other memoised results. An edit replaces the tokens and the columns of its range alike and drops every remembered result whose span reaches into it; edits anywhere in the buffer succeed.',
  over=['inputs', 'histories'], quant='All grammars, all token sequences and all histories of matches and edits.',
  why='The test performs one edit of one grammar; a stale entry shows only for look-ahead that crosses an edit after a particular history.',
  files=[PR], mech=[('lookup', PR + ' Matcher::use_memoized_result'), ('examined span', PR + ' Matcher::consume, memoized_eval_rule, memoize_result'), ('invalidation', PR + ' Parser::apply_edit')],
  note=note('Inequalities between spans, positions and column maxima along every path, as linear facts over symbolic values. That reparsing after edits equals a fresh parse follows from these and is not checked as such.', 'rules/parser.py')),
 dict(id='C14', title='Every request of the server to its client gets its own response, once',
  statement='A request the server sends to its client carries an identifier no other request of this server carries and is registered as awaiting before it is sent. The response with that identifier, and no other, completes it, once; the caller gets the decoded result of that response, or an error when the response carries one, cannot be decoded, or can no longer come because the host has ended. A request that could not be sent is reported and forgotten, a notification is sent once or reported; responses are received until the channel closes or the token is cancelled.',
  over=['schedules', 'histories', 'inputs'], quant='All interleavings of requests of all clones of the manager with responses in any order, including unknown and repeated identifiers.',
  why='The crate does not build offline and the manager has no tests; duplicates of identifiers show only across clones.',
  files=[RQ], mech=[('identifiers and registration', RQ + ' RequestManager::send, send_and_receive'), ('delivery', RQ + ' RequestManager::start')],
  note=note('Provenance of the identifier, order of registration and sending, and provenance of every completed source, value and outcome on every path. Wrap-around after 2^31 requests is outside.', 'rules/requests.py')),
 dict(id='C15', title='Every request of the client gets exactly one response',
  statement='For each request the server processes it sends exactly one response with the identifier of the request: the result of the handler when the parameters could be decoded and the handler succeeded, an error otherwise, also when no handler is registered. A notification is never answered. A message is given once, with its own decoded parameters, to the handler registered for its method among those of its kind.',
  over=['inputs', 'histories'], quant='All requests and notifications, well-formed or not, in every state of the server and after any history.',
  why='The crate does not build offline and the dispatch has no tests; the unanswered request is the one with unusual parameters or state.',
  files=[DT, DI, FS, LB], mech=[('targets', DT + ' RequestDispatchTarget, NotificationDispatchTarget'), ('dispatch', DI + ' DefaultDispatch::dispatch'), ('sending', LB + ' AnalyzerHost::run_protocol_machine')],
  note=note('Every path of target, dispatcher, machine and loop: who is called with what, and what is returned or sent. That handlers end is not decided.', 'rules/dispatch.py')),
 dict(id='C16', title='The server follows the lifecycle of the protocol',
  statement='The server starts uninitialised. A handled "initialize" request makes it initialising, the "initialized" notification initialised, a "shutdown" request shutting down, and "exit" stops it from every state; nothing else, and no message that failed, changes its state. Until it is initialised every other request is refused with ServerNotInitialized; once it is shutting down every request is refused with InvalidRequest. It is active in every state but the stopped one.',
  over=['histories', 'inputs'], quant='All sequences of client messages.',
  why='The lifecycle is a product of registrations in five files and of the dispatch; no test drives it.',
  files=[FS, DI, DT, 'crates/analyzer-host/src/lsp.rs', 'crates/analyzer-host/src/lsp_impl'], mech=[('table of dispatchers', FS + ' LspProtocolMachine::create_dispatchers'), ('registrations', 'crates/analyzer-host/src/lsp_impl create_dispatcher'), ('state change', FS + ' LspProtocolMachine::process_message')],
  note=note('The construction of the machine is evaluated abstractly: every handler, the map it ends up in, its method and its transition are compared with the lifecycle, and every path that moves the state is judged.', 'rules/dispatch.py')),
 dict(id='C17', title='The host hands on every message and ends as a whole, without panicking',
  statement='Every message the host receives from its client is handed on once and in order: a response to the request manager, a request or notification to the state machine. When the client disconnects, the token is cancelled or the server has exited, every part of the host ends and the channels to the client are closed; after cancellation no message is processed. The host reports cancellation exactly when it was cancelled. It uses the file system of the host process, or else the one of the client. None of this panics.',
  over=['schedules', 'histories', 'fault_sequences'], quant='All sequences of messages, including messages after exit, and all points at which the client disconnects or the token is cancelled.',
  why='The crate does not build offline and the host has no tests; the failures are at disconnection and after exit.',
  files=[LB, RQ], mech=[('routing', LB + ' AnalyzerHost::receive_messages'), ('message loop', LB + ' AnalyzerHost::run_protocol_machine'), ('parts of the host', LB + ' AnalyzerHost::start')],
  note=note('Every path of the loops; which end of which channel each part is given is followed through start. That a handler in progress ends is not decided.', 'rules/host.py')),
 dict(id='C18', title='Conditional compilation keeps exactly the branches that the conditions select',
  statement='Of the branches of an #if, #elif, #else, #endif the preprocessor keeps the first whose condition holds, or the one of #else, and only that; directives in the others have no effect, however deeply conditionals nest. Everything else is kept in order, with only neighbouring whitespace of one file merged. #define and #undef change exactly the named definition. Dangling and unclosed directives are reported, once. No token stream makes this panic.',
  over=['inputs'], quant='All token streams, with any nesting of conditionals, and all outcomes of their conditions.',
  why='The tests hold a handful of flat conditionals; nesting inside skipped branches and malformed inputs are not reached, and the crate does not build offline.',
  files=[PP], mech=[('treatment of a token', PP + ' PreprocessorState::preprocess'), ('skipping of a branch', PP + ' PreprocessorState::skip_conditional_directive')],
  note=note('Each step of the loop is judged against the kind of the token under every valuation of the condition and of the flag of branches taken; skipping is judged over the height of the stack relative to entry. What a condition evaluates to is opaque here.', 'rules/preproc.py')),
 dict(id='C19', title='An #include inserts the tokens of the file it names, once and in order',
  statement='An #include of a file that can be found and is not open puts all tokens of this file, in order and marked as being of this file, in place of the directive. A file that is open already, also the one being preprocessed, is reported as recursive and one that cannot be found as missing, and nothing is inserted, so that expansion ends. Each file included is noted as a dependency together with whether it was found. Names are resolved against the including file. Errors are reported where they are.',
  over=['inputs'], quant='All file systems and all graphs of includes, also cyclic ones.',
  why='The tests never include a file (the lookup is unreachable!() there); order, marking and cycles are not exercised.',
  files=[PP, CL], mech=[('inclusion', PP + ' PreprocessorState::preprocess'), ('lookup and resolution', CL + ' preprocess')],
  note=note('Every path that treats an #include, each element of the inserted tokens, and the closures of the query. A file is expanded at most once because it stays marked; that this also refuses a second, non-recursive #include is a known finding, as is the base of nested includes.', 'rules/preproc.py')),
dict(id='C20', title='Conditions have the value that C gives them, and evaluating one ends',
  statement='Every kind of expression and every operator in the condition of an #if or #elif has the value C gives it: each operator combines its left and right operand in this order, comparisons and logical operators yield 1 or 0, "defined" tells whether the name is defined now, a name has the value of its definition and no value otherwise, and a condition holds when its value exists and is not zero. Every operator symbol denotes its operator, binds as in C, and a longer symbol wins over its prefix. Evaluation never panics (overflow, division by zero, shift amounts) and ends also for macros that refer to themselves or each other.',
  over=['inputs'], quant='All expressions, all values of the operands, all sets of definitions.',
  why='The tests evaluate a handful of expressions; 18 operators times the order and sign of operands, prefixes of symbols, extreme values and cyclic definitions are not sampled.',
  files=[PP], mech=[('evaluation', PP + ' PreprocessorState::interpret_pp_expr'), ('truth', PP + ' PreprocessorState::interpret_condition'), ('levels of precedence', PP + ' parser::exp3..exp12, bin_op, factor')],
  note=note('The value of every path of the evaluation is compared with that of C for each operator, the operands being abstracted to their order or to zero/not zero; recursion into the definition of a name must be guarded by the name or a depth; the operator tables, their levels, the operands of each level and the order of alternatives are read off the parser. That nom\'s combinators do what they say is assumed.', 'rules/ppexpr.py')),
dict(id='C21', title='The text of a P4 file is split into the tokens of the language',
  statement='Every punctuation sign and keyword is its own token; identifiers, whitespace, line comments (also on the last line), block comments (up to the first "*/"), directives and integer literals are recognised with exactly their language. An integer literal has the value, base, width and signedness that it spells: the width and base are taken only from its start, underscores do not count, and a malformed literal is unexpected text, never a panic. Every directive name yields its directive with the rest of its logical line (escaped newlines included), an #include has the style of its quotes and ends with the matching quote, a #define keeps its whole replacement. Consecutive unexpected text is reported once, as an error over its whole range in its file, and no token is lost.',
  over=['inputs'], quant='All texts; all literals; all directives.',
  why='The unit tests lex a few lines; the boundary cases (hexadecimal digits that look like a width or base, last line without newline, multi-byte characters in directives, oversized widths, escapes) are not sampled.',
  files=['crates/analyzer-core/src/lexer.rs', 'crates/analyzer-core/src/lib.rs'], mech=[('the rules of the tokens', 'crates/analyzer-core/src/lexer.rs enum Token (Logos)'), ('literals', 'crates/analyzer-core/src/lexer.rs Lexer::read_int, parse_width, parse_base'), ('directives', 'crates/analyzer-core/src/lexer.rs Lexer::read_directive, read_line_with_newline_escapes, parse_include, parse_define'), ('unexpected text', 'crates/analyzer-core/src/lib.rs process_error_tokens, lex')],
  note=note('The languages of the token rules are compared with their definitions by a product of automata over ASCII and a few representative other characters; the functions behind the rules are analysed on every path: which prefix was matched, which part of the token is parsed in which radix, that each character taken advances the lexer by its own length exactly once. Only macros named like identifiers are covered; values beyond 63 bits are reported as malformed. That the lexer generator implements longest match is assumed.', 'rules/lexing.py')),
dict(id='C22', title='No message of a client makes the server panic',
  statement='Whatever messages a client sends, in whatever order and with whatever contents, no handler and no background work of the server panics: ranges that end before they start, files that are unknown, closed, deleted or outside every workspace folder, addresses that cannot be resolved, kinds of file changes that are unknown, clients that refuse a request of the server, and files that are loaded while they are opened or changed are all survived. What a handler needs is set up before the handler can run.',
  over=['inputs', 'histories', 'schedules'], quant='All handlers, all contents of messages, all histories of files and all interleavings with the background work.',
  why='Nothing tests the handlers; the crate does not build offline, and the inputs that panic are unusual ones.',
  files=[AI, UI, WS, PG, LA, NF], mech=[('handlers', 'crates/analyzer-host/src/lsp_impl'), ('workspaces and background loading', WS), ('progress', PG), ('callbacks of the analyzer', LA)],
  note=note('Every panicking construct (unwrap, expect, index, panicking method, assertion) on every path of every handler and background function must be unreachable for a stated reason. Uses of the lock of the state are assumed not to be poisoned; panics inside analyzer-core are judged by the properties of its parts.', 'rules/server.py')),
dict(id='C23', title='The server announces what it handles, and uses what its client announces',
  statement='In its answer to "initialize" the server announces an ability exactly if it handles the messages this ability stands for once it is initialised, and asks for all it needs (the text of saved documents). It refuses a client with workspace folders that cannot watch files, and no other; it registers for every kind of change of exactly the files it indexes, and indexes them only once the client has agreed. It uses the workspace folders of the client, and progress exactly if the client supports it. Positions mean what was agreed with the client.',
  over=['inputs', 'histories'], quant='All clients (their abilities, workspace folders and trace levels), all answers of the client.',
  why='Nothing tests the answers against the handlers: an announced message without handler, or a handler that no client ever calls, passes every test.',
  files=[UI, AI, 'crates/analyzer-host/src/lsp_impl/initializing.rs', WS], mech=[('announced abilities', UI + ' create_initialize_result'), ('handlers', AI + ' create_dispatcher'), ('registration', 'crates/analyzer-host/src/lsp_impl/initializing.rs on_client_initialized'), ('workspace folders', WS + ' WorkspaceManager::new')],
  note=note('The value of every member of the answer, on every path that returns one, is compared with the table of handlers that LspProtocolMachine::new builds, both ways. Nine known findings: eight abilities that are announced but not handled, and the unit of positions.', 'rules/client.py')),
dict(id='C24', title='The editor decides the text of an open document, the disk that of all others',
  statement='Opening a document gives its text to the analyzer and marks it open; changing it makes its changes, in order and as they are; saving it gives the saved text; closing it drops its text and marks it closed; each acts on the document of the message only. Nothing else touches the text of a document while it is open, whatever happens on disk or was started in the background before. Of the files that are not open, changes on disk are followed. Every file that becomes known, by lookup or by indexing of a workspace folder, is loaded and then completed, with its contents or an error, so that nobody waits for it for ever; a known file is never replaced. A file belongs to a workspace folder only if it is below it.',
  over=['histories', 'schedules', 'inputs'], quant='All sequences of messages about documents and watched files, all interleavings with background loading and indexing, all addresses.',
  why='Nothing tests the handlers; what gets lost depends on a document being opened between two steps of background work.',
  files=[AI, SS, WS], mech=[('messages about documents', AI + ' on_text_document_did_*'), ('watched files', AI + ' created_file, deleted_file'), ('background loading', SS + ' State::process_background_analyze_requests'), ('lookup and indexing', WS + ' WorkspaceManager::get_file, Workspace::get_file, Workspace::index')],
  note=note('Effects on the text, the completion and the open flag of a file along every path of every handler and background task; a test of the flag counts until the next await of a background task. The request that is sent is followed to the task that receives it. Handlers run one after another (C17). What the analyzer does with the text is judged by C09-C13 and C18-C21.', 'rules/files.py')),
dict(id='C25', title='No lock or borrow is held where others would block or panic on it',
  statement='Whoever takes the lock of the state, of a file, of the files of a workspace folder or of the requests in flight, or borrows the analyzer, is through with it before it is taken again by the same task, and a borrow, a blocking lock, or a lock that others try to take without waiting is released before the next await. So no message and no background task that runs in between blocks for ever or panics because the lock or the analyzer is in use.',
  over=['schedules', 'histories'], quant='All handlers, background tasks and message kinds; all interleavings of them at their awaits.',
  why='Nothing tests the handlers, and a guard that lives one statement too long does no harm until another message arrives during the await.',
  files=[AI, SS, WS], mech=[('lock of the state', AI), ('borrow of the analyzer', SS + ' AnalyzerWrapper::unwrap'), ('lock of a file', WS + ' File'), ('files of a workspace folder', WS + ' Workspace::get_file, Workspace::index')],
  note=note('The life of every guard of RefCell, std, async and tried locks from where it is obtained to where it is dropped or moved away, along every path of every handler, background task and function of the host, through calls; two locks are the same if they are reached by the same path of members from the same value, so a lock reached in two different ways through one shared allocation is not recognised as one. Awaiting the lock of the state is waiting in line, not a deadlock, as long as nobody who holds it waits for the one in line.', 'rules/guards.py')),
dict(id='C26', title='Progress and traces reach exactly the clients that want them, completely',
  statement='A progress is created, begun, reported and ended in this order under one token, each step only after the one before succeeded, and nothing is sent to a client that does not support progress. Indexing covers every workspace folder whether or not progress can be reported, and a progress that was begun is ended. An event is sent to the client as a trace exactly if the level of traces is not Off, with details exactly if it is Verbose; the level is Off at first and then the one the client set last, with "initialize" or "$/setTrace". Sending a trace never blocks or panics.',
  over=['histories', 'inputs'], quant='All clients, all answers to the requests about progress, all sequences of trace levels and events.',
  why='Nothing tests progress or traces; what is missing shows only with a client that refuses, or at a certain level.',
  files=[PG, 'crates/analyzer-host/src/tracing.rs', WS, AI, UI], mech=[('progress', PG), ('indexing', WS + ' WorkspaceManager::index'), ('traces', 'crates/analyzer-host/src/tracing.rs'), ('levels', AI + ' on_set_trace')],
  note=note('Messages sent along every path of every step of a progress and of the indexing, with the facts about the client and about earlier answers; the value sent for an event, per level. Poisoned locks are left out.', 'rules/client.py')),
dict(id='C27', title='The native file system gives exactly what is on disk and never panics',
  statement='Asking the native file system for the contents of a file gives all of the contents that were read from the path of exactly that address (bytes that are not UTF-8 are replaced), and gives nothing only if the address names no path or reading failed. Asking it for the files of a folder gives the address of every file that matches the given pattern inside exactly that folder, whatever characters the name of the folder contains, and goes on past entries that cannot be read. Neither ever panics or writes to standard output, for any address, any pattern and any file.',
  over=['inputs', 'fault_sequences'], quant='All addresses, patterns, file names and contents, and all failures of the file system.',
  why='The tests read two well-formed files in folders with plain names; a name with brackets, a file in another encoding or an address that is no file takes the whole server down.',
  files=['crates/p4-analyzer/src/native_fs.rs'], mech=[('contents', 'crates/p4-analyzer/src/native_fs.rs file_contents'), ('folder', 'crates/p4-analyzer/src/native_fs.rs enumerate_folder')],
  note=note('Both bodies are run over all paths: where every answer comes from, under which failures nothing is given, which found file is left out, what the pattern is made of, and that no panic is reachable. What glob and the file system do is taken as documented.', 'rules/process.py')),
dict(id='C28', title='The server process relays every message once, in order, and ends with its client',
  statement='Every message the process reads from its client is handed to the host exactly once and in order, and every message of the host is written to the client exactly once and in order; nothing else is written to standard output while the server runs. Reading stops when the client has disconnected, when what it sends cannot be read, or when the host takes no more messages, and the host is then told that nothing more will come; writing stops only when the host has closed its channel or writing failed. Cancelling the process closes both directions, and the process waits for the messages that are still to be written.',
  over=['schedules', 'histories', 'fault_sequences'], quant='All message sequences in both directions, all interleavings of the threads, all failures of standard input and output, all moments of disconnection and cancellation.',
  why='The tests drive the host through a buffer and never disconnect; a lost or doubled message, a stray print, or a process that outlives its editor shows only in real use.',
  files=[DRV, 'crates/p4-analyzer/src/commands/lsp_server.rs', 'crates/p4-analyzer/src/main.rs'], mech=[('relay', DRV + ' sender_task/receiver_task'), ('channels', DRV + ' get_message_channel/start'), ('command', 'crates/p4-analyzer/src/commands/lsp_server.rs run')],
  note=note('A typestate of each relaying thread over all its paths (read, sent, closed; received, written), the wiring of the channel ends by their origin, and a search of every function for printing. The buffer driver, which only tools use, and the order of elements inside a channel are taken as given.', 'rules/process.py')),
dict(id='C29', title='An LSIF dump has unique ids, one entry per line, and a document for every file',
  statement='An LSIF dump only grows while it is made: each entry is written as JSON on a line of its own, with an id that no other entry of the dump has. Every file of every workspace of the server, at the moment the workspaces are read, gets exactly one document entry with its own address, whose id is what later entries are given for that file. The whole dump, and nothing else, is written to the output file, after all files have their document and before the program ends.',
  over=['inputs', 'histories'], quant='All workspaces and files, all sequences of calls of the writer.',
  why='No test makes a dump; readers of LSIF join entries by id, so that a repeated id, a broken line or a missing document spoils the index without any error.',
  files=['crates/lsif-p4/src/lsif_writer.rs', 'crates/lsif-p4/src/lsif_generator.rs'], mech=[('entries and ids', 'crates/lsif-p4/src/lsif_writer.rs get_id/append_file/document'), ('output', 'crates/lsif-p4/src/lsif_writer.rs write_file_to_disk'), ('files', 'crates/lsif-p4/src/lsif_generator.rs setup_workspace/stop_workspace')],
  note=note('What each method of the writer appends, as a term over the text before, and its ids as offsets from the counter on entry; a typestate of the loops over workspaces and files up to the end of the program. Overflow of the counter, failure of serialisation and failure to create the file are taken to end the program, as the code does.  Whether the workspaces are complete when they are read is not decided.', 'rules/lsif.py')),
dict(id='C30', title='The server and the VS Code extension agree about files and folders',
  statement='When the client provides the file system, each question about a folder or a file is put to it exactly once, with the folder, pattern or file that was asked for, and the answer is what the client gave: nothing is added, changed or left out, a request that fails gives no files or no contents, and nothing panics. The VS Code extension handles each of these requests under the name and with the field names the server sends; it lists every file of the folder asked for that matches the pattern and no file of another folder, each under its own address, and it answers with the whole text of the file asked for.',
  over=['inputs', 'fault_sequences'], quant='All folders, patterns, files and failures of the client, all workspaces of any number of folders.',
  why='The two sides are written in different languages and no test runs them together; a renamed field or a search in the wrong folder only shows in a real editor.',
  files=['crates/analyzer-host/src/fs.rs', 'packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts', RQ], mech=[('requests of the server', 'crates/analyzer-host/src/fs.rs'), ('handlers of the extension', 'packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts')],
  note=note('A dataflow analysis of the file system behind the client; the methods and serialised field names it sends; terms of what the handlers of the extension return, computed from the TypeScript syntax tree with local functions and constants expanded, compared with them. What VS Code itself does for findFiles and readFile is taken from their documentation. Forms of the extension the terms do not cover raise no alarm.', 'rules/clientfs.py, lib/ts_terms.js')),
dict(id='C31', title='The WASM server gets every message on standard input and frames each answer',
  statement='However standard input is cut into chunks, the adapter passes to the server each message exactly once, in the order received and with exactly the bytes announced by its Content-Length header: as soon as the last byte has arrived and not before, also when one chunk holds several messages or ends inside a header or a body. Each answer is written to standard output as a Content-Length header with the number of its bytes in UTF-8, a blank line and those bytes.',
  over=['histories', 'inputs'], quant='All sequences of messages, all ways of cutting them into chunks, all answers.',
  why='No test runs the adapter; how a pipe cuts the stream depends on timing and on the sizes of messages, and a lost message leaves the stream out of step for good.',
  files=['packages/p4-analyzer/src/server/index.ts'], mech=[('cutting into messages', 'packages/p4-analyzer/src/server/index.ts onReceiveRequestBuffer'), ('framing of answers', 'packages/p4-analyzer/src/server/index.ts onResponseBuffer')],
  note=note('The listener to standard input, with the methods it calls expanded, is turned into a trace of calls, assignments and tests over symbolic terms; offsets are compared as sums of terms: where a message starts and ends, what is kept, by how much the count of bytes is reduced, which comparison guards it, and whether the body is reached again for the same chunk. Values of JavaScript built-ins are taken from their documentation. Forms the terms do not cover raise no alarm.', 'rules/adapter.py, lib/ts_terms.js')),
dict(id='C32', title='The WASM server passes on each message and hands out each answer once and whole',
  statement='Every message given to the WASM server is decoded from all of its bytes and passed to the host exactly once, and the caller is told when it cannot be decoded or passed on. Every message of the host is handed to the callback exactly once, in order, as the complete text of a JSON-RPC 2.0 message, as long as the host sends any. Requests and answers never mix. Handing out does not wait for the host to end, and stopping cancels the host and ends the handing out.',
  over=['histories', 'inputs', 'schedules'], quant='All messages, all answers, all orders in which they come.',
  why='The WASM crate has no tests and cannot be run without a browser or Node build of it; a message lost here leaves a request without an answer for good.',
  files=['crates/p4-analyzer-wasm/src/lib.rs', 'crates/p4-analyzer-wasm/src/buffer.rs'], mech=[('requests', 'crates/p4-analyzer-wasm/src/lib.rs send_request'), ('answers', 'crates/p4-analyzer-wasm/src/lib.rs on_receive'), ('start and stop', 'crates/p4-analyzer-wasm/src/lib.rs start/stop')],
  note=note('A dataflow analysis over the MIR of the WASM crate with a typestate of the message decoded and the message received (passed on how often, handed out how often, which results are known), plus the terms of the channel ends that are used, handed to the host and closed. The bindings to JavaScript (Uint8Array, Buffer, Function) are taken as documented.', 'rules/adapter.py')),
dict(id='X01', title='The line table after an edit equals the table of the new text', 
  statement='After every edit the line table of a document equals the table that would be built from its new text, and the conversions between positions and byte offsets are inverse to each other on every valid position.',
  over=['histories', 'inputs'], quant='All texts and all sequences of edits.', why='The tests sample a few edits of a few texts.',
  files=[LF], mech=[('table', LF + ' lazy_add'), ('conversions', LF + ' lsp_to_byte/byte_to_lsp')],
  na='Equality of two tables is arithmetic over the contents of texts (where line breaks lie, how long characters are); a sound static argument would need a relational theory of strings and sequences. C09 decides the units and C10 the discipline of an edit (what is replaced, moved and by how much), which is what static analysis reaches here.'),
dict(id='X02', title='The incremental parse equals a fresh parse after every history of edits',
  statement='After any sequence of edits the incremental parser gives the result a new parser would give for the same tokens.',
  over=['histories', 'inputs'], quant='All grammars, inputs and histories of edits.', why='The tests compare a few histories.',
  files=[PR], mech=[('memo', PR)],
  na='It is an invariant between the contents of the memo table and the input, by induction over histories and over the recursion of the evaluation. C12 and C13 decide the obligations such a proof consists of (what is examined is recorded, what is reached by an edit is dropped, positions move by the same amount); composing them into the equality is a proof, not an analysis.'),
dict(id='X03', title='Every request is answered in bounded time',
  statement='Every handler and background task ends, so that every request is answered within bounded time, also while a workspace is indexed.',
  over=['schedules', 'inputs'], quant='All schedules, workspaces and messages.', why='Tests cannot bound time over all inputs.',
  files=[AI, WS], mech=[('handlers', AI), ('indexing', WS)],
  na='Termination and latency depend on the contents of files, on the client answering, and on the run time of the parser and of salsa queries; no static argument in reach bounds them. C25 excludes deadlocks on locks, C02/C14/C24 that a waiter is forgotten, C19/C20 endless expansion.'),
]
