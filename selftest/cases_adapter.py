F = 'packages/p4-analyzer/src/server/index.ts'
C = ['C31']
def op(*p): return [(F, p[i], p[i + 1]) for i in range(0, len(p), 2)]
COPY = 'this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);'
LOOP = 'for (;;) {'
TAKE = '''			const requestMessageBuffer = Buffer.alloc(contentLength);

			received.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
'''
KEEP = '''			this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset);
			this.requestBufferOffset -= minRequiredOffset;
'''
PUSH = '			this.requestMessageBufferQueue.push(requestMessageBuffer);\n'
SEND = 'setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.\n		}'
WRITE = 'process.stdout.write(`Content-Length: ${message.byteLength}${BODY_SPLIT_CHARS}${message}`);'
TEST = 'if (this.requestBufferOffset < minRequiredOffset) return;'
SRC = open('/repo/' + F).read()
BODY = SRC[SRC.index('		if (this.requestBufferOffset + chunk.byteLength'):SRC.index('	/**\n	 * Dequeues')]
CUT = '''		let rest = Buffer.concat([this.requestBuffer.subarray(0, this.requestBufferOffset), chunk]);

		while (true) {
			const headerEnd = rest.indexOf(BODY_SPLIT_CHARS);

			if (headerEnd === -1) break;

			const length = Number(CONTENTLENGTH_HEADER_EXP.exec(rest.subarray(0, headerEnd).toString())?.groups["length"]);

			if (isNaN(length)) throw new Error("Received malformed message. 'Content-Length' header is missing.");

			const bodyStart = headerEnd + BODY_SPLIT_CHARS.length;
			const bodyEnd = bodyStart + length;

			if (rest.byteLength < bodyEnd) break;

			this.requestMessageBufferQueue.push(rest.subarray(bodyStart, bodyEnd));
			setImmediate(this.sendRequestMessageBuffer.bind(this));
			rest = rest.subarray(bodyEnd);
		}

		this.requestBuffer = rest;
		this.requestBufferOffset = rest.byteLength;
	}

'''
START = '''		this.append(chunk);

		let start = 0;

		for (let length = this.messageLength(start); length >= 0; length = this.messageLength(start)) {
			const bodyStart = this.requestBuffer.indexOf(BODY_SPLIT_CHARS, start) + BODY_SPLIT_CHARS.length;

			this.requestMessageBufferQueue.push(Buffer.from(this.requestBuffer.subarray(bodyStart, bodyStart + length)));
			setImmediate(this.sendRequestMessageBuffer.bind(this));
			start = bodyStart + length;
		}

		this.requestBuffer.copy(this.requestBuffer, 0, start, this.requestBufferOffset);
		this.requestBufferOffset -= start;
	}

	private append(chunk: Buffer): void {
		while (this.requestBufferOffset + chunk.byteLength > this.requestBuffer.byteLength) this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES)]);

		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
	}

	private messageLength(start: number): number {
		const received = this.requestBuffer.subarray(start, this.requestBufferOffset);
		const split = received.indexOf(BODY_SPLIT_CHARS);

		if (split < 0) return -1;

		const length = Number(CONTENTLENGTH_HEADER_EXP.exec(received.subarray(0, split).toString())?.groups["length"]);

		if (isNaN(length)) throw new Error("Received malformed message. 'Content-Length' header is missing.");

		return received.byteLength < split + BODY_SPLIT_CHARS.length + length ? -1 : length;
	}

'''
CASES = [
	('rewritten: concat', 'keep', C, op(BODY, CUT)),
	('rewritten: start offset', 'keep', C, op(BODY, START)),
	('rewritten: array of messages', 'keep', C, op(BODY, CUT.replace('			this.requestMessageBufferQueue.push(rest.subarray(bodyStart, bodyEnd));', '			const message = Buffer.alloc(length);\n\n			rest.copy(message, 0, bodyStart);\n			this.requestMessageBufferQueue.push(message);'))),
	('rewritten: concat, chunk first', 'break', C, op(BODY, CUT.replace('[this.requestBuffer.subarray(0, this.requestBufferOffset), chunk]', '[chunk, this.requestBuffer.subarray(0, this.requestBufferOffset)]'))),
	('rewritten: concat, body takes the rest', 'break', C, op(BODY, CUT.replace('rest.subarray(bodyStart, bodyEnd)', 'rest.subarray(bodyStart)'))),
	('rest forgotten', 'break', C, op('this.requestBufferOffset -= minRequiredOffset;', 'this.requestBufferOffset = 0;')),
	('one message per chunk', 'break', C, op(LOOP, '{')),
	('one message per chunk, by return', 'break', C, op(SEND, SEND[:-4] + '\n			return;\n		}')),
	('part of the chunk', 'break', C, op(COPY, COPY.replace('Offset);', 'Offset, chunk.byteOffset);'))),
	('waits for one byte more', 'break', C, op('< minRequiredOffset', '<= minRequiredOffset')),
	('taken early', 'break', C, op(TEST, 'if (this.requestBufferOffset < contentLength) return;')),
	('never tested', 'break', C, op(TEST, '')),
	('end without separator', 'break', C, op('splitOffset + BODY_SPLIT_CHARS.length + contentLength', 'splitOffset + contentLength')),
	('start without separator', 'break', C, op('splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset', 'splitOffset, minRequiredOffset')),
	('rest starts off by one', 'break', C, op('this.requestBuffer, 0, minRequiredOffset,', 'this.requestBuffer, 0, minRequiredOffset + 1,')),
	('rest not moved to the start', 'break', C, op('this.requestBuffer, 0, minRequiredOffset,', 'this.requestBuffer, 1, minRequiredOffset,')),
	('count reduced by the body', 'break', C, op('this.requestBufferOffset -= minRequiredOffset;', 'this.requestBufferOffset -= contentLength;')),
	('count not reduced', 'break', C, op('			this.requestBufferOffset -= minRequiredOffset;\n', '')),
	('rest not kept', 'break', C, op('			this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset);\n', '')),
	('last blank line', 'break', C, op('received.indexOf(', 'received.lastIndexOf(')),
	('last message first', 'break', C, op('Queue.shift()', 'Queue.pop()')),
	('unshift', 'break', C, op('Queue.push(', 'Queue.unshift(')),
	('length in characters', 'break', C, op('${message.byteLength}', '${message.toString().length}')),
	('length with separator', 'break', C, op('${message.byteLength}', '${message.byteLength + BODY_SPLIT_CHARS.length}')),
	('latin1', 'break', C, op('${message}`', '${message.toString("latin1")}`')),
	('no blank line', 'break', C, op('${BODY_SPLIT_CHARS}${message}', '\\r\\n${message}')),
	('only the body', 'break', C, op(WRITE, 'process.stdout.write(message);')),
	('message one too long', 'break', C, op('Buffer.alloc(contentLength)', 'Buffer.alloc(contentLength + 1)')),
	('growth forgets', 'break', C, op('Buffer.concat([this.requestBuffer, Buffer.alloc(', 'Buffer.concat([Buffer.alloc(0), Buffer.alloc(')),
	('search in stale bytes', 'break', C, op('const received = this.requestBuffer.subarray(0, this.requestBufferOffset);', 'const received = this.requestBuffer;')),
	('while true', 'keep', C, op(LOOP, 'while (true) {')),
	('subarray of received', 'keep', C, op(TAKE, '			const requestMessageBuffer = Buffer.from(received.subarray(splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset));\n')),
	('slice of received', 'keep', C, op(TAKE, '			const requestMessageBuffer = Buffer.from(received.slice(splitOffset + BODY_SPLIT_CHARS.length, splitOffset + BODY_SPLIT_CHARS.length + contentLength));\n')),
	('copyWithin', 'keep', C, op('this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset)', 'this.requestBuffer.copyWithin(0, minRequiredOffset, this.requestBufferOffset)')),
	('body offset named', 'keep', C, op('const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength', 'const bodyOffset = splitOffset + BODY_SPLIT_CHARS.length;\n			const minRequiredOffset = bodyOffset + contentLength', '0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset', '0, bodyOffset, minRequiredOffset')),
	('test turned round', 'keep', C, op(TEST, 'if (minRequiredOffset > this.requestBufferOffset) return;')),
	('test negated', 'keep', C, op(TEST, 'if (!(this.requestBufferOffset >= minRequiredOffset)) return;')),
	('break instead of return', 'keep', C, op(TEST, 'if (this.requestBufferOffset < minRequiredOffset) break;')),
	('helper for the rest', 'keep', C, op(KEEP, '			this.discard(minRequiredOffset);\n', '	/**\n	 * Dequeues', '	private discard(count: number): void {\n		this.requestBuffer.copy(this.requestBuffer, 0, count, this.requestBufferOffset);\n		this.requestBufferOffset -= count;\n	}\n\n	/**\n	 * Dequeues')),
	('helper takes a message', 'keep', C, op(LOOP, 'while (this.takeMessage());\n	}\n\n	private takeMessage(): boolean {\n		{', 'if (splitOffset < 0) return;', 'if (splitOffset < 0) return false;', TEST, TEST.replace('return', 'return false'), SEND, SEND[:-4] + '\n			return true;\n		}')),
	('count after', 'keep', C, op('this.requestBufferOffset -= minRequiredOffset;', 'this.requestBufferOffset = this.requestBufferOffset - minRequiredOffset;')),
	('rest as a new buffer', 'keep', C, op('this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset);', 'this.requestBuffer = this.requestBuffer.subarray(minRequiredOffset);')),
	('chunk copied in two lines', 'keep', C, op(COPY, 'chunk.copy(this.requestBuffer, this.requestBufferOffset);\n		this.requestBufferOffset += chunk.byteLength;')),
	('push before the rest', 'keep', C, op(PUSH, '', KEEP, PUSH + KEEP)),
	('unshift and pop', 'keep', C, op('Queue.push(', 'Queue.unshift(', 'Queue.shift()', 'Queue.pop()')),
	('write in pieces', 'keep', C, op(WRITE, 'process.stdout.write(`Content-Length: ${message.length}${BODY_SPLIT_CHARS}`);\n		process.stdout.write(message);')),
	('write as one buffer', 'keep', C, op(WRITE, 'process.stdout.write(Buffer.concat([Buffer.from(`Content-Length: ${message.length}${BODY_SPLIT_CHARS}`), message]));')),
	('header named', 'keep', C, op(WRITE, 'const header = "Content-Length: " + message.byteLength + BODY_SPLIT_CHARS;\n\n		process.stdout.write(header + message.toString("utf8"));')),
	('byteLength of text', 'keep', C, op(WRITE, 'const text = message.toString();\n\n		process.stdout.write(`Content-Length: ${Buffer.byteLength(text)}${BODY_SPLIT_CHARS}${text}`);')),
	('arrow instead of bind', 'keep', C, op('setImmediate(this.sendRequestMessageBuffer.bind(this))', 'setImmediate(() => this.sendRequestMessageBuffer())')),
	('find before view', 'keep', C, op('const splitOffset = received.indexOf(BODY_SPLIT_CHARS);', 'const splitOffset = received.indexOf("\\r\\n\\r\\n", 0);')),
	('received at the end', 'keep', C, op('const headers = received', 'const headers = this.requestBuffer')),
]
