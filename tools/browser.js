// The browser side of a simulated run: executes the page scripts the server ships, in one vm context per page, on command of the
// simulator. Everything is synchronous: a command comes in on the descriptor, its effects go out in the reply. Nothing here is random.
'use strict';
const fs = require('fs'), vm = require('vm'), zlib = require('zlib');
const fd = Number(process.argv[2]);

function readN(n) {
    const b = Buffer.alloc(n);
    for (let o = 0; o < n;) {
        let k;
        try { k = fs.readSync(fd, b, o, n - o, null); } catch (e) { if (e.code === 'EINTR' || e.code === 'EAGAIN') continue; process.exit(0); }
        if (k === 0) process.exit(0);
        o += k;
    }
    return b;
}
function writeAll(b) {
    for (let o = 0; o < b.length;) {
        try { o += fs.writeSync(fd, b, o, b.length - o); } catch (e) { if (e.code === 'EINTR' || e.code === 'EAGAIN') continue; process.exit(0); }
    }
}
const u32 = n => { const b = Buffer.alloc(4); b.writeUInt32LE(n >>> 0); return b; };

// values of parameters: T F, N + 8 bytes little endian, S + length + utf-8, A + count + elements
function pack(v, out) {
    if (v === true) out.push(Buffer.from('T'));
    else if (v === false) out.push(Buffer.from('F'));
    else if (typeof v === 'number') { const b = Buffer.alloc(9); b[0] = 78; b.writeDoubleLE(v, 1); out.push(b); }
    else if (typeof v === 'string') { const t = Buffer.from(v, 'utf8'); out.push(Buffer.from('S'), u32(t.length), t); }
    else if (Array.isArray(v)) { out.push(Buffer.from('A'), u32(v.length)); for (let i = 0; i < v.length; ++i) pack(v[i], out); }
    else { const t = Buffer.from(String(v)); out.push(Buffer.from('?'), u32(t.length), t); }
}
function unpack(b, at, mk) {
    switch (b[at.p++]) {
    case 84: return true;
    case 70: return false;
    case 78: at.p += 8; return b.readDoubleLE(at.p - 8);
    case 83: { const n = b.readUInt32LE(at.p); at.p += 4 + n; return b.toString('utf8', at.p - n, at.p); }
    case 65: { const n = b.readUInt32LE(at.p); at.p += 4; const r = mk(); for (let i = 0; i < n; ++i) r.push(unpack(b, at, mk)); return r; }
    default: throw new Error('bad value');
    }
}

let effects = [];
const effect = (kind, page, ...f) => effects.push([kind, String(page), ...f.map(x => Buffer.isBuffer(x) ? x : Buffer.from(String(x), 'utf8'))]);
let pages = new Map();

class Page {
    constructor(id, port, url) {
        this.id = id;
        this.port = port;
        this.url = new URL(url, 'http://localhost' + (port === '80' ? '' : ':' + port));
        this.sockets = [];
        this.todo = [];
        const page = this;
        const text = a => Array.prototype.slice.call(a, 0, 16).map(x => { try { return String(x); } catch (e) { return '?'; } }).join(' ');
        const box = {
            TextEncoder, TextDecoder,
            console: {}, report(name, args) { const out = []; pack(Array.prototype.slice.call(args), out); effect('called', id, name, Buffer.concat(out)); }
        };
        for (const level of ['log', 'error', 'warn', 'info', 'debug']) box.console[level] = function () { effect('console', id, level, text(arguments)); };
        box.location = { port: this.url.port, hostname: this.url.hostname, host: this.url.host, protocol: this.url.protocol, pathname: this.url.pathname, href: this.url.href };
        this.body = {
            appendChild(el) {
                if (el.tagName !== 'SCRIPT' || el.started) return el;
                el.started = true;
                effect('script', id, el.text);
                page.run(el.text, 'injected');
                return el;
            }
        };
        box.document = { createElement(tag) { return { tagName: String(tag).toUpperCase(), text: '', started: false }; }, body: null };
        this.document = box.document;
        box.WebSocket = class WebSocket {
            constructor(url, protocols) {
                const u = new URL(url);
                this.url = u.href;
                this.readyState = 0;
                this.binaryType = 'blob';
                this.protocol = '';
                this.id = page.sockets.length;
                page.sockets.push(this);
                const list = protocols === undefined ? [] : typeof protocols === 'string' ? [protocols] : Array.from(protocols);
                effect('socket', id, u.protocol, u.hostname, u.port || '80', u.pathname, list.join(','));
            }
            send(data) {
                if (this.readyState === 0) throw new Error('InvalidStateError: still connecting');
                if (this.readyState !== 1) return;
                if (typeof data === 'string') effect('send', id, this.id, '1', data);
                else if (ArrayBuffer.isView(data)) effect('send', id, this.id, '2', Buffer.from(Buffer.from(data.buffer, data.byteOffset, data.byteLength)));
                else effect('send', id, this.id, '2', Buffer.from(Buffer.from(data)));
            }
            close() { this.readyState = 2; effect('wsclose', id, this.id); }
        };
        this.ctx = vm.createContext(box);
        vm.runInContext('var window = globalThis, self = globalThis;', this.ctx);
        this.mkArray = vm.runInContext('() => []', this.ctx);
        this.doCall = vm.runInContext('(n, a) => { webFront.cppFunction(n).apply(null, a); }', this.ctx);
    }
    run(source, what) {
        try { vm.runInContext(source, this.ctx, { filename: what }); }
        catch (e) { effect('error', this.id, what, e && e.name ? e.name + ': ' + e.message : String(e)); }
    }
    dispatch(s, handler, event) {
        if (typeof s[handler] !== 'function') return;
        try { s[handler].call(s, event); } catch (e) { effect('error', this.id, handler, String(e)); }
    }
    decode(encoding, body) {
        switch (encoding.trim().toLowerCase()) {
        case '': case 'identity': return body;
        case 'gzip': return zlib.gunzipSync(body);
        case 'deflate': return zlib.inflateSync(body);
        case 'br': return zlib.brotliDecompressSync(body);
        default: throw new Error('unknown content coding ' + encoding);
        }
    }
    load(encoding, body) {
        let html;
        try { html = this.decode(encoding, body).toString('utf8'); } catch (e) { effect('broken', this.id, String(e)); return; }
        const re = /<script([^>]*)>([\s\S]*?)<\/script>/gi;
        for (let m; (m = re.exec(html));) {
            const src = /\bsrc\s*=\s*["']?([^"'\s>]+)/i.exec(m[1]);
            const body = /<body[\s>]/i.test(html.slice(0, m.index)); // the body exists as soon as its tag was passed
            this.todo.push(src ? { body, src: new URL(src[1], this.url).pathname } : { body, text: m[2] });
        }
        this.advance();
    }
    advance() {
        while (this.todo.length) {
            const t = this.todo[0];
            if (t.body) this.document.body = this.body;
            if (t.src !== undefined) { effect('fetch', this.id, t.src); return; }
            this.todo.shift();
            this.run(t.text, 'inline');
        }
        this.document.body = this.body;
        effect('loaded', this.id);
    }
}

const ops = {
    reset() { pages = new Map(); },
    page(id, port, url) { pages.set(String(id), new Page(String(id), String(port), String(url))); },
    doc(id, encoding, body) { pages.get(String(id)).load(String(encoding), body); },
    script(id, encoding, body) {
        const p = pages.get(String(id));
        const t = p.todo.shift();
        let text;
        try { text = new TextDecoder('utf-8').decode(p.decode(String(encoding), body)); } catch (e) { effect('broken', id, String(e)); return; }
        p.run(text, t.src);
        p.advance();
    },
    open(id, n, protocol) { const p = pages.get(String(id)), s = p.sockets[Number(String(n))]; s.readyState = 1; s.protocol = String(protocol); p.dispatch(s, 'onopen', { type: 'open' }); },
    message(id, n, opcode, data) {
        const p = pages.get(String(id)), s = p.sockets[Number(String(n))];
        if (s.readyState !== 1) return;
        const payload = String(opcode) === '1' ? data.toString('utf8') : s.binaryType === 'arraybuffer' ? new Uint8Array(data).buffer : { size: data.length, type: '' };
        p.dispatch(s, 'onmessage', { type: 'message', data: payload });
    },
    close(id, n, clean, code) {
        const p = pages.get(String(id)), s = p.sockets[Number(String(n))];
        if (s.readyState === 3) return;
        s.readyState = 3;
        if (String(clean) !== '1') p.dispatch(s, 'onerror', { type: 'error' });
        p.dispatch(s, 'onclose', { type: 'close', wasClean: String(clean) === '1', code: Number(String(code)), reason: '' });
    },
    call(id, name, args) {
        const p = pages.get(String(id));
        try { p.doCall(String(name), unpack(args, { p: 0 }, p.mkArray)); } catch (e) { effect('thrown', id, String(e)); }
    },
    eval(id, source) {
        const p = pages.get(String(id));
        try { effect('value', id, String(vm.runInContext(source.toString('utf8'), p.ctx))); } catch (e) { effect('thrown', id, String(e)); }
    }
};

for (;;) {
    const frame = readN(readN(4).readUInt32LE(0));
    const f = [];
    for (let o = 0; o < frame.length;) { const n = frame.readUInt32LE(o); f.push(frame.subarray(o + 4, o + 4 + n)); o += 4 + n; }
    effects = [];
    let status = 'ok';
    try { ops[String(f[1])](...f.slice(2)); } catch (e) { status = 'bad command ' + String(f[1]) + ': ' + (e && e.stack); }
    const out = [];
    const field = b => { b = Buffer.isBuffer(b) ? b : Buffer.from(String(b)); out.push(u32(b.length), b); };
    field(f[0]);
    field(status);
    for (const e of effects) { field(String(e.length)); e.forEach(field); }
    const all = Buffer.concat(out);
    writeAll(u32(all.length));
    writeAll(all);
}
