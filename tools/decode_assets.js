// Decodes every embedded file as a browser would and checks that it is what its name says. argv[2]: list written by "--assets".
'use strict';
const fs = require('fs'), zlib = require('zlib'), vm = require('vm');
let bad = 0;
for (const line of fs.readFileSync(process.argv[2], 'utf8').trim().split('\n')) {
    const [path, name, encoding, size] = line.split('\t');
    try {
        if (encoding === 'MISSING') throw new Error('is not provided');
        let data = fs.readFileSync(path);
        const stored = data.length;
        if (stored !== Number(size)) throw new Error('cannot be read');
        if (encoding === 'br') data = zlib.brotliDecompressSync(data);
        else if (encoding === 'gzip') data = zlib.gunzipSync(data);
        else if (encoding !== '') throw new Error('has the unknown encoding ' + encoding);
        if (data.length === 0) throw new Error('is empty');
        const text = data.toString('utf8');
        if (/\.(js|html|css)$/.test(name) && Buffer.compare(Buffer.from(text, 'utf8'), data) !== 0) throw new Error('is not UTF-8 text');
        if (name.endsWith('.js')) new vm.Script(text, { filename: name });
        else if (name.endsWith('.html') && !/<html/i.test(text)) throw new Error('is not HTML');
        else if (name.endsWith('.png') && data.subarray(1, 4).toString() !== 'PNG') throw new Error('is not a PNG image');
        else if (name.endsWith('.css') && (text.split('{').length !== text.split('}').length)) throw new Error('is not a style sheet');
        console.log(`OK ${name} ${encoding || 'identity'} ${stored} -> ${data.length}`);
    } catch (e) {
        ++bad;
        console.log(`BAD ${name}: ${String(e.message).replace(/\s+/g, ' ')}`);
    }
}
process.exit(bad ? 1 : 0);
