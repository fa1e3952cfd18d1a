// Reads one case per line, calls the JavaScript bindings of the verifier, and answers in one line.
const fs = require('fs');
for (const k of ['log', 'info', 'warn', 'error', 'debug', 'trace']) console[k] = () => {};
const wasm = require(process.argv[2] + '/wasmpair.js');
const hex = (b) => Buffer.from(b).toString('hex');
const unhex = (s) => new Uint8Array(Buffer.from(s, 'hex'));
const say = (x) => fs.writeSync(1, JSON.stringify(x) + '\n');

// The same bytes as an array, or as a view into a larger buffer.
function bytes(s, how) {
  const b = unhex(s);
  if (how === 1) return Array.from(b);
  if (how === 2) {
    const big = new Uint8Array(b.length + 7).fill(0xee);
    big.set(b, 3);
    return big.subarray(3, 3 + b.length);
  }
  return b;
}

function entries(o, order) {
  const es = Object.entries(o);
  const out = {};
  order.forEach((i) => { if (i < es.length) out[es[i][0]] = es[i][1]; });
  es.forEach(([k, v]) => { if (!(k in out)) out[k] = v; });
  return out;
}

function run(c) {
  if (c.limits) return { min: wasm.getMinVerificationVersion(), max: wasm.getMaxVerificationVersion() };
  const req = entries({ url: c.url, method: c.method, body: bytes(c.reqBody, c.how), headers: c.reqHeaders, certificate_version: [] }, c.order);
  const resp = entries({ status_code: c.status, headers: c.headers, body: bytes(c.body, c.how), streaming_strategy: [] }, c.order);
  const before = JSON.stringify([req, resp]);
  let r;
  try {
    r = wasm.verifyRequestResponsePair(req, resp, unhex(c.canister), BigInt(c.now), BigInt(c.offset), unhex(c.root), c.min);
  } catch (e) {
    if (e instanceof wasm.ResponseVerificationError) {
      const out = { err: { code: wasm.ResponseVerificationErrorCode[e.code], message: e.message } };
      e.free();
      return out;
    }
    return { trap: String(e && e.stack || e).slice(0, 600) };
  }
  if (JSON.stringify([req, resp]) !== before) return { trap: 'the arguments were changed' };
  const out = { keys: Object.keys(r).sort(), version: r.verificationVersion, response: null };
  if (r.response !== undefined) {
    const p = r.response;
    out.response = {
      keys: Object.keys(p).sort(),
      status: p.statusCode === undefined ? null : p.statusCode,
      headers: p.headers,
      typed: p.body instanceof Uint8Array && Array.isArray(p.headers),
      body: hex(p.body),
    };
  }
  return { ok: out };
}

let buf = [];
const chunk = Buffer.alloc(1 << 20);
for (;;) {
  let n = 0;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
  if (n === 0) break;
  let part = chunk.subarray(0, n);
  for (let at; (at = part.indexOf(10)) >= 0; part = part.subarray(at + 1)) {
    buf.push(Buffer.from(part.subarray(0, at)));
    const line = Buffer.concat(buf).toString();
    buf = [];
    const out = run(JSON.parse(line));
    say(out);
    if (out.trap) process.exit(0);
  }
  buf.push(Buffer.from(part));
}
