// A replica for one canister at a time: takes one message per line, answers in one line.
// Messages that trap leave nothing behind, queries neither.
const fs = require('fs');
const hex = (b) => Buffer.from(b).toString('hex');
const unhex = (s) => new Uint8Array(Buffer.from(s, 'hex'));
const say = (x) => fs.writeSync(1, JSON.stringify(x) + '\n');

const modules = {};
function load(name) {
  return (modules[name] ||= new WebAssembly.Module(fs.readFileSync(`${process.argv[2]}/canister_${name}.wasm`)));
}

class Trap extends Error {}
let code, instance, site, msg;

const view = () => new Uint8Array(instance.exports.memory.buffer);
const read = (at, n) => view().slice(at >>> 0, (at >>> 0) + (n >>> 0));
const write = (at, b) => view().set(b, at >>> 0);
const trap = (m) => { throw new Trap(m); };

const ic0 = {
  msg_arg_data_size: () => msg.arg.length,
  msg_arg_data_copy: (dst, at, n) => write(dst, msg.arg.subarray(at, at + n)),
  msg_caller_size: () => 1,
  msg_caller_copy: (dst, at, n) => write(dst, Uint8Array.of(4).subarray(at, at + n)),
  msg_reply_data_append: (src, n) => { msg.data.push(read(src, n)); },
  msg_reply: () => { msg.reply !== undefined ? trap('a second reply') : (msg.reply = hex(Buffer.concat(msg.data))); },
  msg_reject: (src, n) => trap('rejected: ' + Buffer.from(read(src, n)).toString()),
  certified_data_set: (src, n) => {
    if (msg.kind === 'query') trap('certified data set by a query');
    if (n > 32) trap('certified data of more than 32 bytes');
    msg.certified = hex(read(src, n));
  },
  data_certificate_present: () => (msg.cert ? 1 : 0),
  data_certificate_size: () => (msg.cert ? msg.cert.length : trap('no certificate')),
  data_certificate_copy: (dst, at, n) => (msg.cert ? write(dst, msg.cert.subarray(at, at + n)) : trap('no certificate')),
  time: () => BigInt(msg.time),
  trap: (src, n) => trap(Buffer.from(read(src, n)).toString()),
  debug_print: () => {},
  canister_cycle_balance: () => 1000000000000n,
  canister_cycle_balance128: (dst) => { const b = new Uint8Array(16); b[5] = 1; write(dst, b); },
  canister_self_size: () => 10,
  canister_status: () => 1,
  canister_version: () => 1n,
  performance_counter: () => 0n,
};
const siteImports = { size: () => site.length, copy: (dst) => write(dst, site) };

function instantiate() {
  const imports = { ic0: {}, site: siteImports };
  for (const i of WebAssembly.Module.imports(code)) {
    if (i.module === 'ic0') imports.ic0[i.name] = ic0[i.name] || (() => trap('a system call the canister has no use for: ' + i.name));
  }
  instance = new WebAssembly.Instance(code, imports);
}

function restore(before) {
  instantiate();
  const m = instance.exports.memory;
  if (m.buffer.byteLength < before.length) m.grow((before.length - m.buffer.byteLength) / 65536);
  view().set(before);
}

function call(c) {
  msg = { kind: c.kind, arg: unhex(c.arg || ''), cert: c.cert ? unhex(c.cert) : null, time: c.time, data: [] };
  const f = instance.exports[c.entry];
  if (!f) return { trapped: 'no method ' + c.entry };
  const before = view().slice();
  try {
    f();
  } catch (e) {
    restore(before);
    if (e instanceof Trap || e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { trapped: String(e.message) };
    throw e;
  }
  if (c.kind === 'query') restore(before);
  return { reply: msg.reply === undefined ? null : msg.reply, certified: msg.certified === undefined ? null : msg.certified };
}

function run(c) {
  if (c.install) {
    code = load(c.install);
    site = unhex(c.site || '');
    instantiate();
    return c.entry ? call(c) : {};
  }
  return call(c);
}

let buf = [];
const chunk = Buffer.alloc(1 << 20);
for (;;) {
  let n = 0;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
  if (n === 0) break;
  let part = chunk.subarray(0, n);
  for (let at; (at = part.indexOf(10)) >= 0; part = part.subarray(at + 1)) {
    buf.push(Buffer.from(part.subarray(0, at)));
    const line = Buffer.concat(buf).toString();
    buf = [];
    say(run(JSON.parse(line)));
  }
  buf.push(Buffer.from(part));
}
