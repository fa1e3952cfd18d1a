// Reads groups of cases, one group a line, verifies the cases of a group at the same time, and answers in one line.
const fs = require('fs');
for (const k of ['log', 'info', 'warn', 'error', 'debug', 'trace']) console[k] = () => {};
const { verifyCertification, Principal } = require(process.argv[2]);
const hex = (b) => Buffer.from(b instanceof ArrayBuffer ? new Uint8Array(b) : b).toString('hex');
const bytes = (s) => new Uint8Array(Buffer.from(s, 'hex'));
const buffer = (s) => bytes(s).buffer;

let now = 0;
const RealDate = Date;
globalThis.Date = class extends RealDate {
  constructor(...a) { if (a.length) super(...a); else super(now); }
  static now() { return now; }
};

const plain = (t) => t.map((x) => (Array.isArray(x) ? plain(x) : typeof x === 'number' ? x : hex(x)));

async function one(c) {
  const p = {
    canisterId: Principal.fromUint8Array(bytes(c.canister)),
    encodedCertificate: buffer(c.certificate),
    encodedTree: buffer(c.tree),
    rootKey: buffer(c.root),
    maxCertificateTimeOffsetMs: c.offset,
  };
  let out;
  try {
    out = { tree: plain(await verifyCertification(p)) };
  } catch (e) {
    out = { err: e && e.constructor ? e.constructor.name : String(e), name: e && e.name, message: String(e && e.message), error: e instanceof Error };
  }
  if (hex(p.encodedCertificate) !== c.certificate || hex(p.encodedTree) !== c.tree || hex(p.rootKey) !== c.root || hex(p.canisterId.toUint8Array()) !== c.canister)
    out.changed = true;
  return out;
}

async function main() {
  for await (const line of require('readline').createInterface({ input: process.stdin })) {
    const g = JSON.parse(line);
    now = g.now;
    fs.writeSync(1, JSON.stringify(await Promise.all(g.cases.map(one))) + '\n');
  }
}
main();
