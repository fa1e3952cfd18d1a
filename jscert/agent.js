// Stands in for what @dfinity/agent 1.x exports for certificates and trees. A certificate counts as signed by a key if its
// signature is the hash of the key and the root; times are left to the caller.
import { bufFromBufLike, concat, compare } from './candid.js';
import { Principal } from './principal.js';
export { compare, concat, bufFromBufLike };
export const toHex = (b) => Buffer.from(bufFromBufLike(b)).toString('hex');
export const fromHex = (s) => bufFromBufLike(new Uint8Array(Buffer.from(s, 'hex')));
export const hash = (b) => globalThis.crypto.subtle.digest('SHA-256', b);
export class AgentError extends Error {}
export class CertificateVerificationError extends AgentError {
  constructor(reason) { super(`Certificate verification failed: "${reason}"`); }
}
export const NodeId = { Empty: 0, Fork: 1, Labeled: 2, Leaf: 3, Pruned: 4 };
const utf8 = (s) => new TextEncoder().encode(s);

function decode(data) {
  const b = new Uint8Array(data);
  let at = 0;
  const head = () => {
    if (at >= b.length) throw new Error('unexpected end of cbor');
    const major = b[at] >> 5, info = b[at] & 31;
    at += 1;
    if (info < 24) return [major, info];
    const n = { 24: 1, 25: 2, 26: 4, 27: 8 }[info];
    if (!n || at + n > b.length) throw new Error('bad cbor head');
    let v = 0;
    for (let i = 0; i < n; i++) v = v * 256 + b[at + i];
    at += n;
    return [major, v];
  };
  const take = (n) => {
    if (at + n > b.length) throw new Error('unexpected end of cbor');
    at += n;
    return b.slice(at - n, at);
  };
  const value = () => {
    const [major, n] = head();
    if (major === 0) return n;
    if (major === 2) return bufFromBufLike(take(n));
    if (major === 3) return new TextDecoder().decode(take(n));
    if (major === 4) { const a = []; for (let i = 0; i < n; i++) a.push(value()); return a; }
    if (major === 5) { const o = {}; for (let i = 0; i < n; i++) { const k = value(); o[k] = value(); } return o; }
    if (major === 6) return value();
    throw new Error('cbor of another kind');
  };
  const v = value();
  if (at !== b.length) throw new Error('data after the end');
  return v;
}
export const Cbor = { decode };

const sep = (s) => concat(new Uint8Array([s.length]), utf8(s));
export const hashTreeToString = (t) => JSON.stringify(t);
export async function reconstruct(t) {
  switch (t[0]) {
    case 0: return hash(sep('ic-hashtree-empty'));
    case 1: return hash(concat(sep('ic-hashtree-fork'), await reconstruct(t[1]), await reconstruct(t[2])));
    case 2: return hash(concat(sep('ic-hashtree-labeled'), t[1], await reconstruct(t[2])));
    case 3: return hash(concat(sep('ic-hashtree-leaf'), t[1]));
    case 4: return t[1];
    default: throw new Error('unreachable');
  }
}
const flatten = (t) => (t[0] === 0 ? [] : t[0] === 1 ? flatten(t[1]).concat(flatten(t[2])) : [t]);
export function lookup_path(path, tree) {
  if (path.length === 0) {
    if (tree[0] !== 3) return undefined;
    return bufFromBufLike(tree[1]);
  }
  const label = bufFromBufLike(typeof path[0] === 'string' ? utf8(path[0]) : path[0]);
  const found = flatten(tree).find((x) => x[0] === 2 && compare(bufFromBufLike(x[1]), label) === 0);
  return found ? lookup_path(path.slice(1), found[2]) : undefined;
}
export class Certificate {
  static async create(options) {
    const c = Certificate.createUnverified(options);
    await c.verify();
    return c;
  }
  static createUnverified(options) {
    return new Certificate(options);
  }
  constructor({ certificate, rootKey, canisterId }) {
    this.rawCert = certificate;
    this._rootKey = rootKey;
    this._canisterId = canisterId;
    this.cert = decode(new Uint8Array(certificate));
  }
  lookup(path) { return lookup_path(path, this.cert.tree); }
  lookup_label(label) { return this.lookup([label]); }
  async verify() {
    const root = await reconstruct(this.cert.tree);
    const key = await this.key(this.cert.delegation);
    if (!this.lookup(['time'])) throw new CertificateVerificationError('Certificate does not contain a time');
    const want = await hash(concat(utf8('toy'), key, sep('ic-state-root'), root));
    if (!this.cert.signature || compare(want, this.cert.signature) !== 0) throw new CertificateVerificationError('Signature verification failed');
  }
  async key(d) {
    if (!d) return this._rootKey;
    const c = Certificate.createUnverified({ certificate: d.certificate, rootKey: this._rootKey, canisterId: this._canisterId });
    if (c.cert.delegation) throw new CertificateVerificationError('Delegation certificates cannot be nested');
    await c.verify();
    const ranges = c.lookup(['subnet', d.subnet_id, 'canister_ranges']);
    const id = Principal.fromUint8Array(this._canisterId.toUint8Array());
    const inside = ranges && decode(ranges).some(([lo, hi]) => id.gtEq(new Principal(new Uint8Array(lo))) && id.ltEq(new Principal(new Uint8Array(hi))));
    if (!inside) throw new CertificateVerificationError('Canister not in range of delegations');
    const key = c.lookup(['subnet', d.subnet_id, 'public_key']);
    if (!key) throw new CertificateVerificationError('Could not find the key of the subnet');
    return key;
  }
}
