// Stands in for what @dfinity/candid 1.x exports to readers of buffers.
export function bufFromBufLike(b) {
  if (b instanceof Uint8Array) return b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength);
  if (b instanceof ArrayBuffer) return b;
  if (Array.isArray(b)) return new Uint8Array(b).buffer;
  if (b && 'buffer' in b) return bufFromBufLike(b.buffer);
  return new Uint8Array(b).buffer;
}
export function concat(...bufs) {
  const all = bufs.map((b) => new Uint8Array(b));
  const out = new Uint8Array(all.reduce((n, b) => n + b.byteLength, 0));
  let at = 0;
  for (const b of all) { out.set(b, at); at += b.byteLength; }
  return out.buffer;
}
export function compare(a, b) {
  if (a.byteLength !== b.byteLength) return a.byteLength - b.byteLength;
  const x = new Uint8Array(a), y = new Uint8Array(b);
  for (let i = 0; i < x.length; i++) if (x[i] !== y[i]) return x[i] - y[i];
  return 0;
}
export const bufEquals = (a, b) => compare(a, b) === 0;
export const toHexString = (b) => Buffer.from(bufFromBufLike(b)).toString('hex');
export const fromHexString = (s) => bufFromBufLike(new Uint8Array(Buffer.from(s, 'hex')));

export class PipeArrayBuffer {
  constructor(buffer, length = buffer ? buffer.byteLength : 0) {
    this._buffer = bufFromBufLike(buffer || new ArrayBuffer(0));
    this._view = new Uint8Array(this._buffer, 0, length);
  }
  get buffer() { return bufFromBufLike(this._view.slice()); }
  get byteLength() { return this._view.byteLength; }
  get end() { return this._view.byteLength === 0; }
  read(n) {
    const r = this._view.subarray(0, n);
    this._view = this._view.subarray(n);
    return r.slice().buffer;
  }
  readUint8() {
    const r = this._view[0];
    this._view = this._view.subarray(1);
    return r;
  }
}
export function lebDecode(pipe) {
  let weight = 1n, value = 0n, byte;
  do {
    byte = pipe.readUint8();
    if (byte === undefined) throw new Error('unexpected end of buffer');
    value += BigInt(byte & 0x7f) * weight;
    weight *= 128n;
  } while (byte >= 0x80);
  return value;
}
