// Stands in for @dfinity/principal.
export class Principal {
  constructor(bytes) { this._arr = bytes; this._isPrincipal = true; }
  static fromUint8Array(b) { return new Principal(b); }
  static from(x) { return x instanceof Principal ? x : Principal.fromHex(x); }
  static fromHex(s) { return new Principal(new Uint8Array(Buffer.from(s, 'hex'))); }
  toUint8Array() { return this._arr; }
  toHex() { return Buffer.from(this._arr).toString('hex').toUpperCase(); }
  toText() { return this.toHex(); }
  toString() { return this.toText(); }
  compareTo(o) {
    for (let i = 0; i < Math.min(this._arr.length, o._arr.length); i++) {
      if (this._arr[i] < o._arr[i]) return 'lt';
      if (this._arr[i] > o._arr[i]) return 'gt';
    }
    return this._arr.length < o._arr.length ? 'lt' : this._arr.length > o._arr.length ? 'gt' : 'eq';
  }
  ltEq(o) { return this.compareTo(o) !== 'gt'; }
  gtEq(o) { return this.compareTo(o) !== 'lt'; }
}
