// stand-in: the Goldilocks field; the parts that prove are not used (the Rust prover is)
const p = 0xffffffff00000001n;
const m = (x) => ((x % p) + p) % p;
class F1 {
  constructor() {
    this.p = p;
    this.zero = 0n;
    this.one = 1n;
    this.two = 2n;
    this.negone = p - 1n;
    this.k = 12275445934081160404n;
    this.shift = 49n;
    this.w = [1n];
    let w = this.exp(7n, (p - 1n) >> 32n);
    for (let i = 32; i > 0; i--, w = this.mul(w, w)) this.w[i] = w;
  }
  e(x) { return m(BigInt(x)); }
  add(a, b) { return m(a + b); }
  sub(a, b) { return m(a - b); }
  mul(a, b) { return m(a * b); }
  neg(a) { return m(-a); }
  square(a) { return m(a * a); }
  double(a) { return m(a + a); }
  exp(a, n) {
    let r = 1n;
    for (a = m(a), n = BigInt(n); n > 0n; n >>= 1n, a = m(a * a)) if (n & 1n) r = m(r * a);
    return r;
  }
  pow(a, n) { return this.exp(a, n); }
  inv(a) {
    if (m(a) === 0n) throw new Error("Zero inverse");
    return this.exp(a, p - 2n);
  }
  div(a, b) { return this.mul(a, this.inv(b)); }
  eq(a, b) { return m(a) === m(b); }
  isZero(a) { return m(a) === 0n; }
  toString(a) { return m(a).toString(); }
}
exports.F1 = F1;
exports.FGL = new F1();
for (const n of ["starkSetup", "starkGen", "starkVerify"]) exports[n] = () => { throw new Error("stand-in: " + n); };
