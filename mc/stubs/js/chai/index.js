function assert(ok, msg) { if (!ok) throw new Error(msg || "assertion failed"); }
for (const [n, f] of Object.entries({ equal: (a, b) => a == b, strictEqual: (a, b) => a === b, deepEqual: (a, b) => require("util").isDeepStrictEqual(a, b), lengthOf: (a, n) => a.length === n, isTrue: (a) => a === true, isEmpty: (a) => a.length === 0 }))
  assert[n] = (...x) => assert(f(...x), n);
exports.assert = assert;
