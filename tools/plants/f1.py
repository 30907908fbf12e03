
MACHINE = """// the machine that a script gives to the prover, built on columns of n rows
const { pil_verifier } = require("./index.js");
async function machine(script, ns, names, n, input) {
  let b;
  pil_verifier.generate = async (w, f, c, cache, builder) => { b = builder; };
  process.argv = ["node", script, "-w", "w", "--i", "0", "--pc", "pc", "-p", "fibonacci.pil"];
  require(script);
  const cols = (l) => Object.fromEntries(l.map((x) => [x, x === "C" ? Array.from({ length: 12 }, () => new Array(n)) : new Array(n)]));
  const k = { Global: cols(["L1"]), [ns]: cols(names.k) }, w = { [ns]: cols(names.w || []) };
  await b.buildConstants(k, input);
  return [b, k[ns], w];
}
"""
bug("poseidon-latch-tail", "P36", [("starkjs/poseidon/sm_poseidong.js", "pols.LATCH[i] = ((iH<maxHashes) && (i % (nRoundsF + nRoundsP + 1) == 0)) ? 1n : 0n;", "pols.LATCH[i] = ((iH<=maxHashes) && (r == 0)) ? 1n : 0n;")],
 MACHINE + """machine("./poseidon/main_poseidon.js", "PoseidonG", { k: ["LAST", "LATCH", "LASTBLOCK", "PARTIAL", "C", "LINPUT", "LOUTPUT"] }, 64).then(([, k]) => {
  // 64 rows hold two hashes; the two rows left hold none
  const at = k.LATCH.flatMap((x, i) => (x ? [i] : []));
  if (at.join() !== "0,31") throw new Error(at.join());
});
""", "a trace with results marked in the incomplete block at its end", "the circuit accepts results where no hash is computed", kind="js")
bug("trace-check-unawaited", "P36", [("starkjs/src/pil_verifier.js", """    const res = await verifyPil(FGL, pil, cmPols, constPols);
    assert(res.length == 0);
""", """    const res = verifyPil(FGL, pil, cmPols, constPols);
    assert(!res.length);
""")], """const { pil_verifier } = require("./index.js"), fs = require("fs"), path = require("path");
const f = path.join(process.env.MC_TMP, "c.pil");
const one = { references: { "A.x": { type: "cmP", id: 0, polDeg: 2, isArray: false } }, nConstants: 0 };
fs.writeFileSync(f + ".json", JSON.stringify(one));
const run = (fault) => {
  process.env.MC_FAULT = fault;
  const b = { async buildConstants() {}, async execute(p) { p.A.x[0] = p.A.x[1] = 1n; } };
  return pil_verifier.generate("w", f, {}, path.join(process.env.MC_TMP, "cache" + fault), b, {}, "0", []).then(() => true, () => false);
};
(async () => {
  if (!(await run(""))) throw new Error("a satisfying trace is refused");
  if (await run("verify")) throw new Error("a trace that fails the check is reported as good");
})();
""", "a trace that does not satisfy its circuit", "the result of the check is not looked at, the trace is handed on as good", kind="js")
bug("connection-last-row", "P36", [("starkjs/connection/connection.js", """        connect(pols.S1, i, pols.S2, N/2 +  (i-1)/2);
        connect(pols.S2, i, pols.S3, N/2 +  (i-1)/2);
""", """        // the odd rows are connected to the second half; the last one is connected to itself
        const to = N/2 +  (i-1)/2;
        connect(pols.S1, i, pols.S2, to);
        if (to != i) connect(pols.S2, i, pols.S3, to);
""")], MACHINE + """machine("./connection/connection.js", "Connection", { k: ["S1", "S2", "S3"], w: ["a", "b", "c"] }, 4).then(async ([b, k, w]) => {
  const { FGL: F } = require("pil-stark"), { getKs } = require("pilcom");
  const ks = [F.one, ...getKs(F, 2)], id = ["S1", "S2", "S3"].map((_, j) => [0, 1, 2, 3].map((i) => F.mul(ks[j], F.exp ? F.exp(F.w[2], BigInt(i)) : [1n, F.w[2], F.mul(F.w[2], F.w[2]), F.mul(F.w[2], F.mul(F.w[2], F.w[2]))][i])));
  // the last row of c is tied to the last row of b
  if (k.S3[3] === id[2][3]) throw new Error("the last row of c is tied to nothing");
});
""", "a trace whose last value of c, its public value, is another than b's", "the circuit accepts it", kind="js")
