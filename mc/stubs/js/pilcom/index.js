// stand-in: the compiled circuit is the one prepared beside the file (FILE.json); columns are plain arrays, written
// as 64-bit words row by row; the check of the trace reports what MC_UNSATISFIED says (the harness evaluates it itself)
const fs = require("fs");
const P = 0xffffffff00000001n;
const dir = process.env.MC_TMP;
/// nothing is written outside the scratch folder
const at = (f) => (dir && require("path").dirname(f) === "/tmp" ? require("path").join(dir, require("path").basename(f)) : f);
exports.at = at;
exports.compile = async (F, file, name, config) => {
  if (process.env.MC_FAULT === "compile") throw new Error("compile fails");
  return JSON.parse(await fs.promises.readFile(file + ".json", "utf8"));
};
class PolsArray {
  constructor(pil, kind) {
    Object.defineProperty(this, "$$array", { value: [], enumerable: false });
    this.$$array.n = 0;
    for (const [name, r] of Object.entries(pil.references)) {
      if (r.type !== kind) continue;
      const [ns, pol] = name.split(".");
      this[ns] ||= {};
      const cols = [];
      for (let i = 0; i < (r.isArray ? r.len : 1); i++) this.$$array[r.id + i] = cols[i] = new Array(r.polDeg);
      this[ns][pol] = r.isArray ? cols : cols[0];
      this.$$array.n = r.polDeg;
    }
  }
  get words() {
    const a = this.$$array, w = new BigUint64Array(a.n * a.length);
    for (let i = 0, k = 0; i < a.n; i++) for (let j = 0; j < a.length; j++, k++) w[k] = a[j][i] < 0n ? a[j][i] + P : a[j][i];
    return w;
  }
  async saveToFile(f) {
    if (process.env.MC_FAULT === "save") throw new Error("save fails");
    fs.writeFileSync(at(f), new Uint8Array(this.words.buffer));
  }
  writeToBuff() { return this.words; }
}
exports.newConstantPolsArray = (pil) => new PolsArray(pil, "constP");
exports.newCommitPolsArray = (pil) => new PolsArray(pil, "cmP");
exports.verifyPil = async (F, pil, cm, k) => {
  if (process.env.MC_FAULT === "verify") return ["a row fails"];
  return [];
};
exports.getKs = (F, n) => {
  const ks = [F.k];
  for (let i = 1; i < n; i++) ks.push(F.mul(ks[i - 1], ks[0]));
  return ks;
};
exports.BigBuffer = class { constructor(n) { this.length = n; } };
