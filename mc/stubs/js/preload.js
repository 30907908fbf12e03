// loaded before a script: files in /tmp are moved into the scratch folder; with MC_JOBS, the script's call
// for a trace is recorded and made, then made again for every input listed there
const fs = require("fs"), path = require("path");
const dir = process.env.MC_TMP;
const at = (f) => (typeof f === "string" && path.dirname(path.resolve(f)) === "/tmp" && path.resolve(f) !== dir ? path.join(dir, path.basename(f)) : f);
for (const o of [fs, fs.promises])
  for (const n of ["writeFile", "writeFileSync", "readFile", "readFileSync", "existsSync", "mkdir", "mkdirSync", "createWriteStream", "access", "accessSync", "open", "openSync", "stat", "statSync"])
    if (typeof o[n] === "function") {
      const f = o[n];
      o[n] = (p, ...a) => f.call(o, at(p), ...a);
    }
if (process.env.MC_JOBS) {
  const pv = require(process.env.MC_INDEX).pil_verifier, real = pv.generate;
  const say = (o) => process.stdout.write("\nMC " + JSON.stringify(o, (k, v) => (typeof v === "bigint" ? v.toString() : v)) + "\n");
  pv.generate = async (workspace, pilFile, pilConfig, cache, builder, starkStruct, addr, input) => {
    const go = async (cache, input) => {
      try {
        await real.call(pv, workspace, pilFile, pilConfig, cache, builder, starkStruct, addr, input);
        say({ cache, ok: true });
      } catch (e) {
        say({ cache, error: String((e && e.message) || e) });
      }
    };
    say({ pilFile, cache: at(cache), starkStruct, addr, input });
    await go(at(cache), input);
    for (const j of JSON.parse(fs.readFileSync(process.env.MC_JOBS, "utf8")))
      await go(j.cache, JSON.parse(JSON.stringify(j.input), (k, v) => (typeof v === "string" ? BigInt(v) : v)));
  };
}
