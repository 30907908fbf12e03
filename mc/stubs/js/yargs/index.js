// stand-in: options with aliases, some of them required; numbers are read as numbers
const other = {}, need = [];
const y = {
  version() { return y; },
  usage() { return y; },
  help() { return y; },
  option(n, o) { if (o && o.alias) y.alias(n, o.alias); if (o && o.demandOption) y.demand(n); return y; },
  alias(a, b) { for (const x of [].concat(a)) for (const z of [].concat(b)) { (other[x] ||= []).push(z); (other[z] ||= []).push(x); } return y; },
  demand(n) { need.push(...[].concat(n)); return y; },
  demandOption(n) { return y.demand(n); },
  parse() { return y.argv; },
  get argv() {
    const r = { _: [] }, a = process.argv.slice(2);
    for (let i = 0; i < a.length; i++) {
      const t = /^--?([^=]+)(?:=(.*))?$/s.exec(a[i]);
      if (!t) { r._.push(a[i]); continue; }
      let v = t[2] ?? (i + 1 < a.length && !/^-./.test(a[i + 1]) ? a[++i] : true);
      if (typeof v === "string" && v !== "" && !isNaN(Number(v))) v = Number(v);
      for (const n of [t[1], ...(other[t[1]] || [])]) r[n] = v;
    }
    for (const n of need) if (!(n in r)) { console.error("Missing required argument: " + n); process.exit(1); }
    return r;
  },
};
module.exports = y;
