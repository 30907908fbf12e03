// stand-in: prime fields (of the Goldilocks modulus)
const { F1 } = require("../pil-stark");
exports.F1Field = class extends F1 {
  constructor(q) {
    super();
    if (BigInt(q) !== this.p) throw new Error("stand-in: another field");
  }
};
