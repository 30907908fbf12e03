module.exports = () => ({ parse: JSON.parse, stringify: JSON.stringify });
