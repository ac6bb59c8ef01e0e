module.exports = require("./aws-generic.cjs")("secrets", {});
