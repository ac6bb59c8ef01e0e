module.exports = require("./aws-generic.cjs")("sns", {});
