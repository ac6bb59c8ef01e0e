module.exports = require("./aws-generic.cjs")("logs", {});
