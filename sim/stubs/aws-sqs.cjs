module.exports = require("./aws-generic.cjs")("sqs", {});
