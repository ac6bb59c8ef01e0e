module.exports = require("./aws-generic.cjs")("apigw", {});
