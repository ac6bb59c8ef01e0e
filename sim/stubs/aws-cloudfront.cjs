module.exports = require("./aws-generic.cjs")("cloudfront", {});
