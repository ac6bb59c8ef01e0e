module.exports = require("./aws-generic.cjs")("ssm", { ParameterType: { STRING: "String", SECURE_STRING: "SecureString", STRING_LIST: "StringList" } });
