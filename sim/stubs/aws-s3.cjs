module.exports = require("./aws-generic.cjs")("s3", { ObjectCannedACL: { public_read: "public-read", private: "private", bucket_owner_full_control: "bucket-owner-full-control" } });
