// node tools/apitypes.mjs : records the public API's types in contracts/api.json (run once, by hand)
import fs from 'node:fs';
import { apiTypes } from '../lib/apitypes.mjs';
import { publicOps } from '../rules/common.mjs';
const t = apiTypes(publicOps());
fs.writeFileSync(new URL('../contracts/api.json', import.meta.url), `${JSON.stringify(t)}\n`);
console.log(Object.keys(t.ops).length, Object.keys(t.exports).length);
