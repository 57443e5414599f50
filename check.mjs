// node check.mjs <property> : decides one property on /repo's current source.
import { Ctx } from './lib/ctx.mjs';
const id = process.argv[2];
const { run } = await import(`./rules/${id}.mjs`);
const ctx = new Ctx(id);
try { process.exitCode = await run(ctx); } catch (e) {
  // the analysis stopped: what it found so far stands, but it is no verdict otherwise
  ctx.broken.push(`analysis stopped: ${e.stack.split('\n').slice(0, 3).join(' ')}`);
  process.exitCode = ctx.finish('The analysis stopped before its end.');
}
