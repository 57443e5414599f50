export { Interp, Budget, nid } from './core.mjs';
import './exprs.mjs';
import './objects.mjs';
import './stmts.mjs';
import './builtins.mjs';
import './methods.mjs';
