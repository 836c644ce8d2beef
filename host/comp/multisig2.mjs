// multisig2: the same driver and specification, with an explicit membership.
import * as M from './multisig.mjs';
export const spec = 'Multisig';
export const effOrdered = true;
export const wasm = ['multisig2'];
export const { setup, clone, exec, observe, gen } = M;
export const randomCfg = (R) => M.configFor(R, '2');
