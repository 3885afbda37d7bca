// Stand-in for '@metaplex-foundation/umi' (which is not installed here): keys,
// signers, options, transaction builders and a context whose transactions are
// only measured, never sent.
import { createHash } from 'node:crypto';
import { decode58, encode58 } from './base58.js';

// keys
const DEFAULT = '11111111111111111111111111111111';
export const defaultPublicKey = () => DEFAULT;
export const PUBLIC_KEY_LENGTH = 32;
export const isPublicKey = (v) => { try { return typeof v === 'string' && decode58(v).length === 32; } catch { return false; } };
export const isPda = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
export const isSigner = (v) => v !== null && typeof v === 'object' && 'publicKey' in v && 'signMessage' in v;
export function publicKey(input, assert = true) {
  const k = (() => {
    if (typeof input === 'string') return input;
    if (Array.isArray(input)) return input[0];
    if (input instanceof Uint8Array) return encode58(input);
    if (typeof input === 'object' && 'publicKey' in input) return publicKey(input.publicKey, false);
    return encode58(input.toBytes());
  })();
  if (assert && !isPublicKey(k)) throw new Error('The provided public key is invalid: ' + k);
  return k;
}
export const publicKeyBytes = (k) => decode58(k);
export const assertPublicKey = (v) => { if (!isPublicKey(v)) throw new Error('The provided public key is invalid: ' + v); };
export const samePublicKey = (a, b) => publicKey(a, false) === publicKey(b, false);
export const uniquePublicKeys = (ks) => [...new Set(ks)];
export const createNoopSigner = (k) => ({
  publicKey: k, signMessage: async (m) => m, signTransaction: async (t) => t, signAllTransactions: async (t) => t,
});
export const generateSigner = (context) => context.eddsa.generateKeypair();
export const createSignerFromKeypair = (_c, k) => createNoopSigner(k.publicKey);

// options
export const some = (value) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (v) => !!(v && typeof v === 'object' && '__option' in v);
export const isSome = (o) => o.__option === 'Some';
export const isNone = (o) => o.__option === 'None';
export const wrapNullable = (v) => (v !== null ? some(v) : none());
export const unwrapOption = (o, fallback = () => null) => (isSome(o) ? o.value : fallback());

// accounts
export const assertAccountExists = (a, name) => { if (!a.exists) throw new Error(`The account of type [${name}] was not found at ${a.publicKey}`); };
export const deserializeAccount = (raw, serializer) => {
  const { data, publicKey: k, ...rest } = raw;
  try {
    const [parsed] = serializer.deserialize(data);
    return { publicKey: k, header: rest, ...parsed };
  } catch (e) { throw new Error(`The account at ${k} could not be read: ${e.message}`); }
};
export class ProgramError extends Error {
  constructor(message, program, cause) { super(message); this.program = program; this.cause = cause; }
}
class GpaBuilder {
  constructor(context, programId, fields = {}, filters = [], using = null) { Object.assign(this, { context, programId, fields, filters, using }); }
  copy(x) { const c = new GpaBuilder(this.context, this.programId, this.fields, this.filters, this.using); return Object.assign(c, x); }
  registerFields(fields) { return this.copy({ fields }); }
  registerFieldsFromStruct(fields) {
    let at = 0;
    const out = {};
    for (const [k, s] of fields) { out[k] = [at, s]; at = at === null || s.fixedSize === null ? null : at + s.fixedSize; }
    return this.copy({ fields: out });
  }
  deserializeUsing(using) { return this.copy({ using }); }
  where(offset, bytes) { return this.copy({ filters: [...this.filters, { memcmp: { offset, bytes: bytes instanceof Uint8Array ? bytes : decode58(publicKey(bytes)) } }] }); }
  whereSize(dataSize) { return this.copy({ filters: [...this.filters, { dataSize }] }); }
  whereField(field, value) {
    const [offset, s] = this.fields[field];
    if (offset === null) throw new Error(`The field [${field}] has no known offset`);
    return this.where(offset, s.serialize(value));
  }
}
export const gpaBuilder = (context, programId) => new GpaBuilder(context, programId);

// transactions
export const TRANSACTION_SIZE_LIMIT = 1232;
const compact = (n) => (n < 128 ? 1 : n < 16384 ? 2 : 3);
export function transactionSize(items, payer) {
  const keys = new Set([payer]);
  const signers = new Set([payer]);
  let body = 0;
  for (const { instruction: i } of items) {
    keys.add(i.programId);
    for (const k of i.keys) { keys.add(k.pubkey); if (k.isSigner) signers.add(k.pubkey); }
    body += 1 + compact(i.keys.length) + i.keys.length + compact(i.data.length) + i.data.length;
  }
  // a versioned transaction, as umi builds by default
  return compact(signers.size) + 64 * signers.size + 1 + 3 + compact(keys.size) + 32 * keys.size + 32 + compact(items.length) + body + 1;
}
const flat = (bs) => bs.flatMap((b) => (Array.isArray(b) ? flat(b) : b instanceof TransactionBuilderGroup ? b.builders : [b]));
const itemsOf = (input) => (Array.isArray(input) ? input : [input]).flatMap((x) => (x instanceof TransactionBuilder ? x.items : [x]));
export class TransactionBuilder {
  constructor(items = [], options = {}) { this.items = items; this.options = options; }
  add(input) { return new TransactionBuilder([...this.items, ...itemsOf(input)], this.options); }
  append(input) { return this.add(input); }
  prepend(input) { return new TransactionBuilder([...itemsOf(input), ...this.items], this.options); }
  mapInstructions(f) { return new TransactionBuilder(this.items.map(f), this.options); }
  addRemainingAccounts(metas, index) {
    const list = Array.isArray(metas) ? metas : [metas];
    return this.mapInstructions((w, i) => {
      if (index !== undefined && i !== index) return w;
      const keys = list.map((m) => ('pubkey' in m ? m
        : 'signer' in m ? { pubkey: m.signer.publicKey, isSigner: true, isWritable: m.isWritable }
          : { pubkey: publicKey(m, false), isSigner: isSigner(m), isWritable: false }));
      const signers = list.flatMap((m) => ('signer' in m ? [m.signer] : isSigner(m) ? [m] : []));
      return { ...w, instruction: { ...w.instruction, keys: [...w.instruction.keys, ...keys] }, signers: [...w.signers, ...signers] };
    });
  }
  getInstructions() { return this.items.map((w) => w.instruction); }
  getSigners() { return this.items.flatMap((w) => w.signers); }
  setFeePayer(feePayer) { return new TransactionBuilder(this.items, { ...this.options, feePayer }); }
  getFeePayer(context) { return this.options.feePayer ?? context.payer; }
  getTransactionSize(context) { return transactionSize(this.items, this.getFeePayer(context).publicKey); }
  minimumTransactionsRequired(context) { return Math.ceil(this.getTransactionSize(context) / TRANSACTION_SIZE_LIMIT); }
  fitsInOneTransaction(context) { return this.getTransactionSize(context) <= TRANSACTION_SIZE_LIMIT; }
  unsafeSplitByTransactionSize(context) {
    return this.items.reduce((builders, item) => {
      const last = builders.pop();
      const more = last.add(item);
      if (more.fitsInOneTransaction(context)) return [...builders, more];
      return [...builders, last, new TransactionBuilder([item], this.options)].filter((b) => b.items.length > 0);
    }, [new TransactionBuilder([], this.options)]);
  }
}
export class TransactionBuilderGroup {
  constructor(builders = [], options = {}) { this.builders = builders; this.options = options; }
  append(...bs) { return new TransactionBuilderGroup([...this.builders, ...flat(bs)], this.options); }
  add(...bs) { return this.append(...bs); }
  prepend(...bs) { return new TransactionBuilderGroup([...flat(bs), ...this.builders], this.options); }
  sequential() { return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: false }); }
  parallel() { return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: true }); }
  isParallel() { return !!this.options.parallel; }
  merge() { return this.builders.reduce((a, b) => a.add(b), new TransactionBuilder()); }
  map(f) { return new TransactionBuilderGroup(this.builders.map(f), this.options); }
}
export const transactionBuilder = (items = [], options = {}) => new TransactionBuilder(items, options);
export const transactionBuilderGroup = (builders = [], options = {}) => new TransactionBuilderGroup(flat(builders), options);

// program derived addresses
const P = 2n ** 255n - 19n;
const mod = (a) => ((a % P) + P) % P;
const pow = (b, e) => { let r = 1n; b = mod(b); while (e > 0n) { if (e & 1n) r = mod(r * b); b = mod(b * b); e >>= 1n; } return r; };
const D = mod(-121665n * pow(121666n, P - 2n));
export function onCurve(bytes) {
  let y = 0n;
  for (let i = 31; i >= 0; i -= 1) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 127 : bytes[i]);
  y = mod(y);
  const u = mod(y * y - 1n);
  const x2 = mod(u * pow(mod(D * y * y + 1n), P - 2n));
  return x2 === 0n || pow(x2, (P - 1n) / 2n) === 1n;
}
export function findPda(programId, seeds) {
  for (let bump = 255; bump >= 0; bump -= 1) {
    const h = createHash('sha256');
    for (const s of seeds) { if (s.length > 32) throw new Error('seed too long'); h.update(s); }
    h.update(Uint8Array.of(bump)).update(decode58(programId)).update('ProgramDerivedAddress');
    const b = Uint8Array.from(h.digest());
    if (!onCurve(b)) return [encode58(b), bump];
  }
  throw new Error('no program derived address');
}

// the context
export function programRepository(programs = [], bindings = new Map()) {
  const all = [...programs];
  const resolve = (id, seen = new Set()) => {
    if (!bindings.has(id)) return id;
    if (seen.has(id)) throw new Error('circular program bindings');
    return resolve(bindings.get(id), seen.add(id));
  };
  const has = (id) => { const r = resolve(id); return all.some((p) => p.name === r || p.publicKey === r); };
  const get = (id) => { const r = resolve(id); const p = all.find((q) => q.name === r || q.publicKey === r); if (!p) throw new Error('unknown program ' + r); return p; };
  return {
    has, get, all: () => [...all],
    getPublicKey: (id, fallback) => {
      if (has(id)) return get(id).publicKey;
      const r = resolve(id);
      if (isPublicKey(r)) return r;
      if (fallback === undefined) throw new Error('unknown program ' + id);
      return fallback;
    },
    add: (p, overrides = true) => { if (overrides) all.unshift(p); else all.push(p); },
    bind: (abstract, concrete) => { bindings.set(abstract, concrete); resolve(abstract); },
    unbind: (abstract) => { bindings.delete(abstract); },
    clone: () => programRepository([...all], new Map(bindings)),
  };
}
export function testContext({ identity, payer, generated = [] }) {
  const queue = [...generated];
  return {
    identity, payer,
    eddsa: {
      findPda,
      generateKeypair: () => { if (queue.length === 0) throw new Error('no more keys'); return createNoopSigner(queue.shift()); },
      isOnCurve: (k) => onCurve(decode58(publicKey(k))),
    },
    programs: programRepository(),
    transactions: {},
    rpc: {},
  };
}
