// driver <family> <dir>: what the JavaScript clients of /repo do with every
// case of dir/cases.ndjson; one observation per line of dir/obs.ndjson.
import { readFileSync, writeFileSync } from 'node:fs';
import * as asset from 'nifty-asset-js';
import * as bridge from 'nifty-bridge-js';
import * as proxy from 'nifty-proxy-js';
import { decode58, encode58 } from './base58.js';
import { fromShank, interpreter } from './idl.js';
import { createNoopSigner, testContext, transactionSize } from './umi.js';

const [family, dir] = process.argv.slice(2);
const header = JSON.parse(readFileSync(`${dir}/header.json`, 'utf8'));
const cases = readFileSync(`${dir}/cases.ndjson`, 'utf8').split('\n').filter((l) => l).map((l) => JSON.parse(l));

// names of the specification
const keys = Object.fromEntries(Object.entries(header.keys ?? {}).map(([n, b]) => [n, encode58(Uint8Array.from(b))]));
const names = Object.fromEntries(Object.entries(keys).map(([n, k]) => [k, n]));
const derived = {};
const nameOf = (k) => names[k] ?? derived[k] ?? k;
const key = (b) => encode58(Uint8Array.from(b));
const bytes = (a) => Array.from(a);
const text = (b) => Buffer.from(b).toString('utf8');
const utf = (s) => bytes(new TextEncoder().encode(s));
const big = (b) => b.reduceRight((n, x) => (n << 8n) | BigInt(x), 0n);
const le = (v) => Array.from({ length: 8 }, (_, i) => Number((BigInt(v) >> BigInt(8 * i)) & 255n));
const nullable = (k) => (k === null || k === undefined || decode58(k).every((x) => x === 0) ? [] : [bytes(decode58(k))]);
const guarded = (f) => { try { return f(); } catch (e) { return { ok: false, why: String(e.message ?? e).slice(0, 200) }; } };

// constraints
const WHO = ['Asset', 'Authority', 'Recipient'];
const toTree = (t) => {
  switch (t.op) {
    case 'and': return asset.and(t.kids.map(toTree));
    case 'or': return asset.or(t.kids.map(toTree));
    case 'not': return asset.not(toTree(t.kids[0]));
    case 'empty': return asset.empty();
    case 'owned': return asset.ownedBy(WHO[t.who], t.keys.map((k) => keys[k]));
    default: return asset.pubkeyMatch(WHO[t.who], t.keys.map((k) => keys[k]));
  }
};
const fromTree = (c) => {
  const node = (op, kids = [], who = 0, ks = []) => ({ op, kids, who, keys: ks.map(nameOf) });
  switch (c.type) {
    case 'And': return node('and', c.constraints.map(fromTree));
    case 'Or': return node('or', c.constraints.map(fromTree));
    case 'Not': return node('not', [fromTree(c.constraint)]);
    case 'Empty': return node('empty');
    case 'OwnedBy': return node('owned', [], WHO.indexOf(c.account), c.owners);
    case 'PubkeyMatch': return node('match', [], WHO.indexOf(c.account), c.pubkeys);
    default: throw new Error('unknown constraint ' + c.type);
  }
};

// extensions: every way to describe the content
const roleList = (m) => [1, 2, 3].filter((r) => m & (1 << (r - 1)));
const X = asset.ExtensionType;
function describe(t, c) {
  switch (t) {
    case X.Attributes: return [asset.attributes(c.map((p) => ({ name: text(p.a), value: text(p.b) })))];
    case X.Links: return [asset.links(c.map((p) => ({ name: text(p.a), uri: text(p.b) })))];
    case X.Blob: return [asset.blob(text(c.ct), c.data), asset.blob(text(c.ct), Uint8Array.from(c.data))];
    case X.Bucket: return [asset.bucket(c.data), asset.bucket(Uint8Array.from(c.data))];
    case X.Creators: {
      const typed = { type: t, values: c.map((x) => ({ address: key(x.key), verified: x.ver === 1, share: x.share })) };
      return c.every((x) => x.ver === 0) ? [typed, asset.creators(c.map((x) => ({ address: key(x.key), share: x.share })))] : [typed];
    }
    case X.Metadata: {
      const o = {};
      ['symbol', 'description', 'uri', 'imageUri'].forEach((n, i) => { if (c[i].length) o[n] = text(c[i][0]); });
      return [asset.metadata(o)];
    }
    case X.Grouping: {
      const max = c.max.length ? big(c.max[0]) : undefined;
      const del = c.del.length ? key(c.del[0]) : undefined;
      const ways = [asset.grouping(max, del), { type: t, size: 0n, maxSize: max ?? 0, delegate: del ?? null }];
      if (max !== undefined && max < 2n ** 53n) ways.push(asset.grouping(Number(max), del));
      return ways;
    }
    case X.Royalties: {
      const bp = big(c.bp);
      const ways = [asset.royalties(bp, toTree(c.tree))];
      if (bp < 2n ** 53n) ways.push(asset.royalties(Number(bp), toTree(c.tree)));
      if (c.tree.op === 'empty') ways.push(asset.royalties(bp));
      return ways;
    }
    case X.Manager: {
      const rs = roleList(c.roles);
      const ways = [asset.manager(key(c.key), rs)];
      if (rs.length > 0) ways.push(asset.manager(key(c.key), [...rs].reverse()), asset.manager(key(c.key), [...rs, asset.DelegateRole.None, ...rs]));
      if (rs.length === 1) ways.push(asset.manager(key(c.key), rs[0]));
      if (rs.length === 0) ways.push(asset.manager(key(c.key), asset.DelegateRole.None), asset.manager(key(c.key), [asset.DelegateRole.None]));
      return ways;
    }
    case X.Proxy: return [{ type: t, program: key(c.prog), seeds: c.seeds, bump: c.bump, authority: c.auth.length ? key(c.auth[0]) : null }];
    case X.Properties: {
      const vals = c.map((p) => ({ name: text(p.name), value: p.ty === 0 ? text(p.v) : p.ty === 1 ? big(p.v) : p.v[0] === 1 }));
      return [asset.properties(vals)];
    }
    default: throw new Error('unknown extension ' + t);
  }
}
function view(x) {
  switch (x.type) {
    case X.Attributes: return x.values.map((p) => ({ a: utf(p.name), b: utf(p.value) }));
    case X.Links: return x.values.map((p) => ({ a: utf(p.name), b: utf(p.uri) }));
    case X.Blob: return { ct: utf(x.contentType), data: bytes(x.data) };
    case X.Bucket: return { data: bytes(x.data) };
    case X.Creators: return x.values.map((v) => ({ key: bytes(decode58(v.address)), ver: v.verified ? 1 : 0, share: v.share }));
    case X.Metadata: return [x.symbol, x.description, x.uri, x.imageUri].map(utf);
    case X.Grouping: return { size: le(x.size), max: le(x.maxSize), del: nullable(x.delegate) };
    case X.Royalties: return { bp: le(x.basisPoints), tree: fromTree(x.constraint) };
    case X.Manager: return { key: nullable(x.delegate.address), roles: x.delegate.roles };
    case X.Proxy: return { prog: bytes(decode58(x.program)), seeds: bytes(x.seeds), bump: x.bump, auth: nullable(x.authority) };
    case X.Properties: return x.values.map((p) => ({ name: utf(p.name), ty: p.type, v: p.type === 0 ? utf(p.value) : p.type === 1 ? le(p.value) : [p.value ? 1 : 0] }));
    default: throw new Error('unknown extension ' + x.type);
  }
}
const rpc = (data) => ({ publicKey: keys.A ?? key(Array(32).fill(7)), exists: true, executable: false, owner: asset.ASSET_PROGRAM_ID, lamports: 0, data: Uint8Array.from(data) });

const conFamily = (c) => guarded(() => {
  const s = asset.getConstraintSerializer();
  const d = s.serialize(toTree(c.t));
  const [back, end] = s.deserialize(Uint8Array.from(c.d));
  const inside = s.deserialize(Uint8Array.from([9, 9, 9, ...c.d, 1, 2, 3, 4, 5, 6, 7, 8]), 3);
  return { ok: true, d: bytes(d), back: fromTree(back), end, inside: fromTree(inside[0]), iend: inside[1] };
});

const extFamily = (c) => guarded(() => {
  if (c.k === 'ext') {
    const s = asset.getExtensionSerializerFromType(c.t);
    const outs = describe(c.t, c.c).map((x) => guarded(() => {
      const d = s.serialize(x);
      return { ok: x.type === c.t, d: bytes(d), v: view({ ...s.deserialize(Uint8Array.from(c.d))[0], type: c.t }) };
    }));
    return { ok: true, outs };
  }
  const a = asset.deserializeAsset(rpc(c.d));
  const firsts = Object.values(X).filter((t) => typeof t === 'number' && t > 0).map((t) => { const e = asset.getExtension(a, t); return e ? [view(e)] : []; });
  const gets = (c.lookups ?? []).map((l) => {
    const p = asset.getProperty(a, text(l.name), l.ty);
    return p === undefined ? [] : [p.type === 0 ? utf(p.value) : p.type === 1 ? le(p.value) : [p.value ? 1 : 0]];
  });
  return { ok: true, list: a.extensions.map((e) => ({ t: e.type, v: view(e) })), firsts, gets };
});

const headFamily = (c) => guarded(() => {
  if (c.k === 'vault') {
    const v = bridge.deserializeVault({ ...rpc(c.d), owner: bridge.BRIDGE_PROGRAM_ID });
    return { ok: true, view: { st: v.state, bump: v.bump, mint: bytes(decode58(v.mint)), abump: v.assetBump },
      written: bytes(bridge.getVaultAccountDataSerializer().serialize({ state: c.st, bump: c.bump, mint: key(c.mint), assetBump: c.abump })) };
  }
  const a = asset.deserializeAsset(rpc(c.d));
  const gpa = asset.getAssetGpaBuilder(testContext({}));
  const roles = c.dr === 0 ? [asset.DelegateRole.None] : roleList(c.dr);
  const fields = { discriminator: c.disc, state: c.st, standard: c.std, mutable: c.mut, owner: key(c.owner), group: c.group.every((x) => x === 0) ? null : key(c.group),
    authority: key(c.auth), delegate: c.da.every((x) => x === 0) ? null : key(c.da), roles, name: text(c.name) };
  const filters = Object.entries(fields).map(([f, v]) => {
    const m = gpa.whereField(f, v).filters[0].memcmp;
    return { off: m.offset, d: bytes(m.bytes) };
  });
  return { ok: true, prog: gpa.programId === asset.ASSET_PROGRAM_ID, filters,
    view: { disc: a.discriminator, st: a.state, std: a.standard, mut: a.mutable, owner: bytes(decode58(a.owner)), group: nullable(a.group),
      auth: bytes(decode58(a.authority)), da: a.delegate ? nullable(a.delegate.address) : [], roles: a.delegate ? a.delegate.roles : [], name: utf(a.name), exts: a.extensions.length } };
});

// instructions
const FIELDS = {
  Close: 'buffer recipient', Burn: 'asset signer recipient group', Create: 'asset authority owner group groupAuthority payer systemProgram',
  Approve: 'asset owner delegate', Allocate: 'asset payer systemProgram', Lock: 'asset signer', Revoke: 'asset signer',
  Transfer: 'asset signer recipient group', Unlock: 'asset signer', Unverify: 'asset creator',
  Update: 'asset authority buffer group payer systemProgram', Verify: 'asset creator', Write: 'asset payer systemProgram',
  Group: 'asset group authority', Ungroup: 'asset group authority', Handover: 'asset authority newAuthority',
  Remove: 'asset authority group recipient', Resize: 'asset authority payer systemProgram',
  PCreate: 'asset stub owner authority payer systemProgram niftyAssetProgram',
  BCreate: 'asset vault mint metadata updateAuthority collection payer systemProgram niftyAssetProgram',
  BBridge: 'asset vault owner token mint metadata masterEdition tokenRecord vaultToken vaultTokenRecord payer niftyAssetProgram tokenMetadataProgram systemProgram '
    + 'sysvarInstructions splTokenProgram splAtaProgram authorizationRulesProgram authorizationRules groupAsset',
};
const contextOf = (identity, payer, generated = []) => {
  const c = testContext({ identity: createNoopSigner(keys[identity]), payer: createNoopSigner(keys[payer]), generated: generated.map((n) => keys[n]) });
  const find = c.eddsa.findPda;
  c.eddsa.findPda = (program, seeds) => {
    const [k, bump] = find(program, seeds);
    derived[k] = `${nameOf(program)}(${seeds.map((s) => (s.length === 32 ? nameOf(key(s)) : text(s))).join('/')})`;
    return [k, bump];
  };
  return c;
};
const first = (x) => describe(x.t, x.c)[0];
const roleInput = (c) => (c.all ? asset.delegateInput('All') : asset.delegateInput('Some', { roles: c.roles }));
function argsOf(c) {
  switch (c.op) {
    case 'Create': return { name: text(c.name), ...(c.bare ? {} : { standard: c.std, mutable: c.mut }), ...(c.hx ? { extensions: c.cs.map(first) } : {}) };
    case 'Approve': case 'Revoke': return { delegateInput: roleInput(c) };
    case 'Allocate': return { extension: first(c.cs[0]) };
    case 'Update': return { ...(c.hn ? { name: text(c.name) } : {}), ...(c.hm ? { mutable: c.mut } : {}), ...(c.he ? { extension: first(c.cs[0]) } : {}) };
    case 'Write': return { data: Uint8Array.from(c.d), ...(c.chunk ? { chunkSize: c.chunk } : {}) };
    case 'Remove': return { extensionType: c.t };
    case 'Resize': return { strategy: c.trim ? asset.strategy('Trim') : asset.strategy('Extend', { value: c.v }) };
    case 'PCreate': return { name: text(c.name) };
    case 'BCreate': return c.bare ? {} : { isCollection: c.coll };
    case 'BBridge': return c.std ? { tokenStandard: c.std } : {};
    default: return {};
  }
}
const BUILD = { PCreate: proxy.create, BCreate: bridge.create, BBridge: bridge.bridge };
const step = (i, signers) => ({ prog: nameOf(i.programId), metas: i.keys.map((k) => ({ k: nameOf(k.pubkey), s: k.isSigner, w: k.isWritable })), data: bytes(i.data),
  signed: i.keys.every((k) => !k.isSigner || signers.some((s) => s.publicKey === k.pubkey)) });
const ixFamily = (c) => guarded(() => {
  const context = contextOf('u1', 'u2');
  const input = argsOf(c);
  FIELDS[c.op].split(' ').forEach((f, j) => {
    if (c.acc[j] === '-' || c.omit.includes(j + 1)) return;
    const k = keys[c.acc[j]];
    input[f] = c.flags[j] ? createNoopSigner(k) : c.pda ? [k, 255] : k;
  });
  if (c.proxy !== '-') input.proxy = keys[c.proxy];
  let b = (BUILD[c.op] ?? asset[c.op[0].toLowerCase() + c.op.slice(1)])(context, input);
  if (b.builders) return { ok: true, steps: b.builders.flatMap((x) => x.items.map((w) => step(w.instruction, w.signers))) };
  if (c.rem.length) b = b.addRemainingAccounts(c.rem.map((m) => ({ pubkey: keys[m.k], isSigner: m.s, isWritable: m.w })));
  return { ok: true, steps: b.items.map((w) => step(w.instruction, w.signers.concat(c.rem.map((m) => ({ publicKey: keys[m.k] }))))) };
});

// recipes, to be executed on the program
const transactions = (context, g) => (g.builders ?? [g]).map((b) => ({ size: transactionSize(b.items, context.payer.publicKey), par: !!(g.isParallel && g.isParallel()),
  steps: b.items.map((w) => ({ ...step(w.instruction, w.signers), infos: [], seeds: [] })) }));
const mintFamily = (c) => {
  const context = contextOf('u1', 'u2', ['B', 'G', 'H']);
  const signer = (n) => createNoopSigner(keys[n]);
  const accounts = { asset: signer('A'), owner: keys[c.ow], authority: c.sg ? signer(c.au) : keys[c.au], payer: signer('u2'),
    ...(c.gr === '-' ? {} : { group: keys[c.gr] }), ...(c.ga === '-' ? {} : { groupAuthority: signer(c.ga) }) };
  const args = { name: text(c.name), ...(c.dfl ? {} : { standard: c.std, mutable: c.mut }) };
  const group = () => asset.create(context, { asset: signer('G'), owner: keys.u1, authority: signer('u1'), payer: signer('u2'), name: 'A',
    extensions: [asset.grouping(5, keys.u3)] });
  const before = c.gr === '-' ? () => [] : () => [group()];
  const ways = [];
  const way = (name, f) => {
    const w = guarded(() => {
      const txs = f().flatMap((g) => transactions(context, g));
      return { ok: txs.every((t) => !t.par && t.steps.every((s) => s.signed)), txs: txs.map((t) => t.size), steps: txs.flatMap((t) => t.steps) };
    });
    ways.push({ txs: [], steps: [], ...w, way: name });
  };
  const exts = c.exts.map(first);
  if (c.k === 'mint') {
    way('mint', () => [...before(), asset.mint(context, { ...accounts, ...args, ...(exts.length ? { extensions: exts } : {}) })]);
    way('create', () => [...before(), asset.create(context, { ...accounts, ...args, extensions: exts })]);
    way('initialize', () => [...before(), ...exts.map((extension) => asset.initialize(context, { asset: accounts.asset, payer: accounts.payer, extension })), asset.create(context, { ...accounts, ...args })]);
    way('allocate', () => [...before(), ...exts.map((extension) => asset.allocate(context, { asset: accounts.asset, payer: accounts.payer, extension })), asset.create(context, { ...accounts, ...args })]);
  } else if (c.k === 'proxied') {
    const make = () => proxy.create(context, { stub: signer('k1'), owner: keys.u3, payer: signer('u2'), name: text(c.name) });
    const up = { asset: keys.Z, proxy: keys.PROXY, payer: signer('u2'), ...(c.up.hn ? { name: text(c.up.name) } : {}), ...(c.up.hm ? { mutable: c.up.mut } : {}) };
    way('pupdate', () => [make(), asset.update(context, up)]);
    way('pbuffered', () => [make(), asset.updateWithBuffer(context, { ...up, extension: first(c.up.x), ...(c.chunk ? { chunkSize: c.chunk } : {}) })]);
  } else {
    const make = () => asset.mint(context, { ...accounts, ...args, extensions: exts });
    const up = { asset: keys.A, payer: signer('u2'), ...(c.up.hn ? { name: text(c.up.name) } : {}), ...(c.up.hm ? { mutable: c.up.mut } : {}), extension: first(c.up.x) };
    way('update', () => [make(), asset.update(context, up)]);
    way('buffered', () => [make(), asset.updateWithBuffer(context, { ...up, ...(c.chunk ? { chunkSize: c.chunk } : {}) })]);
  }
  return { outs: ways };
};

// a client generated from the IDL alone
const idlFamily = () => {
  const read = (n) => JSON.parse(readFileSync(`${process.env.VP_REPO ?? '/repo'}/idls/${n}.json`, 'utf8'));
  const idl = interpreter(read('asset-program.codama').program);
  const shank = (n) => interpreter(fromShank(read(n)));
  const asset_ = [['codama', idl], ['asset', shank('asset_program')], ['interface', shank('nifty_asset_interface')]];
  const sources = { PCreate: [['proxy', shank('proxy_program')]], BCreate: [['bridge', shank('bridge_program')]], BBridge: [['bridge', shank('bridge_program')]] };
  const input = (e) => ({ extensionType: e.t, length: e.n, data: e.hd ? e.d : null });
  const args = (c) => {
    switch (c.op) {
      case 'Create': return { name: c.name, standard: c.std, mutable: c.mut, extensions: c.hx ? c.exts.map(input) : null };
      case 'Approve': case 'Revoke': return { delegateInput: c.all ? 'all' : { variant: 'some', roles: c.roles } };
      case 'Allocate': return { extension: input(c.e) };
      case 'Update': return { name: c.hn ? c.name : null, mutable: c.hm ? c.mut : null, extension: c.he ? input(c.e) : null };
      case 'Write': return { overwrite: c.ow, bytes: c.d };
      case 'Remove': return { extensionType: c.t };
      case 'Resize': return { strategy: c.trim ? 'trim' : { variant: 'extend', value: c.v } };
      case 'PCreate': return { name: c.name };
      case 'BCreate': return { isCollection: c.coll };
      default: return {};
    }
  };
  const optional = (b) => (b.every((x) => x === 0) ? [] : [b]);
  const TYPES = ['', 'attributes', 'blob', 'creators', 'links', 'metadata', 'grouping', '', 'manager', 'proxy', '', 'bucket'];
  const zero = (n) => Array(n).fill(0);
  const opt = (o, d) => (o.length ? o[0] : d);
  const describeIdl = (t, c) => {
    switch (TYPES[t]) {
      case 'attributes': return { values: c.map((p) => ({ name: p.a, value: p.b })) };
      case 'links': return { values: c.map((p) => ({ name: p.a, uri: p.b })) };
      case 'blob': return { contentType: c.ct, data: c.data };
      case 'bucket': return { data: c.data };
      case 'creators': return { values: c.map((x) => ({ address: x.key, verified: x.ver === 1, share: x.share })) };
      case 'metadata': return Object.fromEntries(['symbol', 'description', 'uri', 'imageUri'].map((n, i) => [n, opt(c[i], [])]));
      case 'grouping': return { size: 0, maxSize: big(opt(c.max, zero(8))), delegate: opt(c.del, zero(32)) };
      case 'manager': return { delegate: { address: c.key, roles: c.roles } };
      default: return { program: c.prog, seeds: c.seeds, bump: c.bump, authority: opt(c.auth, zero(32)) };
    }
  };
  const plain = (v) => (typeof v === 'bigint' || typeof v === 'number' ? { n: String(v) } : Array.isArray(v) ? v.map(plain) : v && typeof v === 'object'
    ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, plain(v[k])])) : v);
  const shankErrors = (n) => (code) => (read(n).errors ?? []).filter((e) => e.code === code).map((e) => e.name);
  const errors = { asset: [['codama', (code) => read('asset-program.codama').program.errors.filter((e) => e.code === code).map((e) => e.name[0].toUpperCase() + e.name.slice(1))],
    ['asset', shankErrors('asset_program')]], bridge: [['bridge', shankErrors('bridge_program')]], proxy: [['proxy', shankErrors('proxy_program')]] };
  const programs = { asset: asset.createAssetProgram, bridge: bridge.createBridgeProgram, proxy: proxy.createProxyProgram };
  const byCode = (n) => (code) => {
    const program = programs[n]();
    const e = program.getErrorFromCode(code);
    if (e === null) return [];
    const again = program.getErrorFromName(e.name);
    return e.code === code && again !== null && again.code === code ? [e.name] : ['?'];
  };
  return (c) => guarded(() => {
    if (c.k === 'err') return { ok: true, outs: [...errors[c.prog], ['js', byCode(c.prog)]].map(([src, f]) => ({ src, name: f(c.code).join(' ') })) };
    if (c.k === 'ix') {
      const op = /^[PB](Create|Bridge)$/.test(c.op) ? c.op.slice(1) : c.op;
      return { ok: true, outs: (sources[c.op] ?? asset_).map(([src, i]) => guarded(() => {
        const r = i.build(op[0].toLowerCase() + op.slice(1), args(c), c.acc.map((n) => (n === '-' ? null : keys[n])), c.acc.map((n) => c.sg.includes(n)));
        return { src, ok: true, data: r.data, metas: r.metas.map((m) => ({ k: nameOf(m.key), s: m.s, w: m.w })) };
      })) };
    }
    if (c.k === 'base') {
      const a = idl.account('internalAsset').decode(c.d);
      return { ok: true, view: { disc: a.discriminator, st: a.state, std: a.standard, mut: a.mutable, owner: a.owner, group: optional(a.group), auth: a.authority,
        da: optional(a.delegate.address), dr: Number(a.delegate.roles), name: a.name } };
    }
    const t = idl.type(TYPES[c.t]);
    const v = describeIdl(c.t, c.c);
    return { ok: true, d: t.encode(v), same: JSON.stringify(plain(t.decode(c.d))) === JSON.stringify(plain(v)) };
  });
};

const run = { idl: family === 'idl' && idlFamily(), jscon: conFamily, jsext: extFamily, jshead: headFamily, jsix: ixFamily, jsmint: mintFamily }[family];
writeFileSync(`${dir}/obs.ndjson`, cases.map((c) => JSON.stringify(run(c))).join('\n') + '\n');
