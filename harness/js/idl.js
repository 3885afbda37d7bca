// A client that knows nothing but an IDL in Codama's format: encodes and
// decodes whatever the IDL describes.
const LE = { u8: 1, u16: 2, u32: 4, u64: 8 };
const num = (n, v) => {
  const size = LE[n.format];
  if (!size || (n.endian !== 'le' && size > 1)) throw new Error('number ' + JSON.stringify(n));
  if (BigInt(v) >= 1n << BigInt(8 * size)) throw new Error('range');
  return Array.from({ length: size }, (_, i) => Number((BigInt(v) >> BigInt(8 * i)) & 255n));
};
const take = (s, n) => { if (s.at + n > s.d.length) throw new Error('short'); s.at += n; return s.d.slice(s.at - n, s.at); };
const getNum = (n, s) => take(s, num(n, 0).length).reduceRight((v, b) => (v << 8n) | BigInt(b), 0n);

export function interpreter(program) {
  const types = Object.fromEntries(program.definedTypes.map((t) => [t.name, t.type]));
  // the types the IDL leaves to its clients
  const KEY = { kind: 'publicKeyTypeNode' };
  const link = (n) => types[n.name] ?? { nullablePublicKey: KEY, delegateRoles: { kind: 'numberTypeNode', format: 'u8', endian: 'le' } }[n.name];
  // strings, bytes and keys are arrays of bytes; enums { variant, ...fields } or a name; an absent option null
  const enc = (n, v) => {
    switch (n.kind) {
      case 'numberTypeNode': return num(n, v);
      case 'booleanTypeNode': return num(n.size, v ? 1 : 0);
      case 'publicKeyTypeNode': if (v.length !== 32) throw new Error('key'); return v;
      case 'stringTypeNode': case 'bytesTypeNode': return v;
      case 'sizePrefixTypeNode': { const b = enc(n.type, v); return [...num(n.prefix, b.length), ...b]; }
      case 'fixedSizeTypeNode': { const b = enc(n.type, v).slice(0, n.size); return [...b, ...Array(n.size - b.length).fill(0)]; }
      case 'definedTypeLinkNode': return enc(link(n), v);
      case 'structTypeNode': return n.fields.flatMap((f) => enc(f.type, v[f.name]));
      case 'optionTypeNode': return v === null ? num(n.prefix, 0) : [...num(n.prefix, 1), ...enc(n.item, v)];
      case 'arrayTypeNode': {
        const items = v.flatMap((x) => enc(n.item, x));
        if (n.count.kind === 'fixedCountNode' && n.count.value !== v.length) throw new Error('count');
        return n.count.kind === 'prefixedCountNode' ? [...num(n.count.prefix, v.length), ...items] : items;
      }
      case 'enumTypeNode': {
        const at = typeof v === 'number' ? v : n.variants.findIndex((x) => x.name === (v.variant ?? v));
        if (at < 0 || at >= n.variants.length) throw new Error('variant');
        const x = n.variants[at];
        return [...num(n.size, at), ...(x.kind === 'enumStructVariantTypeNode' ? enc(x.struct, v) : [])];
      }
      default: throw new Error('unknown node ' + n.kind);
    }
  };
  const dec = (n, s) => {
    switch (n.kind) {
      case 'numberTypeNode': return getNum(n, s);
      case 'booleanTypeNode': return getNum(n.size, s) !== 0n;
      case 'publicKeyTypeNode': return take(s, 32);
      case 'stringTypeNode': case 'bytesTypeNode': return take(s, s.d.length - s.at);
      case 'sizePrefixTypeNode': { const k = Number(getNum(n.prefix, s)); return dec(n.type, { d: take(s, k), at: 0 }); }
      case 'fixedSizeTypeNode': return dec(n.type, { d: take(s, n.size), at: 0 });
      case 'definedTypeLinkNode': return dec(link(n), s);
      case 'structTypeNode': return Object.fromEntries(n.fields.map((f) => [f.name, dec(f.type, s)]));
      case 'optionTypeNode': return getNum(n.prefix, s) === 0n ? null : dec(n.item, s);
      case 'arrayTypeNode': {
        const out = [];
        if (n.count.kind === 'remainderCountNode') while (s.at < s.d.length) out.push(dec(n.item, s));
        else for (let k = n.count.kind === 'fixedCountNode' ? n.count.value : Number(getNum(n.count.prefix, s)); k > 0; k -= 1) out.push(dec(n.item, s));
        return out;
      }
      case 'enumTypeNode': return Number(getNum(n.size, s));
      default: throw new Error('unknown node ' + n.kind);
    }
  };
  const instruction = (name) => program.instructions.find((i) => i.name === name);
  return {
    type: (name) => ({ encode: (v) => enc(types[name], v), decode: (d) => dec(types[name], { d, at: 0 }) }),
    account: (name) => { const t = program.accounts.find((a) => a.name === name).data; return { encode: (v) => enc(t, v), decode: (d) => dec(t, { d, at: 0 }) }; },
    // accounts: one value per account, null where it is left out; signers: which of the 'either' accounts sign
    build: (name, args, accounts, signs) => {
      const i = instruction(name);
      const data = i.arguments.flatMap((a) => {
        if (a.defaultValueStrategy === 'omitted') return enc(a.type, a.defaultValue.number);
        if (!(a.name in args)) throw new Error('argument ' + a.name);
        return enc(a.type, args[a.name]);
      });
      if (i.arguments.filter((a) => a.defaultValueStrategy !== 'omitted').length !== Object.keys(args).length) throw new Error('arguments');
      if (i.accounts.length !== accounts.length) throw new Error('accounts');
      const metas = i.accounts.map((a, j) => {
        if (accounts[j] === null) {
          if (!a.isOptional || i.optionalAccountStrategy !== 'programId') throw new Error('required ' + a.name);
          return { key: program.publicKey, s: false, w: false };
        }
        return { key: accounts[j], s: a.isSigner === 'either' ? signs[j] : a.isSigner, w: a.isWritable };
      });
      return { data, metas };
    },
  };
}

// an IDL in shank's format, as a program of Codama's
export function fromShank(idl) {
  const n = (format) => ({ kind: 'numberTypeNode', format, endian: 'le' });
  const prefixed = (type) => ({ kind: 'sizePrefixTypeNode', type, prefix: n('u32') });
  const lower = (s) => s[0].toLowerCase() + s.slice(1);
  const type = (t) => {
    if (t in LE) return n(t);
    if (t === 'bool') return { kind: 'booleanTypeNode', size: n('u8') };
    if (t === 'string') return prefixed({ kind: 'stringTypeNode' });
    if (t === 'bytes') return prefixed({ kind: 'bytesTypeNode' });
    if (t === 'publicKey') return { kind: 'publicKeyTypeNode' };
    if (t.option) return { kind: 'optionTypeNode', prefix: n('u8'), item: type(t.option) };
    if (t.vec) return { kind: 'arrayTypeNode', item: type(t.vec), count: { kind: 'prefixedCountNode', prefix: n('u32') } };
    // the enumerations of the types crate are not part of the IDL
    if (t.defined) return idl.types.some((x) => x.name === t.defined) ? { kind: 'definedTypeLinkNode', name: t.defined } : n('u8');
    throw new Error('unknown type ' + JSON.stringify(t));
  };
  const struct = (fields) => ({ kind: 'structTypeNode', fields: fields.map((f) => ({ name: f.name, type: type(f.type) })) });
  const definedTypes = idl.types.map((x) => ({ name: x.name, type: x.type.kind === 'struct' ? struct(x.type.fields) : { kind: 'enumTypeNode', size: n('u8'),
    variants: x.type.variants.map((v) => ({ name: lower(v.name), ...(v.fields ? { kind: 'enumStructVariantTypeNode', struct: struct(v.fields) } : { kind: 'enumEmptyVariantTypeNode' }) })) } }));
  // the fields of an argument structure are the arguments
  const flat = (a) => { const x = definedTypes.find((y) => y.name === a.type.defined); return x && x.type.fields ? x.type.fields : [{ name: a.name, type: type(a.type) }]; };
  return { publicKey: idl.metadata.address, definedTypes, accounts: [], instructions: idl.instructions.map((i) => ({
    name: lower(i.name), optionalAccountStrategy: 'programId',
    accounts: i.accounts.map((a) => ({ name: a.name, isWritable: a.isMut, isSigner: a.isOptionalSigner ? 'either' : a.isSigner, isOptional: !!a.isOptional })),
    arguments: [{ name: 'discriminator', defaultValueStrategy: 'omitted', type: n(i.discriminant.type), defaultValue: { number: i.discriminant.value } }, ...i.args.flatMap(flat)] })) };
}
