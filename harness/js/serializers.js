// Stand-in for '@metaplex-foundation/umi/serializers' (which is not installed
// here): the combinators of that package, with its published behaviour.
import { decode58, encode58 } from './base58.js';

class SerializerError extends Error {}
const need = (name, buffer, offset, n) => {
  const b = buffer.slice(offset, offset + n);
  if (b.length < n) throw new SerializerError(`Serializer [${name}] expected ${n} bytes, got ${b.length}.`);
  return b;
};
export const mergeBytes = (arrays) => {
  const out = new Uint8Array(arrays.reduce((n, a) => n + a.length, 0));
  let at = 0;
  for (const a of arrays) { out.set(a, at); at += a.length; }
  return out;
};
export const padBytes = (b, n) => (b.length >= n ? b : mergeBytes([b, new Uint8Array(n - b.length)]));
export const fixBytes = (b, n) => padBytes(b.slice(0, n), n);
const sum = (sizes) => sizes.reduce((a, b) => (a === null || b === null ? null : a + b), 0);
const max = (sizes) => sizes.reduce((a, b) => (a === null || b === null ? null : Math.max(a, b)), 0);

// numbers
const integer = (name, size, signed) => (options = {}) => {
  const bits = BigInt(size * 8);
  const lo = signed ? -(1n << (bits - 1n)) : 0n;
  const hi = signed ? (1n << (bits - 1n)) - 1n : (1n << bits) - 1n;
  return {
    description: options.description ?? name, fixedSize: size, maxSize: size,
    serialize: (value) => {
      if (value < lo || value > hi) throw new SerializerError(`Serializer [${name}] expected number in [${lo}, ${hi}], got ${value}.`);
      let v = BigInt.asUintN(size * 8, BigInt(value));
      const out = new Uint8Array(size);
      for (let i = 0; i < size; i += 1) { out[i] = Number(v & 255n); v >>= 8n; }
      return options.endian === 'be' ? out.reverse() : out;
    },
    deserialize: (buffer, offset = 0) => {
      const b = Array.from(need(name, buffer, offset, size));
      if (options.endian === 'be') b.reverse();
      let v = 0n;
      for (let i = size - 1; i >= 0; i -= 1) v = (v << 8n) | BigInt(b[i]);
      if (signed) v = BigInt.asIntN(size * 8, v);
      return [size > 4 ? v : Number(v), offset + size];
    },
  };
};
export const u8 = integer('u8', 1, false);
export const u16 = integer('u16', 2, false);
export const u32 = integer('u32', 4, false);
export const u64 = integer('u64', 8, false);
export const u128 = integer('u128', 16, false);
export const i8 = integer('i8', 1, true);
export const i16 = integer('i16', 2, true);
export const i32 = integer('i32', 4, true);
export const i64 = integer('i64', 8, true);
export const i128 = integer('i128', 16, true);
const float = (name, size, get, set) => (options = {}) => ({
  description: options.description ?? name, fixedSize: size, maxSize: size,
  serialize: (value) => { const v = new DataView(new ArrayBuffer(size)); v[set](0, Number(value), options.endian !== 'be'); return new Uint8Array(v.buffer); },
  deserialize: (buffer, offset = 0) => {
    const b = Uint8Array.from(need(name, buffer, offset, size));
    return [new DataView(b.buffer)[get](0, options.endian !== 'be'), offset + size];
  },
});
export const f32 = float('f32', 4, 'getFloat32', 'setFloat32');
export const f64 = float('f64', 8, 'getFloat64', 'setFloat64');

// shaping
export function mapSerializer(s, unmap, map) {
  return {
    description: s.description, fixedSize: s.fixedSize, maxSize: s.maxSize,
    serialize: (value) => s.serialize(unmap(value)),
    deserialize: (buffer, offset = 0) => {
      const [value, at] = s.deserialize(buffer, offset);
      return map ? [map(value, buffer, offset), at] : [value, at];
    },
  };
}
export const fixSerializer = (s, n, description) => ({
  description: description ?? `fixed(${n}, ${s.description})`, fixedSize: n, maxSize: n,
  serialize: (value) => fixBytes(s.serialize(value), n),
  deserialize: (buffer, offset = 0) => {
    let b = need('fixSerializer', buffer, offset, n);
    if (s.fixedSize !== null) b = fixBytes(b, s.fixedSize);
    return [s.deserialize(b, 0)[0], offset + n];
  },
});
export const reverseSerializer = (s) => ({
  ...s,
  serialize: (value) => s.serialize(value).reverse(),
  deserialize: (buffer, offset = 0) => {
    const [value] = s.deserialize(need('reverse', buffer, offset, s.fixedSize).reverse(), 0);
    return [value, offset + s.fixedSize];
  },
});
export const unit = (options = {}) => ({
  description: options.description ?? 'unit', fixedSize: 0, maxSize: 0,
  serialize: () => new Uint8Array(), deserialize: (_b, offset = 0) => [undefined, offset],
});
export const bool = (options = {}) => {
  const size = options.size ?? u8();
  return {
    description: options.description ?? 'bool', fixedSize: size.fixedSize, maxSize: size.fixedSize,
    serialize: (value) => size.serialize(value ? 1 : 0),
    deserialize: (buffer, offset = 0) => { const [v, at] = size.deserialize(buffer, offset); return [Number(v) === 1, at]; },
  };
};

// text and bytes
export const utf8 = {
  description: 'utf8', fixedSize: null, maxSize: null,
  serialize: (value) => new TextEncoder().encode(value),
  deserialize: (buffer, offset = 0) => [new TextDecoder().decode(buffer.slice(offset)).replace(/\u0000/g, ''), buffer.length],
};
export const base58 = {
  description: 'base58', fixedSize: null, maxSize: null,
  serialize: (value) => decode58(value), deserialize: (buffer, offset = 0) => [encode58(buffer.slice(offset)), buffer.length],
};
const hex = (b) => Array.from(b, (x) => x.toString(16).padStart(2, '0')).join('');
export const base16 = {
  description: 'base16', fixedSize: null, maxSize: null,
  serialize: (value) => Uint8Array.from(value.toLowerCase().match(/../g) ?? [], (x) => parseInt(x, 16)),
  deserialize: (buffer, offset = 0) => [hex(buffer.slice(offset)), buffer.length],
};
export const base64 = {
  description: 'base64', fixedSize: null, maxSize: null,
  serialize: (value) => new Uint8Array(Buffer.from(value, 'base64')),
  deserialize: (buffer, offset = 0) => [Buffer.from(buffer.slice(offset)).toString('base64'), buffer.length],
};
const sized = (name, s, size, description) => {
  if (size === 'variable') return { ...s, description: description ?? name };
  if (typeof size === 'number') return fixSerializer(s, size, description ?? name);
  return {
    description: description ?? name, fixedSize: null, maxSize: null,
    serialize: (value) => { const b = s.serialize(value); return mergeBytes([size.serialize(b.length), b]); },
    deserialize: (buffer, offset = 0) => {
      if (buffer.slice(offset).length === 0) throw new SerializerError(`Serializer [${name}] cannot deserialize empty buffers.`);
      const [n, at] = size.deserialize(buffer, offset);
      const b = need(name, buffer, at, Number(n));
      const [value, end] = s.deserialize(b);
      return [value, at + end];
    },
  };
};
export const string = (options = {}) => sized('string', options.encoding ?? utf8, options.size ?? u32(), options.description);
const raw = {
  description: 'bytes', fixedSize: null, maxSize: null,
  serialize: (value) => new Uint8Array(value),
  deserialize: (buffer, offset = 0) => { const b = buffer.slice(offset); return [b, offset + b.length]; },
};
export const bytes = (options = {}) => sized('bytes', raw, options.size ?? 'variable', options.description);
export const publicKey = (options = {}) => ({
  description: options.description ?? 'publicKey', fixedSize: 32, maxSize: 32,
  serialize: (value) => {
    const k = typeof value === 'string' ? value : Array.isArray(value) ? value[0] : value.publicKey ?? value;
    const b = typeof k === 'string' ? decode58(k) : k;
    if (b.length !== 32) throw new SerializerError('The provided public key is invalid');
    return b;
  },
  deserialize: (buffer, offset = 0) => [encode58(need('publicKey', buffer, offset, 32)), offset + 32],
});

// collections
const collection = (name, item, options, pack, unpack) => {
  const size = options.size ?? u32();
  return {
    description: options.description ?? name,
    fixedSize: typeof size === 'number' && item.fixedSize !== null ? size * item.fixedSize : null,
    maxSize: typeof size === 'number' && item.maxSize !== null ? size * item.maxSize : null,
    serialize: (value) => {
      const items = unpack(value);
      if (typeof size === 'number' && items.length !== size) throw new SerializerError(`Expected [${name}] to have ${size} items, got ${items.length}.`);
      const head = typeof size === 'object' ? [size.serialize(items.length)] : [];
      return mergeBytes([...head, ...items.map((v) => item.serialize(v))]);
    },
    deserialize: (buffer, offset = 0) => {
      const values = [];
      let at = offset;
      if (typeof size === 'object' && buffer.slice(at).length === 0) return [pack(values), at];
      if (size === 'remainder') {
        while (at < buffer.length) { const [v, end] = item.deserialize(buffer, at); values.push(v); at = end; }
        return [pack(values), at];
      }
      let n = size;
      if (typeof size === 'object') { const [m, end] = size.deserialize(buffer, at); n = Number(m); at = end; }
      for (let i = 0; i < n; i += 1) { const [v, end] = item.deserialize(buffer, at); values.push(v); at = end; }
      return [pack(values), at];
    },
  };
};
export const array = (item, options = {}) => collection('array', item, options, (v) => v, (v) => Array.from(v));
export const set = (item, options = {}) => collection('set', item, options, (v) => new Set(v), (v) => Array.from(v));
export const tuple = (items, options = {}) => ({
  description: options.description ?? 'tuple', fixedSize: sum(items.map((i) => i.fixedSize)), maxSize: sum(items.map((i) => i.maxSize)),
  serialize: (value) => {
    if (value.length !== items.length) throw new SerializerError('Expected a tuple of ' + items.length);
    return mergeBytes(items.map((s, i) => s.serialize(value[i])));
  },
  deserialize: (buffer, offset = 0) => {
    const values = [];
    let at = offset;
    for (const s of items) { const [v, end] = s.deserialize(buffer, at); values.push(v); at = end; }
    return [values, at];
  },
});
export const map = (key, value, options = {}) => collection('map', tuple([key, value]), options, (v) => new Map(v), (v) => Array.from(v.entries()));
export const struct = (fields, options = {}) => ({
  description: options.description ?? 'struct',
  fixedSize: sum(fields.map(([, s]) => s.fixedSize)), maxSize: sum(fields.map(([, s]) => s.maxSize)),
  serialize: (value) => mergeBytes(fields.map(([key, s]) => s.serialize(value[key]))),
  deserialize: (buffer, offset = 0) => {
    const value = {};
    let at = offset;
    for (const [key, s] of fields) { const [v, end] = s.deserialize(buffer, at); value[key] = v; at = end; }
    return [value, at];
  },
});

// options and enums
const isOption = (v) => v !== null && typeof v === 'object' && '__option' in v;
const toOption = (v) => (isOption(v) ? v : v !== null ? { __option: 'Some', value: v } : { __option: 'None' });
export const option = (item, options = {}) => {
  const prefix = options.prefix ?? u8();
  return {
    description: options.description ?? 'option',
    fixedSize: item.fixedSize === 0 ? prefix.fixedSize : options.fixed ? sum([prefix.fixedSize, item.fixedSize]) : null,
    maxSize: sum([prefix.maxSize, item.maxSize]),
    serialize: (value) => {
      const o = toOption(value);
      if (o.__option === 'Some') return mergeBytes([prefix.serialize(1), item.serialize(o.value)]);
      const b = prefix.serialize(0);
      return options.fixed ? padBytes(b, prefix.fixedSize + item.fixedSize) : b;
    },
    deserialize: (buffer, offset = 0) => {
      if (buffer.slice(offset).length === 0) return [{ __option: 'None' }, offset];
      const [is, at] = prefix.deserialize(buffer, offset);
      if (Number(is) === 0) return [{ __option: 'None' }, options.fixed ? at + item.fixedSize : at];
      const [value, end] = item.deserialize(buffer, at);
      return [{ __option: 'Some', value }, end];
    },
  };
};
export const nullable = (item, options = {}) => mapSerializer(option(item, options), (v) => v, (o) => (o.__option === 'Some' ? o.value : null));
export const scalarEnum = (constructor, options = {}) => {
  const prefix = options.size ?? u8();
  const keys = Object.keys(constructor);
  const values = Object.values(constructor);
  const numeric = values.some((v) => typeof v === 'number');
  const hi = numeric ? keys.length / 2 - 1 : keys.length - 1;
  const variants = numeric ? keys : [...new Set([...keys, ...values])];
  const bad = (v) => new SerializerError(`Invalid scalar enum variant. Got [${v}].`);
  return {
    description: options.description ?? 'enum', fixedSize: prefix.fixedSize, maxSize: prefix.fixedSize,
    serialize: (value) => {
      if (typeof value === 'number') { if (value < 0 || value > hi) throw bad(value); return prefix.serialize(value); }
      if (!variants.includes(value)) throw bad(value);
      const i = values.indexOf(value);
      if (i >= 0 && !numeric) return prefix.serialize(i);
      return prefix.serialize(numeric ? constructor[value] : keys.indexOf(value));
    },
    deserialize: (buffer, offset = 0) => {
      const [v, at] = prefix.deserialize(buffer, offset);
      const n = Number(v);
      if (n < 0 || n > hi) throw new SerializerError(`Enum discriminator out of range: ${n}`);
      return [numeric ? n : values[n], at];
    },
  };
};
export const dataEnum = (variants, options = {}) => {
  const prefix = options.size ?? u8();
  const sizes = variants.map(([, s]) => s.fixedSize);
  return {
    description: options.description ?? 'dataEnum',
    fixedSize: sizes.every((s) => s !== null && s === sizes[0]) ? sum([prefix.fixedSize, sizes[0]]) : null,
    maxSize: sum([prefix.maxSize, max(variants.map(([, s]) => s.maxSize))]),
    serialize: (value) => {
      const i = variants.findIndex(([key]) => value.__kind === key);
      if (i < 0) throw new SerializerError(`Invalid data enum variant. Got [${value.__kind}].`);
      return mergeBytes([prefix.serialize(i), variants[i][1].serialize(value)]);
    },
    deserialize: (buffer, offset = 0) => {
      const [n, at] = prefix.deserialize(buffer, offset);
      const variant = variants[Number(n)];
      if (!variant) throw new SerializerError(`Enum discriminator out of range: ${n}`);
      const [value, end] = variant[1].deserialize(buffer, at);
      return [{ __kind: variant[0], ...(value ?? {}) }, end];
    },
  };
};
export const bitArray = (size, options = {}) => ({
  description: options.description ?? 'bitArray', fixedSize: size, maxSize: size,
  serialize: (value) => {
    const out = new Uint8Array(size);
    value.slice(0, size * 8).forEach((b, i) => { if (b) out[i >> 3] |= options.backward ? 1 << (i & 7) : 128 >> (i & 7); });
    return options.backward ? out.reverse() : out;
  },
  deserialize: (buffer, offset = 0) => {
    let b = need('bitArray', buffer, offset, size);
    if (options.backward) b = b.reverse();
    return [Array.from({ length: size * 8 }, (_, i) => (b[i >> 3] & (options.backward ? 1 << (i & 7) : 128 >> (i & 7))) !== 0), offset + size];
  },
});
