// Stand-in for @metaplex-foundation/umi/serializers (umi 0.8).
import { b58decode, b58encode, isNone, isOption, none, publicKey as toKey, some } from './index.js';

const cat = (parts) => {
  const out = new Uint8Array(parts.reduce((n, p) => n + p.length, 0));
  let o = 0;
  for (const p of parts) {
    out.set(p, o);
    o += p.length;
  }
  return out;
};

export const Endian = { Little: 'le', Big: 'be' };
function num(size, big) {
  return (options = {}) => {
    const inner = little(size, big);
    if (options.endian !== Endian.Big) return inner;
    return {
      ...inner,
      serialize: (v) => inner.serialize(v).reverse(),
      deserialize: (b, o = 0) => [inner.deserialize(Uint8Array.from(b.slice(o, o + size)).reverse(), 0)[0], o + size],
    };
  };
}
function little(size, big) {
  return ({
    description: `u${size * 8}`,
    fixedSize: size,
    maxSize: size,
    serialize: (value) => {
      let v = BigInt(value);
      if (v < 0n || v >= 1n << BigInt(size * 8)) throw new Error(`NumberOutOfRange u${size * 8}: ${value}`);
      const out = new Uint8Array(size);
      for (let i = 0; i < size; i++) {
        out[i] = Number(v & 255n);
        v >>= 8n;
      }
      return out;
    },
    deserialize: (bytes, offset = 0) => {
      if (bytes.length < offset + size) throw new Error(`NotEnoughBytes u${size * 8}`);
      let v = 0n;
      for (let i = size - 1; i >= 0; i--) v = (v << 8n) | BigInt(bytes[offset + i]);
      return [big ? v : Number(v), offset + size];
    },
  });
}
const signed = (bits, f) => () => {
  const inner = f();
  return {
    ...inner,
    description: `i${bits}`,
    serialize: (v) => inner.serialize(BigInt.asUintN(bits, BigInt(v))),
    deserialize: (b, o = 0) => {
      const [v, n] = inner.deserialize(b, o);
      const x = BigInt.asIntN(bits, BigInt(v));
      return [bits <= 32 ? Number(x) : x, n];
    },
  };
};
export const u8 = num(1, false);
export const i8 = signed(8, u8);
export const i16 = signed(16, num(2, false));
export const i32 = signed(32, num(4, false));
export const u16 = num(2, false);
export const u32 = num(4, false);
export const u64 = num(8, true);
export const u128 = num(16, true);
export const i128 = signed(128, u128);
export const i64 = () => {
  const inner = u64();
  return {
    ...inner,
    description: 'i64',
    serialize: (v) => inner.serialize(BigInt.asUintN(64, BigInt(v))),
    deserialize: (b, o = 0) => {
      const [v, n] = inner.deserialize(b, o);
      return [BigInt.asIntN(64, v), n];
    },
  };
};
export const bool = () => {
  const inner = u8();
  return {
    ...inner,
    description: 'bool',
    serialize: (v) => inner.serialize(v ? 1 : 0),
    deserialize: (b, o = 0) => {
      const [v, n] = inner.deserialize(b, o);
      return [v === 1, n];
    },
  };
};

export const publicKey = () => ({
  description: 'publicKey',
  fixedSize: 32,
  maxSize: 32,
  serialize: (value) => b58decode(toKey(value)),
  deserialize: (bytes, offset = 0) => {
    if (bytes.length < offset + 32) throw new Error('NotEnoughBytes publicKey');
    return [b58encode(bytes.slice(offset, offset + 32)), offset + 32];
  },
});

export const array = (item, options = {}) => {
  const size = options.size ?? u32();
  const fixed = typeof size === 'number';
  return {
    description: 'array',
    fixedSize: fixed && item.fixedSize !== null ? item.fixedSize * size : null,
    maxSize: null,
    serialize: (value) => {
      if (fixed && value.length !== size) throw new Error(`InvalidNumberOfItems ${value.length}`);
      const items = value.map((v) => item.serialize(v));
      return cat(fixed ? items : [size.serialize(value.length), ...items]);
    },
    deserialize: (bytes, offset = 0) => {
      let n = size;
      if (!fixed) [n, offset] = size.deserialize(bytes, offset);
      const out = [];
      for (let i = 0; i < n; i++) {
        const [v, o] = item.deserialize(bytes, offset);
        out.push(v);
        offset = o;
      }
      return [out, offset];
    },
  };
};

export const option = (item, options = {}) => {
  const prefix = options.prefix ?? u8();
  const fixed = options.fixed ?? false;
  return {
    description: 'option',
    fixedSize: fixed ? prefix.fixedSize + item.fixedSize : null,
    maxSize: null,
    serialize: (value) => {
      const o = isOption(value) ? value : value === null || value === undefined ? none() : some(value);
      if (isNone(o)) return fixed ? new Uint8Array(prefix.fixedSize + item.fixedSize) : prefix.serialize(0);
      return cat([prefix.serialize(1), item.serialize(o.value)]);
    },
    deserialize: (bytes, offset = 0) => {
      if (bytes.length - offset === 0) return [none(), offset];
      const [p, o] = prefix.deserialize(bytes, offset);
      if (p === 0) return [none(), fixed ? offset + prefix.fixedSize + item.fixedSize : o];
      const [v, e] = item.deserialize(bytes, o);
      return [some(v), e];
    },
  };
};

export const nullable = (item, options = {}) => {
  const inner = option(item, options);
  return {
    ...inner,
    description: 'nullable',
    deserialize: (b, o = 0) => {
      const [v, n] = inner.deserialize(b, o);
      return [isNone(v) ? null : v.value, n];
    },
  };
};

export const scalarEnum = (constructor, options = {}) => {
  const size = options.size ?? u8();
  const names = Object.keys(constructor).filter((k) => Number.isNaN(Number(k)));
  const values = names.map((n) => constructor[n]);
  return {
    description: options.description ?? 'enum',
    fixedSize: size.fixedSize,
    maxSize: size.fixedSize,
    serialize: (value) => {
      const i = typeof value === 'number' ? values.indexOf(value) : names.indexOf(value);
      const j = i >= 0 ? i : values.indexOf(value);
      if (j < 0) throw new Error(`InvalidScalarEnumVariant ${value}`);
      return size.serialize(typeof values[j] === 'number' ? values[j] : j);
    },
    deserialize: (bytes, offset = 0) => {
      const [v, o] = size.deserialize(bytes, offset);
      if (typeof values[0] === 'number') {
        if (!values.includes(v)) throw new Error('EnumDiscriminatorOutOfRange');
        return [v, o];
      }
      return [values[v], o];
    },
  };
};

export const struct = (fields, options = {}) => ({
  description: options.description ?? 'struct',
  fixedSize: fields.reduce((n, [, s]) => (n === null || s.fixedSize === null ? null : n + s.fixedSize), 0),
  maxSize: null,
  serialize: (value) => cat(fields.map(([name, s]) => s.serialize(value[name]))),
  deserialize: (bytes, offset = 0) => {
    const out = {};
    for (const [name, s] of fields) {
      const [v, o] = s.deserialize(bytes, offset);
      out[name] = v;
      offset = o;
    }
    return [out, offset];
  },
});

export const mapSerializer = (s, unmap, map) => ({
  description: s.description,
  fixedSize: s.fixedSize,
  maxSize: s.maxSize,
  serialize: (value) => s.serialize(unmap(value)),
  deserialize: (bytes, offset = 0) => {
    const [v, o] = s.deserialize(bytes, offset);
    return [map ? map(v, bytes, offset) : v, o];
  },
});

export const bytes = (options = {}) => ({
  description: 'bytes',
  fixedSize: options.size ?? null,
  maxSize: null,
  serialize: (v) => Uint8Array.from(v),
  deserialize: (b, o = 0) => [b.slice(o, options.size ? o + options.size : undefined), options.size ? o + options.size : b.length],
});

export const tuple = (items, options = {}) => ({
  description: options.description ?? 'tuple',
  fixedSize: items.reduce((n, s) => (n === null || s.fixedSize === null ? null : n + s.fixedSize), 0),
  maxSize: null,
  serialize: (value) => cat(items.map((s, i) => s.serialize(value[i]))),
  deserialize: (b, offset = 0) => {
    const out = [];
    for (const s of items) {
      const [v, o] = s.deserialize(b, offset);
      out.push(v);
      offset = o;
    }
    return [out, offset];
  },
});

export const unit = () => ({
  description: 'unit',
  fixedSize: 0,
  maxSize: 0,
  serialize: () => new Uint8Array(),
  deserialize: (_b, o = 0) => [undefined, o],
});

export const mergeBytes = cat;
