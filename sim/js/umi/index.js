// Stand-in for the parts of @metaplex-foundation/umi 0.8 the shipped JavaScript client uses.
const ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';

export function b58encode(bytes) {
  let zeros = 0;
  while (zeros < bytes.length && bytes[zeros] === 0) zeros++;
  let n = 0n;
  for (const b of bytes) n = (n << 8n) | BigInt(b);
  let out = '';
  while (n > 0n) {
    out = ALPHA[Number(n % 58n)] + out;
    n /= 58n;
  }
  return '1'.repeat(zeros) + out;
}
export function b58decode(s) {
  let zeros = 0;
  while (zeros < s.length && s[zeros] === '1') zeros++;
  let n = 0n;
  for (const c of s) {
    const i = ALPHA.indexOf(c);
    if (i < 0) throw new Error(`invalid base58: ${s}`);
    n = n * 58n + BigInt(i);
  }
  const out = [];
  while (n > 0n) {
    out.unshift(Number(n & 255n));
    n >>= 8n;
  }
  return Uint8Array.from([...new Array(zeros).fill(0), ...out]);
}

export const isPublicKey = (v) => typeof v === 'string' && b58decode(v).length === 32;
export const isPda = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
export const isSigner = (v) => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v;
export function publicKey(input, assertValid = true) {
  const key = (() => {
    if (typeof input === 'string') return input;
    if (Array.isArray(input)) return input[0];
    if (input instanceof Uint8Array) return b58encode(input);
    if (typeof input === 'object' && 'publicKey' in input) return input.publicKey;
    throw new Error('InvalidPublicKey');
  })();
  if (assertValid && !isPublicKey(key)) throw new Error(`InvalidPublicKey: ${key}`);
  return key;
}
export const publicKeyBytes = (k) => b58decode(k);
export const some = (value) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (v) => !!v && typeof v === 'object' && '__option' in v;
export const isSome = (v) => v.__option === 'Some';
export const isNone = (v) => v.__option === 'None';
export const wrapNullable = (v) => (v !== null && v !== undefined ? some(v) : none());
export const unwrapOption = (o, fallback = () => null) => (isSome(o) ? o.value : fallback());
export const samePublicKey = (a, b) => publicKey(a) === publicKey(b);
export const defaultPublicKey = () => '11111111111111111111111111111111';
export const amountToNumber = (a) => Number(a.basisPoints) / 10 ** a.decimals;

export class TransactionBuilder {
  constructor(items) {
    this.items = items;
  }
  add(b) {
    return new TransactionBuilder([...this.items, ...(b.items ?? [b])]);
  }
  prepend(b) {
    return new TransactionBuilder([...(b.items ?? [b]), ...this.items]);
  }
  getInstructions() {
    return this.items.map((i) => i.instruction);
  }
}
export const transactionBuilder = (items = []) => new TransactionBuilder(items);

export class UmiError extends Error {
  constructor(message, source, sourceDetails, cause) {
    super(message);
    this.name = 'UmiError';
    this.cause = cause;
  }
}
export class ProgramError extends UmiError {
  constructor(message, program, cause) {
    super(message, 'program', program.name, cause);
    this.name = 'ProgramError';
    this.program = program;
    this.logs = cause && cause.logs;
  }
}

export function assertAccountExists(account, name) {
  if (!account.exists) throw new Error(`The account of type [${name}] was not found`);
}
export function deserializeAccount(rawAccount, serializer) {
  const { data, publicKey: key, ...rest } = rawAccount;
  const [parsed] = serializer.deserialize(data);
  return { publicKey: key, header: rest, ...parsed };
}

class GpaBuilder {
  constructor(context, programId, options) {
    this.context = context;
    this.programId = programId;
    this.options = options;
  }
  with(o) {
    return new GpaBuilder(this.context, this.programId, { ...this.options, ...o });
  }
  registerFields(fields) {
    return this.with({ fields });
  }
  registerFieldsFromStruct(fields) {
    let offset = 0;
    const out = {};
    for (const [name, s] of fields) {
      out[name] = [offset, s];
      offset += s.fixedSize ?? 0;
    }
    return this.registerFields(out);
  }
  deserializeUsing(f) {
    return this.with({ deserialize: f });
  }
  where(offset, bytes) {
    return this.with({ filters: [...(this.options.filters ?? []), { memcmp: { offset, bytes } }] });
  }
  whereField(field, value) {
    const [offset, serializer] = this.options.fields[field];
    return this.where(offset, serializer.serialize(value));
  }
  whereSize(dataSize) {
    return this.with({ filters: [...(this.options.filters ?? []), { dataSize }] });
  }
  get() {
    return this.context.rpc.getProgramAccounts(this.programId, { filters: this.options.filters ?? [] });
  }
  async getDeserialized() {
    return (await this.get()).map(this.options.deserialize);
  }
}
export const gpaBuilder = (context, programId) => new GpaBuilder(context, programId, {});
