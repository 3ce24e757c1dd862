// One request per line in, one answer per line out; a pure function of the request.
import * as client from 'mplx-rewards-client';
import { isSigner, none, publicKey, some } from '@metaplex-foundation/umi';
import readline from 'node:readline';

const decl = DECL;
const hex = (b) => Buffer.from(b).toString('hex');
const signer = (k) => ({
  publicKey: k,
  signMessage: async () => new Uint8Array(64),
  signTransaction: async (t) => t,
  signAllTransactions: async (t) => t,
});
const lc = (s) => s[0].toLowerCase() + s.slice(1);

const registry = new Map();
const programs = {
  add(p, override) {
    registry.set(p.name, p);
  },
  get(name) {
    const p = registry.get(name);
    if (!p) throw new Error(`unknown program ${name}`);
    return p;
  },
  getPublicKey(name, fallback) {
    const p = registry.get(name);
    if (p) return p.publicKey;
    // the program is known under one name only: a deployment of one's own is registered under it
    if (!fallback || fallback === client.MPLX_REWARDS_PROGRAM_ID) throw new Error(`unknown program ${name}`);
    return publicKey(fallback);
  },
};
client.Rewards().install({ programs });

function build(r) {
  const d = decl[r.i] ?? {};
  for (const [name, how] of Object.entries(d))
    if (!how.optional && !(name in r.acc)) throw new Error(`${r.i} wants an account ${name}`);
  const input = {};
  for (const [name, k] of Object.entries(r.acc)) {
    const how = d[name] ?? { signer: true, key: true, optional: false };
    if (how.optional && r.omit) continue;
    const may = how.signer && (!how.key || r.sig.includes(k));
    input[name] = may ? signer(k) : r.pda ? [k, 255] : k;
  }
  for (const [name, a] of Object.entries(r.arg)) {
    input[name] =
      a.t === 'u64' ? (r.num && BigInt(a.v) <= 9007199254740991n ? Number(a.v) : BigInt(a.v))
      : a.t === 'opt' ? (a.v === null ? (r.num ? null : none()) : r.num ? BigInt(a.v) : some(BigInt(a.v)))
      : a.t === 'enum' ? client.LockupPeriod[a.v]
      : a.v;
  }
  const f = client[lc(r.i)];
  if (typeof f !== 'function') throw new Error(`no function ${lc(r.i)}`);
  const ctx = { programs, payer: signer(r.payer), identity: signer(r.payer), eddsa: {} };
  const b = f(ctx, input);
  if (b.items.length !== 1) throw new Error(`${b.items.length} instructions`);
  const { instruction: x, signers } = b.items[0];
  const who = new Set(signers.map((s) => (isSigner(s) ? s.publicKey : null)));
  return {
    program: x.programId,
    keys: x.keys.map((m) => [m.pubkey, !!m.isSigner, !!m.isWritable]),
    unsigned: x.keys.filter((m) => m.isSigner && !who.has(m.pubkey)).map((m) => m.pubkey),
    data: hex(x.data),
  };
}

const norm = (v) =>
  typeof v === 'bigint' ? v.toString() : Array.isArray(v) ? v.map(norm) : typeof v === 'number' ? String(v) : v;

async function decode(r) {
  const data = new Uint8Array(r.len);
  data.set(Buffer.from(r.head, 'hex'));
  const raw = { publicKey: r.key, exists: true, data, executable: false, owner: r.owner, lamports: { basisPoints: 1n } };
  // a second account that differs in one byte
  const data2 = data.slice();
  data2[40] ^= 1;
  const key2 = publicKey('Vote111111111111111111111111111111111111111');
  const raw2 = { ...raw, publicKey: key2, data: data2 };
  const find = (k) => (k === r.key ? raw : k === key2 ? raw2 : { publicKey: k, exists: false });
  const opts = { commitment: 'finalized' };
  let seen = null;
  const rpc = {
    getAccount: async (k, o) => ((seen = o), find(k)),
    getAccounts: async (ks, o) => ((seen = o), ks.map(find)),
    getProgramAccounts: async (program, { filters }) => {
      const ok =
        program === r.owner &&
        filters.every((f) =>
          f.memcmp
            ? hex(data.slice(f.memcmp.offset, f.memcmp.offset + f.memcmp.bytes.length)) === hex(f.memcmp.bytes)
            : f.dataSize === data.length
        );
      return ok ? [raw] : [];
    },
  };
  const ctx = { programs, rpc };
  const K = r.kind;
  const flat = (a) => {
    const o = {};
    for (const [k, v] of Object.entries(a)) if (k !== 'header') o[k] = norm(v);
    return o;
  };
  const one = flat(client[`deserialize${K}`](raw));
  const problems = [];
  const same = (what, v) => {
    if (JSON.stringify(v) !== JSON.stringify(one)) problems.push(what);
  };
  const heeds = (what) => {
    if (seen?.commitment !== opts.commitment) problems.push(`${what} drops its options`);
    seen = null;
  };
  same('fetch', flat(await client[`fetch${K}`](ctx, r.key, opts)));
  heeds('fetch');
  same('safeFetch', flat(await client[`safeFetch${K}`](ctx, [r.key, 254], opts)));
  heeds('safeFetch');
  if ((await client[`safeFetch${K}`](ctx, r.other)) !== null) problems.push('safeFetch of a missing account');
  const all = await client[`fetchAll${K}`](ctx, [r.key, r.key]);
  if (all.length !== 2) problems.push('fetchAll');
  else all.forEach((a) => same('fetchAll', flat(a)));
  for (const f of ['fetchAll', 'safeFetchAll']) {
    const two = await client[`${f}${K}`](ctx, [key2, r.key], opts);
    heeds(f);
    if (two.length !== 2 || two[0].publicKey !== key2 || two[1].publicKey !== r.key) problems.push(`${f} of two accounts`);
    else {
      same(f, flat({ ...two[1], publicKey: one.publicKey }));
      if (JSON.stringify(flat({ ...two[0], publicKey: one.publicKey })) === JSON.stringify(one)) problems.push(`${f} takes one account for another`);
    }
  }
  const safe = await client[`safeFetchAll${K}`](ctx, [r.other, r.key]);
  if (safe.length !== 1) problems.push('safeFetchAll');
  else same('safeFetchAll', flat(safe[0]));
  let threw = false;
  try {
    await client[`fetch${K}`](ctx, r.other);
  } catch {
    threw = true;
  }
  if (!threw) problems.push('fetch of a missing account');
  const stored = client[`deserialize${K}`](raw);
  const gpa = () => client[`get${K}GpaBuilder`](ctx);
  const type = client.AccountType?.[client.getAccountTypeSerializer().deserialize(new Uint8Array([one.data[0]]))[0]];
  if (type !== K) problems.push(`its type is taken for ${type}`);
  for (const [name, v] of Object.entries(r.want)) {
    const bytes = name === 'data';
    const val = bytes ? [...stored.data] : ['bigint', 'number'].includes(typeof stored[name]) ? BigInt(v) : v;
    const got = await gpa().whereField(name, val).getDeserialized();
    if (got.length !== 1) problems.push(`search by ${name} misses the account`);
    else same(`search by ${name}`, flat(got[0]));
    // the last byte is different
    const off = bytes ? val.map((x, i) => (i === val.length - 1 ? x ^ 1 : x)) : typeof val === 'bigint' ? val ^ 1n : r.other;
    if ((await gpa().whereField(name, off).getDeserialized()).length) problems.push(`search by ${name} finds a foreign account`);
  }
  const size = client[`get${K}Size`]();
  return { fields: one, problems, size };
}

function errors(r) {
  const p = programs.get('mplxRewards');
  const e = p.getErrorFromCode(r.code);
  const n = r.name === null ? null : p.getErrorFromName(r.name);
  return {
    name: e ? e.name : null,
    code: e ? e.code : null,
    message: e ? e.message : null,
    byName: n ? n.code : null,
    nameByName: n ? n.name : null,
    program: client.MPLX_REWARDS_PROGRAM_ID,
    fetched: client.getMplxRewardsProgramId({ programs }),
  };
}

const rl = readline.createInterface({ input: process.stdin });
for await (const line of rl) {
  if (!line) continue;
  let a;
  try {
    const r = JSON.parse(line);
    a = r.cmd === 'build' ? build(r) : r.cmd === 'dec' ? await decode(r) : errors(r);
  } catch (e) {
    a = { error: String(e && e.message) };
  }
  process.stdout.write(JSON.stringify(a) + '\n');
}
