// Bundles the shipped JavaScript client with a small stand-in for umi and loads it.
import { createRequire } from 'node:module';
import path from 'node:path';
import { pathToFileURL, fileURLToPath } from 'node:url';
const require = createRequire('/opt/veriftools/node/');
const esbuild = require('esbuild');
const here = path.dirname(fileURLToPath(import.meta.url));
const out = path.join(here, 'bundle.mjs');
await esbuild.build({
  stdin: { contents: `export * from ${JSON.stringify(path.join(process.env.REPO, 'clients/js/src/index.ts'))}; export * as umi from '@metaplex-foundation/umi';`, resolveDir: here },
  bundle: true, platform: 'node', format: 'esm', outfile: out, logLevel: 'error',
  alias: {
    '@metaplex-foundation/umi/serializers': path.join(here, 'serializers.js'),
    '@metaplex-foundation/umi': path.join(here, 'index.js'),
  },
});
export const client = await import(pathToFileURL(out));
export const umi = client.umi;
const registry = new Map();
export const programs = {
  add: (p) => registry.set(p.name, p),
  get: (n) => registry.get(n),
  getPublicKey: (n, fallback) => registry.get(n)?.publicKey ?? fallback,
};
client.Rewards().install({ programs });
export const key = (n) => umi.b58encode(new Uint8Array(32).fill(n));
export const signer = (k) => ({ publicKey: k, signMessage: async () => {}, signTransaction: async () => {}, signAllTransactions: async () => {} });
export const ctx = { programs, payer: signer(key(99)) };
export function equal(a, b, what) {
  const [x, y] = [JSON.stringify(a), JSON.stringify(b)];
  if (x !== y) {
    console.error(`${what}: ${x}, must be ${y}`);
    process.exit(1);
  }
}
