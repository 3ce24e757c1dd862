// node build.mjs <repo> <out.mjs>: bundles the shipped JavaScript client with the umi stand-in and the
// driver, and records which inputs its declarations type as signers and which are optional.
import { createRequire } from 'node:module';
import path from 'node:path';
import fs from 'node:fs';
import { fileURLToPath } from 'node:url';
const require = createRequire('/opt/veriftools/node/');
const esbuild = require('esbuild');
const ts = require('typescript');
const here = path.dirname(fileURLToPath(import.meta.url));
const [repo, out] = process.argv.slice(2);
const src = path.join(repo, 'clients/js/src');

const decl = {};
const walk = (dir) => {
  for (const f of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, f.name);
    if (f.isDirectory()) walk(p);
    else if (p.endsWith('.ts')) {
      const sf = ts.createSourceFile(p, fs.readFileSync(p, 'utf8'), ts.ScriptTarget.Latest, true);
      sf.forEachChild((n) => {
        if (!ts.isTypeAliasDeclaration(n) && !ts.isInterfaceDeclaration(n)) return;
        const m = /^(\w+)InstructionAccounts$/.exec(n.name.text);
        if (!m) return;
        const lits = (t) =>
          ts.isTypeLiteralNode(t) ? [...t.members] : ts.isIntersectionTypeNode(t) ? t.types.flatMap(lits) : [];
        const members = ts.isInterfaceDeclaration(n) ? n.members : lits(n.type);
        const o = (decl[m[1]] = {});
        for (const x of members)
          if (ts.isPropertySignature(x))
            o[x.name.getText(sf)] = {
              signer: x.type.getText(sf).includes('Signer'),
              key: x.type.getText(sf).includes('PublicKey'),
              optional: !!x.questionToken,
            };
      });
    }
  }
};
walk(src);

await esbuild.build({
  entryPoints: [path.join(here, 'driver.mjs')],
  bundle: true,
  platform: 'node',
  format: 'esm',
  target: 'es2022',
  outfile: out,
  logLevel: 'error',
  define: { DECL: JSON.stringify(decl) },
  alias: {
    'mplx-rewards-client': path.join(src, 'index.ts'),
    '@metaplex-foundation/umi/serializers': path.join(here, 'umi/serializers.js'),
    '@metaplex-foundation/umi': path.join(here, 'umi/index.js'),
  },
});
