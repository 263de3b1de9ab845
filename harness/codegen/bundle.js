// node bundle.js CODEGEN_DIR OUT: bundles gen.js with the repository's visitors,
// whose dependencies are replaced by the stand-ins.
const path = require("node:path");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [repo, out] = process.argv.slice(2);
const here = __dirname;
esbuild.build({
  entryPoints: [path.join(here, "gen.js")],
  bundle: true, platform: "node", format: "esm", outfile: out, logLevel: "error", tsconfigRaw: "{}",
  plugins: [{
    name: "standins",
    setup(b) {
      b.onResolve({ filter: /^iota-tinygo$/ }, () => ({ path: path.join(repo, "src/tinygo/mod.ts") }));
      b.onResolve({ filter: /^iota-msgpack-helpers$/ }, () => ({ path: path.join(repo, "src/tinygo/msgpack_helpers.ts") }));
      b.onResolve({ filter: /apex_core@.*/ }, () => ({ path: path.join(here, "standin_model.js") }));
      b.onResolve({ filter: /apex_codegen@.*\/go\// }, () => ({ path: path.join(here, "standin_go.js") }));
      b.onResolve({ filter: /apex_codegen@.*\/utils\// }, () => ({ path: path.join(here, "standin_utils.js") }));
    },
  }],
}).catch((e) => { console.error(String(e)); process.exit(1); });
