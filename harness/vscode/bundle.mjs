// node bundle.mjs SRC OUT: the extension as one file, as webpack makes it; what is not installed stays a require().
import { createRequire } from "module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
await esbuild.build({
	entryPoints: [`${process.argv[2]}/src/extension.ts`],
	outfile: process.argv[3],
	bundle: true, platform: "node", format: "cjs", target: "node20", logLevel: "warning",
	packages: "external",
	tsconfigRaw: { compilerOptions: { esModuleInterop: true, target: "ES2022" } },
});
