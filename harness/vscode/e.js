"use strict";
// Drives the VS Code extension, bundled from /repo's sources, through `activate()`, its commands and the
// editor's events, in a model of VS Code (host.js), and checks what it does to the editor, the files, and
// the programs it runs. VK_PROP says which property.
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const { Monitor, Rng, hash64 } = require("./kit.js");
const { Host, Uri, TextDocument, TextEditor, EventEmitter, NotModelled, ResponseError } = require("./host.js");

const BUNDLE = process.env.VK_BUNDLE;
const SCRATCH = fs.realpathSync(process.env.VK_SCRATCH ?? "/tmp");
const MANIFEST = JSON.parse(fs.readFileSync(process.env.VK_MANIFEST, "utf8"));
const wrapper = vm.compileFunction(fs.readFileSync(BUNDLE, "utf8"), ["exports", "require", "module", "__filename", "__dirname"], { filename: BUNDLE });
const REAL_PATH = process.env.PATH;

const m = new Monitor(process.env.VK_PROP);
let unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(e));

class Episode {
	constructor(seed) {
		this.seed = seed;
		this.rng = new Rng(seed);
		this.dir = fs.mkdtempSync(path.join(SCRATCH, "e-"));
		this.host = new Host(this.dir, this.rng, MANIFEST);
		this.trace = [];
		this.bundled = path.join(this.dir, "ext/bundled/bin/air");
		this.binDirs = ["bin1", "bin2"].map((d) => path.join(this.dir, d));
		fs.mkdirSync(path.join(this.dir, "ext/dist"), { recursive: true });
		this.binDirs.forEach((d) => fs.mkdirSync(d));
		fs.mkdirSync(path.join(this.dir, "cwd"));
		process.chdir(path.join(this.dir, "cwd"));
		process.env.PATH = this.binDirs.join(":");
		unhandled = [];
	}
	say(...what) {
		this.trace.push(what.map((w) => (typeof w === "string" ? w : JSON.stringify(w))).join(" "));
	}
	wrong(key, ...what) {
		const text = what.map((w) => (typeof w === "string" ? w : JSON.stringify(w))).join(" ");
		m.violation(key, `${text}\n${this.trace.slice(-25).join("\n")}`.replaceAll(this.dir, "$DIR"), { episode: String(this.seed) });
	}
	put(p, data = "") {
		fs.mkdirSync(path.dirname(p), { recursive: true });
		fs.writeFileSync(p, data);
	}
	/** A program called air that tells what it was called with. */
	program(p, exit = 0, loud = 0) {
		this.put(
			p,
			`#!/bin/sh\n{ printf '%s\\0' "$0" "$PWD" "$@"; printf '\\1\\0'; } >> '${this.dir}/calls'\nif [ -f '${this.dir}/watch' ]; then while IFS= read -r f; do /bin/cat "$f" >> '${this.dir}/seen' 2>/dev/null; printf '\\1\\n' >> '${this.dir}/seen'; done < '${this.dir}/watch'; fi\n${loud ? `/usr/bin/head -c ${loud} /dev/zero | /usr/bin/tr '\\0' x\n/usr/bin/head -c ${loud} /dev/zero | /usr/bin/tr '\\0' y >&2\n` : ""}${exit === "killed" ? "kill -KILL $$" : `if [ ${exit} -ne 0 ]; then echo failed >&2; fi\nexit ${exit}`}\n`,
		);
		fs.chmodSync(p, 0o755);
	}
	calls() {
		const p = path.join(this.dir, "calls");
		if (!fs.existsSync(p)) return [];
		const out = [];
		let current = [];
		for (const part of fs.readFileSync(p, "utf8").split("\0").slice(0, -1)) {
			if (part === "\u0001") {
				out.push({ program: current[0], cwd: current[1], args: current.slice(2) });
				current = [];
			} else current.push(part);
		}
		return out;
	}
	/** Loads and activates a fresh copy of the extension. */
	activate() {
		const mod = { exports: {} };
		const dist = path.join(this.dir, "ext/dist");
		const req = (name) => this.host.modules[name] ?? require(name);
		wrapper.call(mod.exports, mod.exports, req, mod, path.join(dist, "extension.js"), dist);
		this.extension = mod.exports;
		return this.extension.activate(this.host.context());
	}
	/** Runs one of the extension's commands to its end: how it ended. */
	async command(name) {
		const f = this.host.commands.get(name);
		if (!f) return { error: new Error(`no command ${name}`) };
		let timer;
		const late = new Promise((r) => {
			timer = setTimeout(() => r({ late: true }), 20000);
			timer.unref();
		});
		const run = (async () => {
			try {
				return { value: await f() };
			} catch (error) {
				return { error };
			}
		})();
		const r = await Promise.race([run, late]);
		clearTimeout(timer);
		if (r.late) this.wrong(`${name}:does-not-end`, `the command ${name} does not end`);
		return r;
	}
	makeFolders(n) {
		const r = this.rng;
		// paths that are prefixes of each other, nested ones, and names no shell may see
		const names = r.shuffle(["proj", "proj2", "proj R", "proj/sub", "pkg", "pkg.Rcheck", "a'b", "$(touch x)", "x;y", "été", "w", "other/proj", "other/w", "PROJ"]).slice(0, n);
		const fold = names.map((name, index) => {
			const p = path.join(this.dir, "ws", name);
			return { uri: Uri.file(p), name: path.basename(p), index };
		});
		return fold;
	}
	mkdirs(folders) {
		folders.forEach((f) => fs.mkdirSync(f.uri.fsPath, { recursive: true }));
	}
	close() {
		process.chdir(SCRATCH);
		process.env.PATH = REAL_PATH;
		fs.rmSync(this.dir, { recursive: true, force: true });
	}
}

const rel = (e, p) => (p ?? "nothing").replaceAll(e.dir, "$DIR");
const exists = (p) => !!p && fs.existsSync(p);

// ---------------------------------------------------------------- which program
function randomSettings(e, scope) {
	const r = e.rng;
	const out = {};
	if (r.chance(3, 5)) out["air.executableStrategy"] = r.pick(["bundled", "environment", "path"]);
	if (r.chance(3, 5)) out["air.executablePath"] = r.pick([path.join(e.dir, "mine/air"), path.join(e.dir, "mine/air-dev"), path.join(e.dir, "nowhere/air"), null, ""]);
	if (r.chance(2, 5)) out["air.addExecutableToTerminalPath"] = r.bool();
	if (r.chance(1, 3)) out["air.logLevel"] = r.pick(["error", "warning", "info", "debug", "trace"]);
	if (r.chance(1, 4)) out["air.dependencyLogLevels"] = r.pick(["tokio=debug", "x=trace,y=info"]);
	if (scope !== "global") {
		delete out["air.logLevel"];
		delete out["air.dependencyLogLevels"];
	}
	return out;
}

/** The open folder that is there and has the shortest path; the first one if none is. */
function rootFolder(e) {
	const f = e.host.folders ?? [];
	if (!f.length) return { uri: Uri.file(process.cwd()) };
	const there = f.filter((x) => exists(x.uri.fsPath));
	if (f.length === 1 || !there.length) return f[0];
	return there.reduce((a, b) => (b.uri.fsPath.length < a.uri.fsPath.length ? b : a));
}

/** The program the documentation names, given the settings of `folder`. */
function wanted(e, folder) {
	const h = e.host;
	const env = process.env.PATH.split(":").map((d) => path.join(d, "air")).find((p) => {
		try {
			return (fs.accessSync(p, fs.constants.X_OK), fs.statSync(p).isFile());
		} catch {
			return false;
		}
	});
	const bundled = exists(e.bundled) ? e.bundled : undefined;
	if (!h.trusted) return bundled;
	const own = h.value("air.executablePath", folder);
	switch (h.value("air.executableStrategy", folder) ?? "bundled") {
		case "environment": return env ?? bundled;
		case "path": return exists(own) ? own : undefined;
		default: return bundled ?? env;
	}
}

function checkTerminal(e, folder, when) {
	const h = e.host;
	const live = h.alive();
	const on = h.value("air.addExecutableToTerminalPath", folder) ?? true;
	const dir = live.length && on ? path.dirname(live[0].command) : undefined;
	const got = h.pathMutations.get("PATH");
	const others = [...h.pathMutations.keys()].filter((k) => k !== "PATH");
	m.eval(`terminal ${when} ${!!dir} ${on} ${live.length}`);
	m.count(dir ? "terminals with air's directory" : "terminals without");
	if (others.length) e.wrong("terminal:other-variables", `changes ${others}`);
	if (!dir && got) e.wrong(`terminal:left-behind:${live.length ? "setting-off" : "stopped"}`, `${when}: terminals still get PATH ${rel(e, got.value)}, the setting is ${on}, servers running: ${live.length}`);
	if (dir && !got) e.wrong("terminal:missing", `${when}: terminals do not get ${rel(e, dir)}, the setting is ${on}`);
	if (dir && got && (got.type !== "prepend" || got.value !== dir + ":")) e.wrong("terminal:wrong-directory", `${when}: terminals get ${got.type} ${rel(e, got.value)}, the running server is ${rel(e, live[0].command)}`);
	if (e.host.collection.persistent) e.wrong("terminal:persistent", "the PATH change outlives the session");
}

async function e01(e) {
	const { host, rng: r } = e;
	// the machine
	const machine = () => {
		for (const p of [e.bundled, path.join(e.binDirs[0], "air"), path.join(e.binDirs[1], "air"), path.join(e.dir, "mine/air"), path.join(e.dir, "mine/air-dev")]) {
			if (r.chance(3, 5)) e.program(p);
			else if (exists(p)) fs.rmSync(p);
		}
		if (r.chance(1, 8) && exists(path.join(e.binDirs[0], "air"))) fs.chmodSync(path.join(e.binDirs[0], "air"), 0o644);
	};
	machine();
	host.trusted = !r.chance(1, 3);
	const n = r.below(5);
	host.folders = n ? e.makeFolders(n) : undefined;
	e.mkdirs((host.folders ?? []).filter(() => r.chance(5, 6)));
	const settings = () => {
		host.layers.global = randomSettings(e, "global");
		host.layers.workspace = r.bool() ? randomSettings(e, "workspace") : {};
		for (const f of host.folders ?? []) host.layers.folders.set(f.uri.toString(), r.bool() ? randomSettings(e, "folder") : {});
	};
	settings();
	const user = (k) => host.layers.global[k] ?? null;
	const describe = () => e.say("trusted", host.trusted, "folders", (host.folders ?? []).map((f) => rel(e, f.uri.fsPath) + (exists(f.uri.fsPath) ? "" : " (missing)")), "settings", rel(e, JSON.stringify([host.layers.global, host.layers.workspace, [...host.layers.folders.values()]])), "there", [e.bundled, ...e.binDirs.map((d) => d + "/air")].filter(exists).map((p) => rel(e, p)));
	const started = (before, expected, options, folder, when) => {
		const fresh = host.clients.slice(before);
		const strategy = host.trusted ? (host.value("air.executableStrategy", folder) ?? "bundled") : "untrusted";
		const route = !expected ? "none" : expected === e.bundled ? "bundled" : expected.startsWith(e.binDirs[0]) || expected.startsWith(e.binDirs[1]) ? "environment" : "path";
		m.eval(`start ${strategy} ${route} ${host.folders?.length ?? 0} ${when}`);
		m.count(`${strategy} gives ${route}`);
		const live = host.alive();
		for (const c of fresh) {
			if (!host.trusted && c.command !== e.bundled) e.wrong("start:untrusted", `in an untrusted workspace ${rel(e, c.command)} is run`);
			if (JSON.stringify(c.args) !== '["language-server"]') e.wrong("start:arguments", `run with ${JSON.stringify(c.args)}`);
			const o = c.clientOptions.initializationOptions ?? {};
			if ((o.logLevel ?? null) !== options[0] || (o.dependencyLogLevels ?? null) !== options[1]) e.wrong("start:log-options", `the server is given ${JSON.stringify(o)}, the user's settings are ${JSON.stringify(options)}`);
		}
		if (!expected && fresh.length) return e.wrong(`start:${strategy}:unexpected`, `${when}: ${rel(e, fresh[0].command)} is run, where no program qualifies`);
		if (expected && !live.length) return e.wrong(`start:${strategy}:not-started`, `${when}: no server runs, expected ${rel(e, expected)}`);
		if (expected && live.length && live[0].command !== expected) e.wrong(`start:${strategy}:wrong-program`, `${when}: ${rel(e, live[0].command)} is run, expected ${rel(e, expected)}`);
	};
	describe();
	let folder = rootFolder(e);
	let expected = wanted(e, folder);
	let options = [user("air.logLevel"), user("air.dependencyLogLevels")];
	e.activate();
	await host.quiet();
	started(0, expected, options, folder, "on activation");
	checkTerminal(e, folder, "after activation");
	m.sample(() => ({ trusted: host.trusted, folders: host.folders?.length ?? 0, strategy: host.value("air.executableStrategy", folder), ran: rel(e, host.alive()[0]?.command) }));
	for (let k = r.below(5); k > 0; k--) {
		const op = r.below(4);
		if (op === 0) {
			// toggled at one of its levels
			const l = r.pick(["global", "workspace", "folder"]);
			const layer = l === "folder" ? (host.folderOf(folder.uri) ? host.folderLayer(host.folderOf(folder.uri)) : host.layers.global) : host.layers[l];
			if (r.chance(1, 5)) delete layer["air.addExecutableToTerminalPath"];
			else layer["air.addExecutableToTerminalPath"] = r.bool();
			e.say("toggled", l, layer["air.addExecutableToTerminalPath"] ?? "(unset)");
			host.changed(["air.addExecutableToTerminalPath"]);
			await host.quiet();
			checkTerminal(e, folder, "after the setting changed");
		} else {
			if (op === 1) machine();
			if (op === 2) {
				settings();
				host.changed(["air"]);
				await host.quiet();
				checkTerminal(e, folder, "after all settings changed");
			}
			if (op === 3 && !host.trusted && r.bool()) {
				host.trusted = true;
				host.emit.trust.fire();
				await host.quiet();
			}
			describe();
			const before = host.clients.length;
			folder = rootFolder(e);
			expected = wanted(e, folder);
			options = [user("air.logLevel"), user("air.dependencyLogLevels")];
			e.say("restart");
			const result = await e.command("air.restart");
			await host.quiet();
			started(before, expected, options, folder, "on restart");
			if (!!expected !== !result.error) e.wrong("restart:result", `the restart ${result.error ? `failed: ${result.error}` : "did not fail"}, expected ${rel(e, expected)}`);
			checkTerminal(e, folder, "after a restart");
		}
		m.count("steps after activation");
	}
}

// ---------------------------------------------------------------- starts and stops
async function e05(e) {
	const { host, rng: r } = e;
	e.program(e.bundled);
	e.program(path.join(e.dir, "mine/air"));
	host.folders = e.makeFolders(1);
	e.mkdirs(host.folders);
	const [f] = host.folders;
	const layer = host.folderLayer(f);
	const failing = new Map();
	const fails = (n) => {
		if (!failing.has(n)) failing.set(n, r.chance(1, 4));
		return failing.get(n);
	};
	host.startFails = fails;
	const stopFailing = r.chance(1, 3);
	const stopping = new Map();
	const stopFails = (n) => {
		if (!stopping.has(n)) stopping.set(n, stopFailing && r.chance(1, 3));
		return stopping.get(n);
	};
	host.stopFails = stopFails;
	// a start finds none running and no trace of the previous one
	host.onStart = (c) => {
		if (host.alive().length) e.wrong("two-servers", `${rel(e, c.command)} is started while ${host.alive().length} runs`);
		if (host.pathMutations.has("PATH")) e.wrong("path-of-the-last", "terminals still have the directory of a server that has been stopped");
	};
	const operations = [{ kind: "start", after: 0 }];
	e.activate();
	const results = [];
	const n = r.range(0, 6);
	let deactivated = false;
	for (let k = 0; k < n; k++) {
		for (let w = r.pick([0, 0, 1, 2, 5, 20]); w > 0; w--) await new Promise((z) => setImmediate(z));
		if (r.chance(1, 3)) {
			layer["air.executableStrategy"] = r.pick(["bundled", "path"]);
			layer["air.executablePath"] = path.join(e.dir, "mine/air");
		}
		const op = { kind: "restart", after: host.starts ?? 0, clients: host.clients.length };
		operations.push(op);
		e.say("restart", "after starts:", op.after);
		results.push(e.command("air.restart").then((x) => ((op.result = x), (op.clientsAtEnd = host.clients.length), x)));
		if (r.chance(1, 3)) await results.at(-1);
	}
	if (r.chance(1, 2)) {
		for (let w = r.pick([0, 0, 1, 2, 5, 20]); w > 0; w--) await new Promise((z) => setImmediate(z));
		operations.push({ kind: "stop" });
		e.say("deactivate");
		deactivated = true;
		e.extension.deactivate();
	}
	await Promise.all(results);
	await host.quiet();
	// One after the other, in the order in which they were asked for. A server that fails to stop is gone, and
	// the restart has failed; one that fails to start leaves none.
	let running = false;
	let starts = 0;
	let stops = 0;
	for (const o of operations) {
		o.ok = true;
		if (o.kind !== "start" && running) {
			running = false;
			o.ok = !stopFails(stops++);
		}
		if (o.kind !== "stop" && o.ok) running = o.ok = !fails(starts++);
	}
	const outcomes = operations.map((o) => o.ok);
	const shape = operations.map((o) => o.kind[0] + (o.kind === "start" ? "" : "")).join("") + outcomes.map((o) => (o ? "+" : "-")).join("") + host.events.filter((x) => /^st(art|op)/.test(x.kind)).map((x) => x.kind).join(",");
	m.eval(shape, operations.length > 1);
	m.count("histories");
	m.add("starts", host.starts ?? 0);
	m.add("failing starts", [...Array(starts).keys()].filter(fails).length);
	m.add("failing stops", [...Array(stops).keys()].filter(stopFails).length);
	m.max("servers running at a time", host.maxAlive);
	if (deactivated) m.count("deactivations");
	if (operations.some((o) => o.kind === "restart" && o.result && o.clientsAtEnd - o.clients > 1)) m.count("restarts that overlap");
	m.sample(() => ({ operations: operations.map((o) => o.kind), events: host.events.filter((x) => /^st(art|op)/.test(x.kind)).map((x) => `${x.kind} ${x.client}`) }));
	e.say("events", host.events.filter((x) => /^st(art|op)/.test(x.kind)).map((x) => `${x.kind}${x.client}`).join(" "));
	if ((host.starts ?? 0) !== starts) e.wrong("number-of-starts", `${host.starts} starts for ${starts} requests`);
	else {
		operations.filter((o) => o.kind === "restart").forEach((o, k) => {
			const ok = o.ok;
			if (ok === !!o.result.error) e.wrong("restart-result", `restart ${k} ${o.result.error ? `failed: ${o.result.error}` : "succeeded"}, it ${ok ? "succeeded" : "failed"}`);
			if (ok && o.clientsAtEnd <= o.clients) e.wrong("restart-is-fresh", "a restart ended without a server started after it was asked for");
		});
	}
	const expectRunning = running;
	const live = host.alive();
	if (expectRunning && live.length !== 1) e.wrong("not-running", `${live.length} servers run in the end`);
	if (!expectRunning && live.length) e.wrong("left-running", `${live.length} servers run in the end, after ${deactivated ? "deactivation" : "a failed start"}`);
	if (!deactivated) checkTerminal(e, f, "in the end");
	else if (host.pathMutations.size) e.wrong("terminal:left-behind:deactivated", "terminals have a PATH after deactivation");
}

// ---------------------------------------------------------------- documents and the two workspace commands
/** Every file below a directory: path to bytes. */
function snapshot(dir) {
	const out = new Map();
	const walk = (d) => {
		for (const x of fs.readdirSync(d, { withFileTypes: true })) {
			const p = path.join(d, x.name);
			if (x.isDirectory()) walk(p);
			else out.set(p, fs.readFileSync(p).toString("latin1"));
		}
	};
	if (exists(dir)) walk(dir);
	return out;
}

function under(folder, uri) {
	return uri.scheme === "file" && (uri.path === folder.uri.path || uri.path.startsWith(folder.uri.path + "/"));
}

/** Open documents in, beside and outside of the folders. */
function makeDocuments(e, folders, { trouble = true } = {}) {
	const { host, rng: r } = e;
	const n = r.below(7);
	for (let k = 0; k < n; k++) {
		const place = r.below(8);
		const dirty = r.chance(2, 3);
		const text = `x${k}<-${r.below(1000)}\n`;
		const onSave = trouble && r.chance(1, 12) ? r.pick(["refuses", "refuses", "throws"]) : "ok";
		if (place === 0) {
			host.documents.push(new TextDocument(host, Uri.from({ scheme: "untitled", path: r.pick([`Untitled-${k}`, path.join(r.pick(folders).uri.path, `new-${k}.R`)]) }), { text, dirty, untitled: true, onSave }));
			continue;
		}
		const f = r.pick(folders);
		const dir = place === 1 ? path.join(e.dir, "elsewhere") : place === 2 ? f.uri.path + r.pick(["2", "-old", ".bak", " R"]) : path.join(f.uri.path, r.pick(["", "R", "tests/testthat"]));
		const uri = Uri.file(path.join(dir, r.pick([`f${k}.R`, `f ${k}.R`, `f${k}.py`, `é${k}.R`])));
		e.put(uri.fsPath, dirty ? "old\n" : text);
		host.documents.push(new TextDocument(host, uri, { text, dirty, onSave, languageId: uri.path.endsWith("py") ? "python" : "r" }));
	}
}

/** A user who means `folder`, and answers yes or no when asked to save. */
function user(e, folder, { bail = false, save = "Yes", format = false } = {}) {
	return (q) => {
		if (q.kind === "folder") return bail ? undefined : folder;
		if (q.kind === "pick") {
			if (bail) return undefined;
			const folders = e.host.folders;
			const text = (i) => (typeof i === "string" ? i : [i.label, i.description, i.detail].filter(Boolean).join("\n"));
			const lines = (i) => text(i).split("\n").map((s) => s.trim());
			const p = folder.uri.fsPath;
			// recognizes it by its path, if the menu shows that; by its place among those of the same name otherwise
			const byPath = q.items.filter((i) => lines(i).includes(p));
			if (byPath.length === 1) return byPath[0];
			const byName = q.items.filter((i) => lines(i)[0] === folder.name);
			if (byName.length === 1) return byName[0];
			const same = folders.filter((f) => f.name === folder.name);
			return byName[same.indexOf(folder)] ?? q.items[folders.indexOf(folder)];
		}
		if (q.items.includes("Yes")) {
			const saving = /save/i.test(q.message);
			m.count(saving ? "questions whether to save" : "questions whether to see the log");
			return saving ? (save ?? undefined) : e.rng.pick(["Yes", "No", undefined]);
		}
		if (q.items.length && format) return q.items[0];
		return undefined;
	};
}

function plan(e, { single = 2 } = {}) {
	const { host, rng: r } = e;
	const n = r.chance(1, single) ? 1 : r.range(2, 4);
	host.folders = e.makeFolders(n);
	// folders may be given any name, also the same
	if (r.chance(1, 4)) host.folders.forEach((f) => (f.name = "same"));
	e.mkdirs(host.folders);
	return r.pick(host.folders);
}

/** What saving has to have done. Returns whether the command may go on. */
function checkSaving(e, folder, save, when) {
	const mine = e.host.documents.filter((d) => d.wasDirty && under(folder, d.uri));
	const all = mine.every((d) => d.onSave === "ok");
	for (const d of e.host.documents) {
		const inside = mine.includes(d);
		const name = rel(e, d.uri.fsPath);
		if (inside) m.count("unsaved documents of the folder");
		else if (d.wasDirty) m.count("unsaved documents elsewhere");
		if (d.saves && !inside) e.wrong(d.wasDirty ? `${when}:saves-a-document-elsewhere` : `${when}:saves-an-unchanged-document`, `saves ${name}, the folder is ${rel(e, folder.uri.fsPath)}`);
		if (d.saves && inside && save !== "Yes") e.wrong(`${when}:saves-against-the-answer`, `saves ${name} though the answer was ${save}`);
		if (!d.saves && inside && save === "Yes" && all) e.wrong(`${when}:leaves-a-document-unsaved`, `leaves ${name} unsaved`);
	}
	const asked = e.host.messages.some((q) => q.items.includes("Yes") && /save/i.test(q.message));
	if (asked && !mine.length) e.wrong(`${when}:asks-for-nothing`, "asks to save where there is nothing to save");
	return mine.length === 0 || (save === "Yes" && all);
}

async function e03(e) {
	const { host, rng: r } = e;
	const folder = plan(e);
	const exit = r.chance(1, 4) ? r.pick([1, 255, 2, "killed"]) : 0;
	const loud = r.chance(1, 10) ? r.pick([5000, 70000, 300000, 3000000]) : 0;
	e.program(e.bundled, exit, loud);
	const started = !r.chance(1, 12);
	host.startFails = () => !started;
	e.activate();
	await host.quiet();
	makeDocuments(e, host.folders);
	for (const d of host.documents) d.wasDirty = d.isDirty;
	const gone = started && r.chance(1, 12);
	if (gone) fs.rmSync(e.bundled);
	const save = r.pick(["Yes", "Yes", "Yes", "No", null]);
	const bail = host.folders.length > 1 && r.chance(1, 10);
	host.answer = user(e, folder, { bail, save });
	const mine = host.documents.filter((d) => d.wasDirty && under(folder, d.uri));
	e.put(path.join(e.dir, "watch"), mine.map((d) => d.uri.fsPath + "\n").join(""));
	e.say("folders", host.folders.map((f) => `${f.name}=${rel(e, f.uri.fsPath)}`), "chosen", rel(e, folder.uri.fsPath), "documents", host.documents.map((d) => `${rel(e, d.uri.toString())}${d.wasDirty ? " dirty" : ""}${d.onSave === "ok" ? "" : " " + d.onSave}`), "save", String(save), "exit", exit);
	const result = await e.command("air.workspaceFolderFormatting");
	await host.quiet();
	const calls = e.calls();
	e.say("calls", calls.map((c) => JSON.stringify(c).replaceAll(e.dir, "$DIR")), "messages", host.messages.map((q) => q.message));
	let go = !bail && started && checkSaving(e, folder, save, "format");
	if (bail || !started) {
		if (host.documents.some((d) => d.saves)) e.wrong("format:saves-for-nothing", "saves documents though nothing can be formatted");
	}
	m.eval(`format ${host.folders.length} ${mine.length} ${save} ${bail} ${started} ${exit} ${gone} ${host.documents.length}`, go);
	m.count(go ? "folders formatted" : "formatting not begun");
	m.sample(() => ({ folders: host.folders.map((f) => rel(e, f.uri.fsPath)), chosen: rel(e, folder.uri.fsPath), calls: calls.map((c) => c.args.map((a) => rel(e, a))) }));
	if (!go && calls.length) return e.wrong("format:without-saving", `runs air ${rel(e, JSON.stringify(calls[0].args))} although ${bail ? "no folder was chosen" : "not everything was saved"}`);
	if (!go) return;
	const said = host.messages.filter((q) => !(q.items.includes("Yes") && /save/i.test(q.message)));
	const good = said.some((q) => /success/i.test(q.message));
	const bad = said.some((q) => /error|fail/i.test(q.message));
	if (gone) {
		m.count("programs that are not there");
		if (good || !(bad || result.error)) e.wrong("format:silent-failure", "the program is not there and the user is not told");
		return;
	}
	if (calls.length !== 1) return e.wrong("format:number-of-runs", `air is run ${calls.length} times`);
	const [c] = calls;
	if (c.program !== e.bundled) e.wrong("format:wrong-program", `runs ${rel(e, c.program)}, the running server is ${rel(e, e.bundled)}`);
	const paths = c.args.slice(1).filter((a) => !a.startsWith("-")).map((a) => path.resolve(c.cwd, a));
	if (c.args[0] !== "format" || paths.length !== 1 || paths[0] !== folder.uri.fsPath) e.wrong("format:wrong-folder", `runs air ${rel(e, JSON.stringify(c.args))}, the folder chosen is ${rel(e, folder.uri.fsPath)}`);
	if (c.args.some((a) => /^--check|^--force/.test(a))) e.wrong("format:arguments", `runs air ${JSON.stringify(c.args)}`);
	const seen = exists(path.join(e.dir, "seen")) ? fs.readFileSync(path.join(e.dir, "seen"), "utf8") : "";
	const should = mine.map((d) => d.text + "\u0001\n").join("");
	if (seen !== should) e.wrong("format:before-saving", `air sees ${JSON.stringify(seen)} in the files, the editors have ${JSON.stringify(should)}`);
	if (exit === 0 ? !good || bad : good || !bad) e.wrong(exit === 0 ? "format:success-not-told" : "format:failure-not-told", `air ends with ${exit}, the user is told ${JSON.stringify(said.map((q) => q.message))}`);
	m.count(exit === 0 ? "formatting that succeeds" : exit === "killed" ? "runs ended by a signal" : "formatting that fails");
	if (loud) m.count("runs with much output");
}

function randomIgnore(r) {
	const own = ["^.*\\.Rproj$", "^\\.Rproj\\.user$", "^README\\.Rmd$", "", "# a comment", "^\\.vscode$", "^[.]?air[.]toml$", "^\\.vscode", "air.toml", "  ^[.]?air[.]toml$", "^été$"];
	const lines = [...Array(r.below(6))].map(() => r.pick(own));
	const nl = r.pick(["\n", "\n", "\r\n", "mixed"]);
	let s = lines.map((l, i) => l + (i === lines.length - 1 && r.chance(1, 3) ? "" : nl === "mixed" ? r.pick(["\n", "\r\n"]) : nl)).join("");
	let b = Buffer.from(s, "utf8");
	if (r.chance(1, 10)) b = Buffer.concat([Buffer.from([0x5e, 0xe9, 0x74, 0xe9, 0x24, 0x0a]), b]);
	if (r.chance(1, 16)) b = Buffer.concat([Buffer.from([0xef, 0xbb, 0xbf]), b]);
	return b;
}

const PATTERNS = ["^\\.vscode$", "^[.]?air[.]toml$"];

async function e02(e) {
	const { host, rng: r } = e;
	const folder = plan(e);
	e.program(e.bundled);
	for (const f of host.folders) {
		const at = (p) => path.join(f.uri.fsPath, p);
		if (r.chance(1, 3)) e.put(at("air.toml"), r.pick(["", "[format]\nline-width = 100\n"]));
		if (r.chance(1, 4)) e.put(at(".air.toml"), r.pick(["", "[format]\nindent-style = \"tab\"\n"]));
		if (r.chance(1, 3)) e.put(at(".vscode/extensions.json"), r.pick(["{}", '{"recommendations":["other.ext"]}\n', "not json"]));
		if (r.chance(1, 3)) e.put(at(".vscode/tasks.json"), "{}");
		if (r.chance(2, 3)) e.put(at(".Rbuildignore"), randomIgnore(r));
		e.put(at("R/a.R"), "1+1\n");
		const layer = host.folderLayer(f);
		const block = () => ({ ...(r.bool() ? { "editor.tabSize": r.range(1, 8) } : {}), ...(r.chance(1, 3) ? { "editor.formatOnSave": false } : {}), ...(r.chance(1, 3) ? { "editor.defaultFormatter": "someone.else" } : {}), ...(r.chance(1, 3) ? { "editor.rulers": [80, 120] } : {}) });
		if (r.bool()) layer["[r]"] = block();
		if (r.bool()) layer["[quarto]"] = block();
		if (r.bool()) layer["[python]"] = block();
		if (r.bool()) layer["editor.wordWrap"] = "on";
	}
	if (r.bool()) host.layers.global["[r]"] = { "editor.wordWrap": "on", "editor.tabSize": 3 };
	if (r.bool()) host.layers.global["[quarto]"] = { "editor.fontSize": 9 };
	if (r.chance(1, 3)) host.layers.workspace["[r]"] = { "editor.tabSize": 6 };
	e.activate();
	await host.quiet();
	makeDocuments(e, host.folders);
	for (const d of host.documents) d.wasDirty = d.isDirty;
	const save = r.pick(["Yes", "Yes", "Yes", "No", null]);
	const bail = host.folders.length > 1 && r.chance(1, 10);
	const format = r.chance(1, 8);
	host.answer = user(e, folder, { bail, save, format });
	const failing = r.chance(1, 6) ? r.below(5) : -1;
	let writes = 0;
	let failed = false;
	host.writeFails = () => (writes++ === failing ? (failed = true) : false);
	const root = path.join(e.dir, "ws");
	const before = snapshot(root);
	const settings = structuredClone([host.layers.global, host.layers.workspace, [...host.layers.folders]]);
	// what saving the documents writes is not the command's
	const saved = new Set();
	e.say("folders", host.folders.map((f) => `${f.name}=${rel(e, f.uri.fsPath)}`), "chosen", rel(e, folder.uri.fsPath), "documents", host.documents.map((d) => `${rel(e, d.uri.toString())}${d.wasDirty ? " dirty" : ""}${d.onSave === "ok" ? "" : " " + d.onSave}`), "save", String(save), "failing write", failing);
	await e.command("air.workspaceFolderInitialization");
	await host.quiet();
	for (const d of host.documents) if (d.saves && d.uri.scheme === "file") saved.add(d.uri.fsPath);
	const go = !bail && checkSaving(e, folder, save, "init");
	const after = snapshot(root);
	const at = (p) => path.join(folder.uri.fsPath, p);
	const toml = before.has(at("air.toml")) || before.has(at(".air.toml"));
	m.eval(`init ${host.folders.length} ${toml} ${before.has(at(".vscode/extensions.json"))} ${before.get(at(".Rbuildignore"))} ${JSON.stringify(settings[2])} ${failed} ${go}`, go);
	m.count(go ? "folders initialized" : "initializations not begun");
	if (failed) m.count("failing writes");
	m.sample(() => ({ chosen: rel(e, folder.uri.fsPath), before: [...before.keys()].map((p) => rel(e, p)), added: [...after.keys()].filter((p) => !before.has(p)).map((p) => rel(e, p)) }));
	// nothing is lost, nothing is touched but what the command is for
	const ignore = at(".Rbuildignore");
	const may = new Set(go ? [at("air.toml"), at(".vscode/extensions.json")] : []);
	for (const [p, data] of before) {
		if (saved.has(p)) continue;
		const now = after.get(p);
		if (now === data) continue;
		if (p === ignore && go) {
			if (now === undefined || !now.startsWith(data)) e.wrong("init:ignore-file-damaged", `.Rbuildignore was ${JSON.stringify(data)} and is ${JSON.stringify(now)}`);
			continue;
		}
		e.wrong(`init:file-changed:${path.basename(p)}`, `${rel(e, p)} was ${JSON.stringify(data)} and is ${JSON.stringify(now)}, the folder is ${rel(e, folder.uri.fsPath)}`);
	}
	for (const p of after.keys()) if (!before.has(p) && !saved.has(p) && !may.has(p)) e.wrong(`init:file-created:${path.basename(p)}`, `creates ${rel(e, p)}, the folder is ${rel(e, folder.uri.fsPath)}, ${go ? "initialized" : "not initialized"}`);
	const expect = structuredClone(settings);
	const mine = expect[2].find(([k]) => k === folder.uri.toString())?.[1] ?? {};
	const now = [host.layers.global, host.layers.workspace, [...host.layers.folders]];
	const set = (block, formatter) => {
		mine[block] = { ...(mine[block] ?? {}), "editor.formatOnSave": true, "editor.defaultFormatter": formatter };
	};
	const same = (a, b) => {
		const sort = (v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sort(v[k])])) : Array.isArray(v) ? v.map(sort) : v);
		return JSON.stringify(sort(a)) === JSON.stringify(sort(b));
	};
	if (failed) {
		// what is there was there before, or is what was to be set
		const blocks = ["[r]", "[quarto]"];
		const strip = (s) => s.map((x, i) => (i === 2 ? x.map(([k, v]) => [k, Object.fromEntries(Object.entries(v).filter(([b]) => !blocks.includes(b)))]) : x));
		if (!same(strip(now), strip(settings))) e.wrong("init:settings-damaged", `settings were ${JSON.stringify(settings)} and are ${JSON.stringify(now)}`);
		return;
	}
	if (!go) {
		if (!same(now, settings)) e.wrong("init:settings-changed-without-saving", `settings were ${JSON.stringify(settings)} and are ${JSON.stringify(now)}`);
		if (host.messages.some((q) => /success/i.test(q.message))) e.wrong("init:success-told", "tells of success without having done anything");
		return;
	}
	set("[r]", "Posit.air-vscode");
	set("[quarto]", "quarto.quarto");
	if (!same(now, expect)) e.wrong("init:settings", `settings were ${JSON.stringify(settings)}, should be ${JSON.stringify(expect)} and are ${JSON.stringify(now)}`);
	if (!toml && after.get(at("air.toml")) !== "") e.wrong("init:no-toml", `air.toml is ${JSON.stringify(after.get(at("air.toml")))}`);
	if (toml && !before.has(at("air.toml")) && after.has(at("air.toml"))) e.wrong("init:second-toml", "creates air.toml beside .air.toml");
	if (!before.has(at(".vscode/extensions.json"))) {
		let ok = false;
		try {
			ok = JSON.parse(after.get(at(".vscode/extensions.json"))).recommendations.includes("Posit.air-vscode");
		} catch {
			/* no */
		}
		if (!ok) e.wrong("init:extensions", `extensions.json is ${JSON.stringify(after.get(at(".vscode/extensions.json")))}`);
	}
	if (before.has(ignore) && !saved.has(ignore)) {
		const old = before.get(ignore);
		const text = after.get(ignore);
		const split = (s) => s.replace(/^\xef\xbb\xbf/, "").split(/\r\n|\n/);
		for (const p of PATTERNS) if (!split(text).includes(p)) e.wrong("init:pattern-missing", `.Rbuildignore is ${JSON.stringify(text)}, without ${p}`);
		const uniform = !(old.includes("\r\n") && /(^|[^\r])\n/.test(old));
		const added = text.slice(old.length);
		m.count(added ? "ignore files added to" : "ignore files left alone");
		if (uniform) {
			const nl = old.includes("\r\n") ? "\r\n" : "\n";
			const should = PATTERNS.filter((p) => !split(old).includes(p));
			const lines = (old.replace(/^\xef\xbb\xbf/, "") && !old.endsWith("\n") && should.length ? nl : "") + should.map((p) => p + nl).join("");
			if (added !== lines) e.wrong("init:ignore-additions", `to ${JSON.stringify(old)} is added ${JSON.stringify(added)}, should be ${JSON.stringify(lines)}`);
		}
	}
	const calls = e.calls();
	if (format && calls.length !== 1) e.wrong("init:no-formatting", `formatting was asked for, air is run ${calls.length} times`);
	if (!format && calls.length) e.wrong("init:formats-unasked", "formats without having been asked to");
	if (format && calls.length && !calls[0].args.includes(folder.uri.fsPath)) e.wrong("init:formats-another", `runs air ${rel(e, JSON.stringify(calls[0].args))}`);
	// once more: there is nothing left to do
	const files = snapshot(root);
	const kept = structuredClone([host.layers.global, host.layers.workspace, [...host.layers.folders]]);
	for (const d of host.documents) (d.wasDirty = d.isDirty), (d.saves = 0);
	host.answer = user(e, folder, { save: "Yes" });
	if (host.documents.some((d) => d.isDirty && under(folder, d.uri))) return;
	await e.command("air.workspaceFolderInitialization");
	await host.quiet();
	m.count("second initializations");
	if (!same([...snapshot(root)], [...files])) e.wrong("init:not-idempotent", `a second time changes files: ${JSON.stringify([...snapshot(root)].filter(([p, d]) => files.get(p) !== d).map(([p, d]) => [rel(e, p), d]))}`);
	if (!same([host.layers.global, host.layers.workspace, [...host.layers.folders]], kept)) e.wrong("init:not-idempotent:settings", "a second time changes settings");
}

// ---------------------------------------------------------------- settings to the editor and to the server
async function e04(e) {
	const { host, rng: r } = e;
	host.folders = r.chance(1, 6) ? undefined : e.makeFolders(r.range(1, 3));
	e.program(e.bundled);
	const languages = ["r", "r", "r", "python", "quarto"];
	const folders = host.folders ?? [{ uri: Uri.file(path.join(e.dir, "ws")) }];
	const docs = [];
	const names = ["a.R", "b c.R", "d#e.R", "f%20g.R", "été.R", "h[1].R", "i+j&k.R", "l;m=n.R", "(o).R", "p'q.R", "A.R"];
	for (let k = r.range(1, 6); k > 0; k--) {
		const kind = r.below(8);
		const uri =
			kind === 0 ? Uri.from({ scheme: "untitled", path: `Untitled-${k}` })
			: kind === 1 ? Uri.from({ scheme: "vscode-notebook-cell", path: path.join(r.pick(folders).uri.path, "n.ipynb"), fragment: `W${k}sZmlsZQ==` })
			: Uri.file(path.join(r.pick(folders).uri.path, r.pick(["", "R"]), r.pick(names)));
		if (docs.some((d) => d.uri.toString() === uri.toString())) continue;
		docs.push(new TextDocument(host, uri, { languageId: uri.scheme === "file" ? r.pick(languages) : "r", untitled: kind === 0 }));
	}
	host.documents = [...docs];
	const levels = [host.layers.global, host.layers.workspace, ...folders.map((f) => host.folderLayer(f))];
	const settings = () => {
		for (const l of levels) {
			for (const k of Object.keys(l)) delete l[k];
			const block = () => ({ ...(r.bool() ? { "editor.tabSize": r.range(1, 9) } : {}), ...(r.bool() ? { "editor.insertSpaces": r.bool() } : {}), ...(r.bool() ? { "editor.indentSize": r.pick(["tabSize", r.range(1, 9)]) } : {}) });
			if (r.bool()) Object.assign(l, block());
			for (const x of ["r", "python", "quarto"]) if (r.bool()) l[`[${x}]`] = block();
		}
		if (r.bool()) host.layers.global["air.syncFileSettingsWithClient"] = r.bool();
	};
	settings();
	e.activate();
	await host.quiet();
	let client = host.alive()[0];
	if (!client) return m.inconclusive("no server was started");
	const editors = docs.map((d) => new TextEditor(host, d, { tabSize: r.range(1, 9), indentSize: r.range(1, 9), insertSpaces: r.bool() }));
	host.editors = editors;
	let last = new Map();
	let notified = false;
	const show = (o) => JSON.stringify({ insertSpaces: o.insertSpaces, indentSize: o.indentSize, tabSize: o.tabSize });
	const expectations = new Map(editors.map((x) => [x, { ...x.options }]));
	const apply = (editor) => {
		const s = last.get(editor);
		if (!s) return;
		const now = expectations.get(editor);
		now.insertSpaces = s.indent_style === "space";
		now.indentSize = s.indent_width;
		now.tabSize = now.insertSpaces ? s.indent_width : (host.value("editor.tabSize", { uri: editor.document.uri, languageId: "r" }) ?? now.tabSize);
	};
	const check = (when) => {
		for (const x of editors) {
			const name = rel(e, x.document.uri.toString());
			m.eval(`editor ${when} ${x.document.uri.scheme} ${show(x.options)} ${x === host.activeEditor} ${last.has(x)}`, last.has(x));
			if (x === host.activeEditor && last.has(x)) m.count("active editors with settings");
			if (show(x.options) !== show(expectations.get(x))) {
				e.wrong(`editor:${x === host.activeEditor ? "active" : "background"}:${x.document.uri.scheme}`, `${when}: the editor of ${name} has ${show(x.options)}, should have ${show(expectations.get(x))}; the server's last word: ${JSON.stringify(last.get(x))}`);
				Object.assign(expectations.get(x), { ...x.options });
			}
			for (const k of ["cursorStyle", "lineNumbers"]) if (x.options[k] !== 1) e.wrong("editor:other-options", `the editor of ${name} lost ${k}`);
		}
	};
	for (let k = r.range(2, 8); k > 0; k--) {
		const op = r.below(6);
		if (op <= 1) {
			const some = r.some(editors, 2, 3);
			last = new Map(some.map((x) => [x, { indent_style: r.pick(["tab", "space"]), indent_width: r.range(1, 24), line_width: r.range(1, 320) }]));
			notified = true;
			const items = some.map((x) => ({ url: x.document.uri.toString(), format: last.get(x) }));
			if (r.chance(1, 3)) items.push({ url: `file://${e.dir}/ws/closed%20file.R`, format: { indent_style: "tab", indent_width: 7, line_width: 80 } });
			e.say("the server sends", items.map((i) => `${rel(e, i.url)} ${JSON.stringify(i.format)}`));
			if (host.activeEditor) apply(host.activeEditor);
			client.notify("air/syncFileSettings", { file_settings: r.shuffle(items) });
			await host.quiet();
			m.count("settings from the server");
			check("after the server's settings");
		} else if (op <= 3) {
			host.activeEditor = r.chance(1, 8) ? undefined : r.pick(editors);
			e.say("now active:", host.activeEditor ? rel(e, host.activeEditor.document.uri.toString()) : "nothing");
			if (host.activeEditor) apply(host.activeEditor);
			host.emit.editor.fire(host.activeEditor);
			await host.quiet();
			m.count("changes of the active editor");
			check("after the active editor changed");
		} else if (op === 4) {
			settings();
			if (r.chance(1, 3)) {
				e.say("restart");
				await e.command("air.restart");
				await host.quiet();
				client = host.alive()[0];
				if (!client) return m.inconclusive("no server after a restart");
			}
		} else {
			// the server asks for settings, of documents one of which may be closed by now
			const sections = ["editor.indentSize", "editor.insertSpaces", "editor.tabSize", "air.syncFileSettingsWithClient", "air.logLevel", "editor.nothing"];
			const items = [...Array(r.below(7))].map(() => ({ ...(r.chance(6, 7) ? { scopeUri: r.pick([...docs.map((d) => d.uri.toString()), `file://${e.dir}/ws/not-open.R`]) } : {}), ...(r.chance(9, 10) ? { section: r.pick(sections) } : {}) }));
			for (const d of docs) d.isClosed = r.chance(1, 10) && d !== host.activeEditor?.document;
			const fail = r.chance(1, 10) ? new ResponseError(-32603, "no") : undefined;
			const got = await client.configuration({ items }, fail);
			m.count("questions from the server");
			if (fail) {
				if (got !== fail) e.wrong("configuration:error", "an error is not passed on");
				continue;
			}
			if (!Array.isArray(got) || got.length !== items.length) {
				e.wrong("configuration:number", `${got?.length} answers to ${items.length} questions`);
				continue;
			}
			items.forEach((item, i) => {
				const uri = item.scopeUri ? Uri.parse(item.scopeUri) : undefined;
				const doc = uri && docs.find((d) => !d.isClosed && d.uri.toString() === uri.toString());
				const should = (item.section ? host.value(item.section, doc ? { uri, languageId: doc.languageId } : uri) : undefined) ?? null;
				const plain = (item.section ? host.value(item.section, uri) : undefined) ?? null;
				m.eval(`configuration ${item.section} ${doc?.languageId} ${JSON.stringify(should)} ${should === plain}`, !!doc);
				if (doc && JSON.stringify(should) !== JSON.stringify(plain)) m.count("answers that depend on the language");
				if (JSON.stringify(got[i] ?? null) !== JSON.stringify(should)) e.wrong(`configuration:${doc ? "open" : uri ? "closed" : "global"}`, `${item.section ?? "(no section)"} of ${rel(e, item.scopeUri)} (${doc?.languageId ?? "not open"}) is answered with ${JSON.stringify(got[i])}, should be ${JSON.stringify(should)}; without the language it is ${JSON.stringify(plain)}`);
			});
			for (const d of docs) d.isClosed = false;
		}
	}
	m.sample(() => ({ documents: docs.map((d) => rel(e, d.uri.toString())), last: [...last.values()] }));
}

// ---------------------------------------------------------------- the views of a file
async function e06(e) {
	const { host, rng: r } = e;
	host.folders = e.makeFolders(1);
	e.program(e.bundled);
	e.activate();
	await host.quiet();
	const docs = [...Array(r.range(1, 4)).keys()].map((k) => new TextDocument(host, r.chance(1, 6) ? Uri.from({ scheme: "untitled", path: `U-${k}` }) : Uri.file(path.join(host.folders[0].uri.path, `f${k}.R`)), { text: `${k}`, languageId: r.chance(1, 6) ? "python" : "r" }));
	// the server is told of an edit a little after the editor's own listeners
	for (const d of docs) d.known = d.version;
	host.documents = [...docs];
	const editors = docs.map((d) => new TextEditor(host, d, {}));
	editors.forEach((x) => {
		x.selection.active.line = r.below(9);
		x.selection.active.character = r.below(9);
	});
	host.editors = editors;
	// the server's view: of which document, of which kind, at which place, at which version
	host.serverAnswer = (_c, method, p) => {
		const d = docs.find((x) => x.uri.toString() === p.textDocument?.uri);
		return JSON.stringify([method, p.kind, d?.uri.toString(), d?.known, p.position?.line, p.position?.character]);
	};
	const kinds = { TreeSitter: ["air.viewTreeSitter", "air-tree-sitter"], SyntaxTree: ["air.viewSyntaxTree", "air-syntax-tree"], FormatTree: ["air.viewFormatTree", "air-format-tree"] };
	const open = new Set();
	let current; // the R document the views are of
	const isR = (x) => x && x.document.languageId === "r" && x.document.uri.scheme === "file";
	const should = (kind, x) => (isR(x) ? JSON.stringify(["air/viewFile", kind, x.document.uri.toString(), x.document.version, x.selection.active.line, x.selection.active.character]) : "");
	const settle = async () => {
		await new Promise((z) => setTimeout(z, 25));
		await host.quiet();
	};
	const check = (when) => {
		for (const kind of open) {
			const shown = host.documents.filter((d) => d.uri.scheme === kinds[kind][1]);
			m.eval(`view ${kind} ${when} ${!!current} ${open.size}`);
			m.count("views looked at");
			if (shown.length !== 1) e.wrong("view:number", `${shown.length} documents of ${kind}`);
			else if (shown[0].text !== should(kind, current)) e.wrong(`view:${when}`, `${kind} shows ${rel(e, shown[0].text)}, should show ${rel(e, should(kind, current))}`);
		}
	};
	for (let k = r.range(2, 6); k > 0; k--) {
		const op = r.below(4);
		if (op === 0) {
			const x = r.pick(editors);
			host.activeEditor = x;
			e.say("now active:", rel(e, x.document.uri.toString()), x.document.languageId);
			host.emit.editor.fire(x);
			await settle();
			if (isR(x)) {
				current = x;
				check("after the active editor changed");
			} else current = undefined;
			if (!isR(x)) open.clear(); // what the views show now is not said anywhere
		} else if (op === 1 && isR(host.activeEditor)) {
			const d = host.activeEditor.document;
			d.version += 1;
			host.emit.docChange.fire({ document: d, contentChanges: [] });
			setTimeout(() => (d.known = d.version), 3);
			await settle();
			check("after an edit");
		} else {
			const kind = r.pick(Object.keys(kinds));
			const all = r.chance(1, 4);
			current = isR(host.activeEditor) ? host.activeEditor : undefined;
			e.say(all ? "all views" : kind);
			const result = await e.command(all ? "air.viewFileRepresentations" : kinds[kind][0]);
			if (result.error) e.wrong("view:command", `fails: ${result.error}`);
			await settle();
			(all ? Object.keys(kinds) : [kind]).forEach((x) => open.add(x));
			check("after the command");
		}
	}
	if (r.chance(1, 2) && isR(host.activeEditor)) {
		const target = path.join(e.dir, "out.zip");
		const yes = r.chance(3, 4);
		host.answer = (q) => (q.kind === "save" && yes ? Uri.file(target) : undefined);
		current = host.activeEditor;
		await e.command("air.saveFileRepresentations");
		await settle();
		m.count("archives");
		if (!yes && host.zips.length) e.wrong("zip:unasked", "writes an archive though no file was chosen");
		if (yes) {
			const z = host.zips[0];
			if (host.zips.length !== 1 || z.path !== target) e.wrong("zip:where", `writes ${JSON.stringify(host.zips.map((x) => rel(e, x.path)))}`);
			else {
				const contents = z.entries.map((x) => x.data).sort();
				const expected = Object.keys(kinds).map((x) => should(x, current)).sort();
				if (JSON.stringify(contents) !== JSON.stringify(expected)) e.wrong("zip:contents", `has ${rel(e, JSON.stringify(contents))}, should have ${rel(e, JSON.stringify(expected))}`);
				if (new Set(z.entries.map((x) => x.name)).size !== z.entries.length) e.wrong("zip:names", `entries overwrite each other: ${z.entries.map((x) => x.name)}`);
			}
		}
	}
}

const REQUIRE = {
	E01: [["untrusted gives bundled", 5], ["environment gives environment", 5], ["environment gives bundled", 3], ["path gives path", 5], ["path gives none", 3], ["bundled gives environment", 3], ["terminals with air's directory", 20], ["terminals without", 20], ["steps after activation", 50]],
	E02: [["folders initialized", 30], ["initializations not begun", 10], ["ignore files added to", 20], ["second initializations", 20], ["failing writes", 5], ["unsaved documents elsewhere", 10]],
	E03: [["formatting that succeeds", 20], ["formatting that fails", 5], ["runs ended by a signal", 2], ["runs with much output", 5], ["formatting not begun", 10], ["unsaved documents of the folder", 20], ["unsaved documents elsewhere", 10]],
	E04: [["active editors with settings", 50], ["settings from the server", 50], ["changes of the active editor", 50], ["questions from the server", 50], ["answers that depend on the language", 20]],
	E05: [["histories", 50], ["starts", 100], ["failing starts", 20], ["deactivations", 20], ["failing stops", 5]],
	E06: [["views looked at", 50], ["archives", 5]],
};

async function main() {
	const prop = process.env.VK_PROP;
	const run = { E01: e01, E02: e02, E03: e03, E04: e04, E05: e05, E06: e06 }[prop];
	const one = async (seed) => {
		const e = new Episode(seed);
		try {
			await run(e);
			if (e.host.escaped.length) e.wrong("escape", `wants to write ${e.host.escaped}`);
			const thrown = EventEmitter.errors.filter((x) => !(x instanceof NotModelled));
			if (thrown.length) e.wrong("throws-in-a-handler", `${thrown[0]?.stack ?? thrown[0]}`);
			if (e.host.notModelled.size) m.inconclusive(`uses ${[...e.host.notModelled]}, which the model of VS Code lacks`);
		} catch (error) {
			if (error instanceof NotModelled || e.host.notModelled.size) m.inconclusive(`${error.message} ${[...e.host.notModelled]}`);
			else e.wrong("throws", error?.stack ?? error);
		} finally {
			e.close();
		}
	};
	if (m.replay) await one(BigInt(m.replay.episode));
	else for (let k = 0n; m.running(); k++) await one(BigInt.asUintN(64, m.base + k * 0x10001n));
	for (const [what, n] of REQUIRE[prop]) m.require(what, n);
	m.finish();
	process.exit(0);
}
main();
