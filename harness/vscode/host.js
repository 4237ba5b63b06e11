"use strict";
// A model of the part of VS Code the extension talks to. Files are real ones, below the episode's
// scratch directory; everything else is state of this object, which the monitors read.
const fs = require("fs");
const path = require("path");
const util = require("util");

class NotModelled extends Error {}

// ---------------------------------------------------------------- URIs, as vscode-uri has them
function encodePart(s, keepSlash) {
	let out = "";
	for (const c of s) {
		if (/[A-Za-z0-9\-._~]/.test(c) || (keepSlash && c === "/")) out += c;
		else
			out += /[!'()*]/.test(c)
				? "%" + c.charCodeAt(0).toString(16).toUpperCase()
				: encodeURIComponent(c);
	}
	return out;
}
function decodePart(s) {
	// piecewise: what is no valid escape stays
	return s.replace(/(%[0-9A-Za-z][0-9A-Za-z])+/g, (m) => {
		try {
			return decodeURIComponent(m);
		} catch {
			return m;
		}
	});
}
class Uri {
	constructor(scheme, authority, p, query, fragment) {
		Object.assign(this, { scheme, authority, path: p, query, fragment });
	}
	static file(p) {
		if (p[0] !== "/") p = "/" + p;
		return new Uri("file", "", p, "", "");
	}
	static parse(value) {
		const m = /^(([^:/?#]+?):)?(\/\/([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?/s.exec(value);
		let p = decodePart(m[5] ?? "");
		const scheme = m[2] || "file";
		if ((scheme === "file" || scheme === "http" || scheme === "https") && p[0] !== "/") p = "/" + p;
		return new Uri(scheme, decodePart(m[4] ?? ""), p, decodePart(m[7] ?? ""), decodePart(m[9] ?? ""));
	}
	static from(c) {
		return new Uri(c.scheme, c.authority ?? "", c.path ?? "", c.query ?? "", c.fragment ?? "");
	}
	static joinPath(uri, ...parts) {
		return uri.with({ path: path.posix.join(uri.path, ...parts) });
	}
	with(c) {
		return new Uri(c.scheme ?? this.scheme, c.authority ?? this.authority, c.path ?? this.path, c.query ?? this.query, c.fragment ?? this.fragment);
	}
	get fsPath() {
		if (this.authority && this.path.length > 1 && this.scheme === "file") return `//${this.authority}${this.path}`;
		return this.path;
	}
	toString(skip = false) {
		const enc = skip ? (s) => s.replace(/[#?]/g, (c) => encodeURIComponent(c)) : encodePart;
		let r = `${this.scheme}:`;
		if (this.authority || this.scheme === "file") r += "//" + enc(this.authority);
		r += enc(this.path, true);
		if (this.query) r += "?" + enc(this.query, false);
		if (this.fragment) r += "#" + enc(this.fragment, false);
		return r;
	}
	toJSON() {
		return { $mid: 1, fsPath: this.fsPath, external: this.toString(), path: this.path, scheme: this.scheme };
	}
}

class Disposable {
	constructor(f) {
		this.f = f;
	}
	dispose() {
		this.f?.();
		this.f = undefined;
	}
	static from(...ds) {
		return new Disposable(() => ds.forEach((d) => d.dispose()));
	}
}

class EventEmitter {
	constructor() {
		this.listeners = new Set();
		this.event = (f, self, into) => {
			const l = { f, self };
			this.listeners.add(l);
			const d = new Disposable(() => this.listeners.delete(l));
			into?.push(d);
			return d;
		};
	}
	fire(e) {
		for (const l of [...this.listeners]) {
			try {
				l.f.call(l.self, e);
			} catch (error) {
				(EventEmitter.errors ??= []).push(error);
			}
		}
	}
	dispose() {
		this.listeners.clear();
	}
}

class Position {
	constructor(line, character) {
		Object.assign(this, { line, character });
	}
}
class Range {
	constructor(a, b, c, d) {
		[this.start, this.end] = typeof a === "number" ? [new Position(a, b), new Position(c, d)] : [a, b];
	}
}
class Selection extends Range {
	constructor(a, b, c, d) {
		super(a, b, c, d);
		this.anchor = this.start;
		this.active = this.end;
	}
}
class CancellationTokenSource {
	constructor() {
		this.token = { isCancellationRequested: false, onCancellationRequested: () => new Disposable() };
	}
	cancel() {}
	dispose() {}
}
class RelativePattern {
	constructor(base, pattern) {
		Object.assign(this, { base, pattern });
	}
}
class FileSystemError extends Error {
	static FileNotFound(u) {
		return Object.assign(new FileSystemError(`not found: ${u}`), { code: "FileNotFound" });
	}
}

/** What is missing here says so, instead of looking like the extension's mistake. */
function strict(name, object, host) {
	return new Proxy(object, {
		get(t, k) {
			if (k in t || typeof k === "symbol" || k === "then" || k === "toJSON") return t[k];
			host.notModelled.add(`${name}.${k}`);
			throw new NotModelled(`${name}.${k} is not modelled`);
		},
	});
}
function strictModule(name, object, host) {
	const quiet = new Set(["then", "default", "__esModule", "toJSON"]);
	Object.setPrototypeOf(
		object,
		new Proxy(Object.prototype, {
			get(t, k, r) {
				if (typeof k === "symbol" || k in t || quiet.has(k)) return Reflect.get(t, k, r);
				host.notModelled.add(`${name}.${k}`);
				throw new NotModelled(`${name}.${k} is not modelled`);
			},
		}),
	);
	return object;
}

class TextDocument {
	constructor(host, uri, { text = "", dirty = false, untitled = false, languageId = "r", onSave = "ok" } = {}) {
		Object.assign(this, { uri, text, isDirty: dirty, isUntitled: untitled, languageId, isClosed: false, version: 1, eol: 1 });
		Object.defineProperty(this, "host", { value: host });
		Object.defineProperty(this, "onSave", { value: onSave });
		Object.defineProperty(this, "saves", { value: 0, writable: true });
	}
	get fileName() {
		return this.uri.fsPath;
	}
	get lineCount() {
		return this.text.split("\n").length;
	}
	getText() {
		return this.text;
	}
	async save() {
		this.saves += 1;
		this.host.log("save", { uri: this.uri.toString() });
		await this.host.delay();
		if (this.onSave === "throws") throw new Error("save failed");
		if (this.onSave !== "ok") return false;
		if (this.uri.scheme === "file") this.host.putFile(this.uri.fsPath, this.text);
		this.isDirty = false;
		this.host.log("saved", { uri: this.uri.toString() });
		return true;
	}
}

class TextEditor {
	constructor(host, document, options) {
		Object.defineProperty(this, "host", { value: host });
		this.document = document;
		this.opts = { cursorStyle: 1, lineNumbers: 1, ...options };
		this.selection = new Selection(0, 0, 0, 0);
		this.assignments = 0;
	}
	get options() {
		return this.opts;
	}
	set options(o) {
		this.assignments += 1;
		// what is not named stays
		this.opts = { ...this.opts, ...o };
	}
}

// ---------------------------------------------------------------- the language client
const State = { Stopped: 1, Running: 2, Starting: 3, StartFailed: 4 };
class ResponseError extends Error {
	constructor(code, message, data) {
		super(message);
		Object.assign(this, { code, data });
	}
}
class MessageType {
	constructor(method) {
		this.method = method;
	}
}

class Host {
	/** `dir`: the episode's scratch directory. `answer(question)`: what the user does. */
	constructor(dir, rng, manifest) {
		this.dir = dir;
		this.rng = rng;
		this.manifest = manifest;
		this.events = [];
		this.notModelled = new Set();
		this.escaped = [];
		this.pending = 0;
		this.folders = undefined;
		this.documents = [];
		this.editors = [];
		this.activeEditor = undefined;
		this.trusted = true;
		this.layers = { global: {}, workspace: {}, folders: new Map() };
		this.pathMutations = new Map();
		this.clients = [];
		this.maxAlive = 0;
		/** @type {(n: number) => boolean} */
		this.startFails = () => false;
		this.stopFails = () => false;
		this.commands = new Map();
		this.messages = [];
		this.answer = () => undefined;
		this.writeFails = () => false;
		this.providers = new Map();
		this.onStart = () => {};
		this.zips = [];
		EventEmitter.errors = [];
		this.emit = {};
		for (const k of [
			"config", "editor", "visible", "folders", "trust", "docOpen", "docClose", "docChange", "docSave", "terminal",
			"willSave", "createFiles", "deleteFiles", "selection", "editorOptions", "tabs", "viewColumn", "windowState",
		]) this.emit[k] = new EventEmitter();
		this.modules = this.makeModules();
	}
	log(kind, what) {
		this.events.push({ kind, ...what });
	}
	/** Lets others run; how long is the schedule that is being tried. */
	async delay() {
		this.pending += 1;
		for (let n = this.rng.below(4); n > 0; n--) await new Promise((r) => setImmediate(r));
		this.pending -= 1;
	}
	inside(p) {
		const r = path.resolve(p);
		return r === this.dir || r.startsWith(this.dir + "/");
	}
	putFile(p, data) {
		if (!this.inside(p)) {
			this.escaped.push(p);
			throw new Error(`refused: ${p} is not in the scratch directory`);
		}
		fs.mkdirSync(path.dirname(p), { recursive: true });
		fs.writeFileSync(p, data);
	}
	// ------------------------------------------------------------ configuration
	folderOf(uri) {
		let best;
		for (const f of this.folders ?? []) {
			const p = f.uri.path.replace(/\/$/, "");
			if (f.uri.scheme === uri.scheme && (uri.path === p || uri.path.startsWith(p + "/")) && (!best || p.length > best.uri.path.length)) best = f;
		}
		return best;
	}
	folderLayer(folder) {
		const k = folder.uri.toString();
		if (!this.layers.folders.has(k)) this.layers.folders.set(k, {});
		return this.layers.folders.get(k);
	}
	defaults() {
		if (this.defaultLayer) return this.defaultLayer;
		const c = this.manifest.contributes;
		const out = { "editor.tabSize": 4, "editor.insertSpaces": true, "editor.indentSize": "tabSize", "editor.formatOnSave": false };
		for (const [k, v] of Object.entries(c.configuration?.properties ?? {})) out[k] = v.default;
		for (const [k, v] of Object.entries(c.configurationDefaults ?? {})) out[k] = v;
		return (this.defaultLayer = out);
	}
	/** The layers that apply to a place, the strongest first. */
	stack(scope) {
		const uri = scope instanceof Uri ? scope : scope?.uri;
		const folder = uri ? this.folderOf(uri) : this.folders?.length === 1 ? this.folders[0] : undefined;
		const single = (this.folders?.length ?? 0) === 1;
		const folderLayer = folder ? this.folderLayer(folder) : {};
		return {
			folder: folderLayer,
			// the settings of a window with one folder are those of the folder
			workspace: single ? this.folderLayer(this.folders[0]) : this.layers.workspace,
			global: this.layers.global,
			default: this.defaults(),
		};
	}
	allowed(key, layer) {
		const scope = this.manifest.contributes.configuration?.properties?.[key]?.scope;
		return !(scope === "application" && (layer === "folder" || layer === "workspace"));
	}
	/** The value of a setting at a place, for a language. */
	value(key, scope, languageId = scope?.languageId) {
		const s = this.stack(scope);
		const order = ["folder", "workspace", "global", "default"];
		if (languageId)
			for (const l of order) {
				const block = s[l][`[${languageId}]`];
				if (block && key in block && this.allowed(key, l)) return block[key];
			}
		if (/^\[.*\]$/.test(key)) {
			const merged = Object.assign({}, s.default[key], s.global[key], s.workspace[key], s.folder[key]);
			return order.some((l) => key in s[l]) ? merged : undefined;
		}
		for (const l of order) if (key in s[l] && s[l][key] !== undefined && this.allowed(key, l)) return s[l][key];
		// a section of several settings
		const out = {};
		let any = false;
		for (const l of [...order].reverse())
			for (const [k, v] of Object.entries(s[l]))
				if (k.startsWith(key + ".") && this.allowed(k, l)) {
					any = true;
					out[k.slice(key.length + 1)] = v;
				}
		return any ? out : undefined;
	}
	changed(keys) {
		this.emit.config.fire({
			affectsConfiguration: (section) => keys.some((k) => k === section || k.startsWith(section + ".") || section.startsWith(k + ".")),
		});
	}
	getConfiguration(section, scope) {
		const full = (k) => (section ? `${section}.${k}` : k);
		const host = this;
		return {
			get(key, other) {
				const v = host.value(full(key), scope);
				return v === undefined ? other : structuredClone(v);
			},
			has: (key) => host.value(full(key), scope) !== undefined,
			inspect(key) {
				const s = host.stack(scope);
				const k = full(key);
				const at = (l) => (host.allowed(k, l) ? structuredClone(s[l][k]) : undefined);
				const lang = scope?.languageId;
				const atLang = (l) => structuredClone(s[l][`[${lang}]`]?.[k]);
				return {
					key: k,
					defaultValue: at("default"), globalValue: at("global"), workspaceValue: at("workspace"), workspaceFolderValue: at("folder"),
					defaultLanguageValue: atLang("default"), globalLanguageValue: atLang("global"),
					workspaceLanguageValue: atLang("workspace"), workspaceFolderLanguageValue: atLang("folder"),
					languageIds: [],
				};
			},
			async update(key, value, target, overrideInLanguage) {
				await host.delay();
				const k = full(key);
				const s = host.stack(scope);
				const name = target === true || target === 1 ? "global" : target === false || target === 2 ? "workspace" : "folder";
				host.log("config", { key: k, target: name });
				if (host.writeFails("config")) throw new Error("could not write the settings");
				let layer = s[name];
				if (overrideInLanguage) {
					const b = `[${scope?.languageId}]`;
					layer = layer[b] ??= {};
				}
				if (value === undefined) delete layer[k];
				else layer[k] = structuredClone(value);
				host.changed([k]);
			},
		};
	}
	// ------------------------------------------------------------ the user
	async ask(kind, message, args) {
		let options = {};
		if (args.length && typeof args[0] === "object" && args[0] !== null && !("title" in args[0])) options = args.shift();
		const items = args;
		await this.delay();
		const q = { kind, message, items, options };
		const a = this.answer(q);
		this.messages.push({ kind, message, items: items.map((i) => i?.title ?? i), answer: a?.title ?? a, modal: !!options.modal });
		this.log("message", { message, answer: a });
		await this.delay();
		return a;
	}
	// ------------------------------------------------------------ servers
	alive() {
		return this.clients.filter((c) => c.alive);
	}
	makeClient() {
		const host = this;
		return class LanguageClient {
			constructor(id, name, serverOptions, clientOptions) {
				const run = serverOptions.run ?? serverOptions;
				Object.assign(this, { id, name, serverOptions: run, clientOptions, state: State.Stopped, alive: false, handlers: new Map(), requests: [] });
				this.command = run.command;
				this.args = run.args;
				this.stateChange = new EventEmitter();
				this.onDidChangeState = this.stateChange.event;
				this.number = host.clients.length;
				host.clients.push(this);
				this.code2ProtocolConverter = {
					asTextDocumentIdentifier: (d) => ({ uri: d.uri.toString() }),
					asPosition: (p) => ({ line: p.line, character: p.character }),
					asUri: (u) => u.toString(),
				};
				this.protocol2CodeConverter = { asUri: (s) => Uri.parse(s) };
			}
			get initializeResult() {
				return this.state === State.Running ? { capabilities: {} } : undefined;
			}
			onNotification(type, f) {
				this.handlers.set(type.method ?? type, f);
				return new Disposable(() => this.handlers.delete(type.method ?? type));
			}
			onRequest(type, f) {
				return this.onNotification(type, f);
			}
			isRunning() {
				return this.state === State.Running;
			}
			needsStart() {
				return this.state === State.Stopped || this.state === State.StartFailed;
			}
			needsStop() {
				return this.state === State.Running || this.state === State.Starting;
			}
			set(state) {
				this.state = state;
				this.stateChange.fire({ newState: state });
			}
			start() {
				if (this.state === State.Running || this.state === State.Starting) return this.starting;
				return (this.starting = this.reallyStart());
			}
			async reallyStart() {
				const n = (host.starts = (host.starts ?? 0) + 1) - 1;
				host.log("start", { client: this.number, command: this.command });
				host.onStart(this);
				this.set(State.Starting);
				this.alive = true;
				host.maxAlive = Math.max(host.maxAlive, host.alive().length);
				await host.delay();
				if (host.startFails(n) || !fs.existsSync(this.command)) {
					this.alive = false;
					this.set(State.StartFailed);
					host.log("start-failed", { client: this.number });
					throw new Error("Couldn't start client");
				}
				this.set(State.Running);
				host.log("started", { client: this.number });
			}
			async stop() {
				if (this.state === State.Stopped) return;
				if (this.state !== State.Running) throw new Error("Client is not running and can't be stopped.");
				const n = (host.stops = (host.stops ?? 0) + 1) - 1;
				host.log("stop", { client: this.number });
				await host.delay();
				// the program ends in any case, the client sees to that
				this.alive = false;
				this.set(State.Stopped);
				host.log("stopped", { client: this.number });
				if (host.stopFails(n)) throw new Error("Stopping the server timed out");
			}
			async restart() {
				await this.stop();
				await this.start();
			}
			async dispose() {
				if (this.state === State.Running) await this.stop();
			}
			async sendRequest(type, params) {
				if (this.state !== State.Running) throw new Error("Client is not running");
				this.requests.push({ method: type.method ?? type, params });
				await host.delay();
				return host.serverAnswer?.(this, type.method ?? type, params);
			}
			async sendNotification() {}
			/** As if the server had sent this. */
			notify(method, params) {
				this.handlers.get(method)?.(params);
			}
			/** As if the server had asked for this: the default implementation behind the extension's middleware. */
			async configuration(params, fail) {
				const token = new CancellationTokenSource().token;
				const next = async (p) => {
					await host.delay();
					if (fail) return fail;
					return p.items.map((item) => {
						const uri = item.scopeUri ? Uri.parse(item.scopeUri) : undefined;
						const v = item.section ? host.value(item.section, uri) : undefined;
						return v === undefined ? null : structuredClone(v);
					});
				};
				const m = this.clientOptions.middleware?.workspace?.configuration;
				return m ? await m(params, token, next) : await next(params);
			}
		};
	}
	// ------------------------------------------------------------ modules
	makeModules() {
		const host = this;
		const e = this.emit;
		const fileSystem = {
			async stat(uri) {
				await host.delay();
				try {
					const s = fs.statSync(uri.fsPath);
					return { type: s.isDirectory() ? 2 : 1, size: s.size, ctime: 0, mtime: s.mtimeMs };
				} catch {
					throw FileSystemError.FileNotFound(uri);
				}
			},
			async readFile(uri) {
				await host.delay();
				try {
					return new Uint8Array(fs.readFileSync(uri.fsPath));
				} catch {
					throw FileSystemError.FileNotFound(uri);
				}
			},
			async writeFile(uri, data) {
				await host.delay();
				host.log("write", { path: uri.fsPath });
				if (host.writeFails(uri.fsPath)) throw new FileSystemError("no space left");
				host.putFile(uri.fsPath, data);
			},
			async createDirectory(uri) {
				await host.delay();
				if (!host.inside(uri.fsPath)) return void host.escaped.push(uri.fsPath);
				fs.mkdirSync(uri.fsPath, { recursive: true });
			},
			async readDirectory(uri) {
				await host.delay();
				return fs.readdirSync(uri.fsPath, { withFileTypes: true }).map((d) => [d.name, d.isDirectory() ? 2 : 1]);
			},
			async delete(uri) {
				host.log("delete", { path: uri.fsPath });
				if (!host.inside(uri.fsPath)) return void host.escaped.push(uri.fsPath);
				fs.rmSync(uri.fsPath, { recursive: true });
			},
			async rename(a, b) {
				if (!host.inside(a.fsPath) || !host.inside(b.fsPath)) return void host.escaped.push(b.fsPath);
				fs.renameSync(a.fsPath, b.fsPath);
			},
			async copy(a, b) {
				host.putFile(b.fsPath, fs.readFileSync(a.fsPath));
			},
			isWritableFileSystem: () => true,
		};
		const find = (uri) => host.documents.find((d) => !d.isClosed && d.uri.toString() === uri.toString());
		const workspace = strict("workspace", {
			get isTrusted() {
				return host.trusted;
			},
			get workspaceFolders() {
				return host.folders;
			},
			get rootPath() {
				return host.folders?.[0]?.uri.fsPath;
			},
			get name() {
				return host.folders?.[0]?.name;
			},
			get workspaceFile() {
				return (host.folders?.length ?? 0) > 1 ? Uri.file(path.join(host.dir, "x.code-workspace")) : undefined;
			},
			get textDocuments() {
				return host.documents.filter((d) => !d.isClosed);
			},
			get notebookDocuments() {
				return [];
			},
			fs: strict("workspace.fs", fileSystem, host),
			getConfiguration: (s, scope) => host.getConfiguration(s, scope ?? undefined),
			getWorkspaceFolder: (uri) => host.folderOf(uri),
			asRelativePath: (u, withName) => {
				const uri = u instanceof Uri ? u : Uri.file(u);
				const f = host.folderOf(uri);
				if (!f) return uri.fsPath;
				const r = path.relative(f.uri.fsPath, uri.fsPath);
				return (withName ?? host.folders.length > 1) ? `${f.name}/${r}` : r;
			},
			async saveAll(untitled) {
				let all = true;
				for (const d of host.documents) if (!d.isClosed && d.isDirty && (untitled || !d.isUntitled)) all = (await d.save()) && all;
				return all;
			},
			async save(uri) {
				const d = find(uri);
				return d && (await d.save()) ? uri : undefined;
			},
			async openTextDocument(what) {
				await host.delay();
				const uri = what instanceof Uri ? what : typeof what === "string" ? Uri.file(what) : Uri.parse("untitled:New");
				const open = find(uri);
				if (open) return open;
				let text = "";
				const provider = host.providers.get(uri.scheme);
				if (provider) {
					// later contents come when it says that they have changed
					text = (await provider.provideTextDocumentContent(uri, new CancellationTokenSource().token)) ?? "";
				} else if (uri.scheme === "file") text = fs.readFileSync(uri.fsPath, "utf8");
				const d = new TextDocument(host, uri, { text, languageId: provider ? "plaintext" : "r" });
				host.documents.push(d);
				host.emit.docOpen.fire(d);
				return d;
			},
			registerTextDocumentContentProvider(scheme, p) {
				host.providers.set(scheme, p);
				p.onDidChange?.(async (uri) => {
					host.log("content-changed", { uri: uri.toString() });
					const d = find(uri);
					if (!d) return;
					try {
						d.text = (await p.provideTextDocumentContent(uri, new CancellationTokenSource().token)) ?? "";
					} catch (error) {
						host.log("content-failed", { uri: uri.toString(), error: String(error) });
					}
				});
				return new Disposable(() => host.providers.delete(scheme));
			},
			async findFiles() {
				throw new NotModelled("findFiles");
			},
			onDidChangeConfiguration: e.config.event,
			onDidChangeWorkspaceFolders: e.folders.event,
			onDidGrantWorkspaceTrust: e.trust.event,
			onDidOpenTextDocument: e.docOpen.event,
			onDidCloseTextDocument: e.docClose.event,
			onDidChangeTextDocument: e.docChange.event,
			onDidSaveTextDocument: e.docSave.event,
			onWillSaveTextDocument: e.willSave.event,
			onDidCreateFiles: e.createFiles.event,
			onDidDeleteFiles: e.deleteFiles.event,
		}, host);
		const channel = (name) => ({
			name, lines: [], shown: 0,
			append() {}, appendLine(l) { host.log("output", { line: String(l) }); }, replace() {}, clear() {},
			show() { host.outputShown = (host.outputShown ?? 0) + 1; }, hide() {}, dispose() {},
			info(...a) { this.appendLine(util.format(...a)); }, warn(...a) { this.appendLine(util.format(...a)); },
			error(...a) { this.appendLine(util.format(...a)); }, debug() {}, trace() {}, logLevel: 3, onDidChangeLogLevel: e.windowState.event,
		});
		const window = strict("window", {
			get activeTextEditor() {
				return host.activeEditor;
			},
			get visibleTextEditors() {
				return host.editors;
			},
			get visibleNotebookEditors() {
				return [];
			},
			showInformationMessage: (m, ...a) => host.ask("information", m, a),
			showWarningMessage: (m, ...a) => host.ask("warning", m, a),
			showErrorMessage: (m, ...a) => host.ask("error", m, a),
			async showQuickPick(items, options) {
				items = await items;
				await host.delay();
				const a = host.answer({ kind: "pick", items, options: options ?? {} });
				host.log("pick", { items: items.map((i) => i.label ?? i), answer: a?.label ?? a });
				await host.delay();
				return options?.canPickMany && a !== undefined ? [a] : a;
			},
			async showWorkspaceFolderPick(options) {
				await host.delay();
				return host.answer({ kind: "folder", items: host.folders, options: options ?? {} });
			},
			async showInputBox(options) {
				return host.answer({ kind: "input", items: [], options });
			},
			async showSaveDialog(options) {
				await host.delay();
				return host.answer({ kind: "save", items: [], options });
			},
			async showTextDocument(d) {
				await host.delay();
				host.log("show", { uri: (d.uri ?? d).toString() });
				return new TextEditor(host, d, {});
			},
			createOutputChannel: (name) => channel(name),
			setStatusBarMessage: () => new Disposable(),
			createStatusBarItem: () => ({ show() {}, hide() {}, dispose() {} }),
			withProgress: (_o, f) => f({ report() {} }, new CancellationTokenSource().token),
			onDidChangeActiveTextEditor: e.editor.event,
			onDidChangeVisibleTextEditors: e.visible.event,
			onDidChangeTextEditorSelection: e.selection.event,
			onDidChangeTextEditorOptions: e.editorOptions.event,
			onDidChangeTextEditorViewColumn: e.viewColumn.event,
			onDidChangeWindowState: e.windowState.event,
			onDidOpenTerminal: e.terminal.event,
			tabGroups: { all: [], onDidChangeTabs: e.tabs.event },
			terminals: [],
		}, host);
		const commands = strict("commands", {
			registerCommand(name, f, self) {
				host.commands.set(name, f.bind(self));
				return new Disposable(() => host.commands.delete(name));
			},
			async executeCommand(name, ...args) {
				if (["setContext", "vscode.open", "workbench.action.reloadWindow"].includes(name)) return undefined;
				const f = host.commands.get(name);
				if (!f) throw new Error(`command '${name}' not found`);
				return await f(...args);
			},
			getCommands: async () => [...host.commands.keys()],
		}, host);
		const vscode = strictModule("vscode", {
			Uri, Disposable, EventEmitter, Position, Range, Selection, CancellationTokenSource, RelativePattern, FileSystemError,
			FileType: { Unknown: 0, File: 1, Directory: 2, SymbolicLink: 64 },
			ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
			ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2, Three: 3 },
			ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 },
			StatusBarAlignment: { Left: 1, Right: 2 },
			EndOfLine: { LF: 1, CRLF: 2 },
			LogLevel: { Off: 0, Trace: 1, Debug: 2, Info: 3, Warning: 4, Error: 5 },
			EnvironmentVariableMutatorType: { Replace: 1, Append: 2, Prepend: 3 },
			version: "1.90.0",
			env: { appName: "Visual Studio Code", language: "en", machineId: "x", shell: "/bin/sh", uiKind: 1, remoteName: undefined },
			extensions: { getExtension: () => undefined, all: [] },
			languages: { match: () => 0, createDiagnosticCollection: () => ({ dispose() {} }) },
			workspace, window, commands,
		}, host);
		const lc = strictModule("vscode-languageclient", {
			LanguageClient: this.makeClient(), State, ResponseError, NotificationType: MessageType, NotificationType0: MessageType,
			RequestType: MessageType, RequestType0: MessageType, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
			RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 }, Trace: { Off: 0, Messages: 1, Compact: 2, Verbose: 3 },
			CloseAction: { DoNotRestart: 1, Restart: 2 }, ErrorAction: { Continue: 1, Shutdown: 2 },
		}, host);
		class PQueue {
			constructor({ concurrency = Infinity } = {}) {
				this.concurrency = concurrency;
				this.queue = [];
				this.running = 0;
				this.idle = [];
			}
			get size() {
				return this.queue.length;
			}
			get pending() {
				return this.running;
			}
			add(f) {
				return new Promise((resolve, reject) => {
					this.queue.push({ f, resolve, reject });
					this.pump();
				});
			}
			addAll(fs) {
				return Promise.all(fs.map((f) => this.add(f)));
			}
			pump() {
				while (this.running < this.concurrency && this.queue.length) {
					const { f, resolve, reject } = this.queue.shift();
					this.running += 1;
					(async () => f())().then(resolve, reject).finally(() => {
						this.running -= 1;
						this.pump();
						if (!this.running && !this.queue.length) this.idle.splice(0).forEach((r) => r());
					});
				}
			}
			onIdle() {
				return !this.running && !this.queue.length ? Promise.resolve() : new Promise((r) => this.idle.push(r));
			}
			onEmpty() {
				return this.onIdle();
			}
			clear() {
				this.queue.length = 0;
			}
		}
		const which = async (name, o = {}) => {
			await host.delay();
			return which.sync(name, o);
		};
		which.sync = (name, o = {}) => {
			const found = [];
			for (const d of (o.path ?? process.env.PATH ?? "").split(":")) {
				const p = path.join(d, name);
				try {
					fs.accessSync(p, fs.constants.X_OK);
					if (fs.statSync(p).isFile()) found.push(p);
				} catch {
					/* not here */
				}
			}
			if (!found.length && !o.nothrow) throw Object.assign(new Error(`not found: ${name}`), { code: "ENOENT" });
			return o.all ? (found.length ? found : null) : (found[0] ?? null);
		};
		const exists = (p) => fs.existsSync(p);
		class AdmZip {
			constructor() {
				this.entries = [];
			}
			addFile(name, data) {
				this.entries.push({ name, data: Buffer.from(data).toString("utf8") });
			}
			writeZip(p) {
				host.zips.push({ path: p, entries: this.entries });
			}
		}
		return {
			vscode,
			"vscode-languageclient/node": lc,
			"vscode-languageclient": lc,
			"p-queue": { __esModule: true, default: PQueue },
			which,
			"fs-extra": { ...fs, pathExists: async (p) => (await host.delay(), exists(p)), pathExistsSync: exists },
			"adm-zip": AdmZip,
		};
	}
	/** The context the extension is activated with. */
	context() {
		const host = this;
		const put = (type) => (name, value, options = {}) => {
			host.log("path", { type, name, value });
			host.pathMutations.set(name, { type, value, options });
		};
		const collection = {
			persistent: true,
			description: undefined,
			prepend: put("prepend"), append: put("append"), replace: put("replace"),
			get: (name) => host.pathMutations.get(name),
			delete(name) {
				host.pathMutations.delete(name);
			},
			clear() {
				host.pathMutations.clear();
			},
			forEach(f) {
				host.pathMutations.forEach((v, k) => f(k, v, collection));
			},
			getScoped: () => collection,
			[Symbol.iterator]: () => host.pathMutations[Symbol.iterator](),
		};
		this.collection = collection;
		const memento = () => ({ keys: () => [], get: (_k, d) => d, update: async () => {} });
		return (this.extensionContext = {
			subscriptions: [],
			extensionPath: path.join(this.dir, "ext"),
			extensionUri: Uri.file(path.join(this.dir, "ext")),
			asAbsolutePath: (p) => path.join(this.dir, "ext", p),
			environmentVariableCollection: collection,
			globalState: memento(), workspaceState: memento(),
			extensionMode: 1,
		});
	}
	/** Until nothing is under way any more. */
	async quiet() {
		for (let still = 0; still < 12; ) {
			await new Promise((r) => setImmediate(r));
			const busy = this.pending > 0 || process.getActiveResourcesInfo().some((r) => /^FSReq|^Timeout$|ProcessWrap/.test(r));
			still = busy ? 0 : still + 1;
		}
	}
}

module.exports = { Host, Uri, TextDocument, TextEditor, EventEmitter, NotModelled, ResponseError };
