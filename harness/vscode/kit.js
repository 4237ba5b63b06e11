"use strict";
// What vkit is for the Rust workloads: counts what the monitors saw, keeps violations, writes the record.
const fs = require("fs");
const crypto = require("crypto");

function hash64(s) {
	return crypto.createHash("sha256").update(s).digest().readBigUInt64LE(0);
}

class Rng {
	constructor(seed) {
		this.s = BigInt.asUintN(64, BigInt(seed));
	}
	next() {
		this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
		let z = this.s;
		z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
		z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
		return z ^ (z >> 31n);
	}
	below(n) {
		return Number(this.next() % BigInt(n));
	}
	range(a, b) {
		return a + this.below(b - a + 1);
	}
	chance(a, b) {
		return this.below(b) < a;
	}
	bool() {
		return this.chance(1, 2);
	}
	pick(xs) {
		return xs[this.below(xs.length)];
	}
	some(xs, a = 1, b = 2) {
		return xs.filter(() => this.chance(a, b));
	}
	shuffle(xs) {
		const r = [...xs];
		for (let i = r.length - 1; i > 0; i--) {
			const j = this.below(i + 1);
			[r[i], r[j]] = [r[j], r[i]];
		}
		return r;
	}
}

class Monitor {
	constructor(property) {
		const env = process.env;
		this.property = property;
		const shard = Number(env.VK_SHARD ?? "0");
		const seed = env.VERIF_SEED ?? "1";
		this.seed = seed;
		this.base = hash64(`${seed} ${shard} ${property}`);
		this.thorough = env.VERIF_TIER === "thorough";
		this.budget = Number(env.VK_BUDGET ?? "15") * 1000;
		this.start = Date.now();
		this.evaluations = 0;
		this.distinct = new Set();
		this.counters = {};
		this.maxima = new Set();
		this.samples = [];
		this.sampleAt = 1;
		this.violations = [];
		this.total = 0;
		this.keys = new Set();
		this.incon = [];
		this.notes = {};
		this.replay = null;
		if (env.VK_REPLAY) {
			const v = JSON.parse(fs.readFileSync(env.VK_REPLAY, "utf8"));
			this.replay = v.case ?? v;
		}
	}
	running() {
		return Date.now() - this.start < this.budget && this.violations.length < 25;
	}
	eval(shape, nontrivial = true) {
		this.evaluations += 1;
		if (nontrivial) this.distinct.add(hash64(shape));
	}
	add(what, n) {
		this.counters[what] = (this.counters[what] ?? 0) + n;
	}
	count(what) {
		this.add(what, 1);
	}
	max(what, n) {
		this.maxima.add(what);
		this.counters[what] = Math.max(this.counters[what] ?? 0, n);
	}
	sample(f) {
		if (this.evaluations >= this.sampleAt && this.samples.length < 12) {
			this.samples.push(f());
			this.sampleAt = this.evaluations * 3 + 1;
		}
	}
	violation(key, detail, kase) {
		this.total += 1;
		if (this.keys.has(key) || this.violations.length >= 200) return;
		this.keys.add(key);
		detail = String(detail).slice(0, 6000);
		console.error(`[${this.property}] violation ${key}: ${detail}`);
		this.violations.push({ key, detail, case: kase });
	}
	inconclusive(why) {
		if (this.incon.length < 50) this.incon.push(String(why).slice(0, 1500));
		this.count("inconclusive");
	}
	require(what, atLeast) {
		const n = this.counters[what] ?? 0;
		if (n < atLeast && !this.replay) {
			this.inconclusive(`observed only ${n} of \`${what}\`, needed ${atLeast}`);
			this.notes.starved = true;
		}
	}
	finish() {
		const out = process.env.VK_OUT;
		const record = {
			property: this.property,
			seed: this.seed,
			tier: this.thorough ? "thorough" : "quick",
			evaluations: this.evaluations,
			distinct_nontrivial: this.distinct.size,
			counters: this.counters,
			maxima: [...this.maxima],
			samples: this.samples,
			notes: this.notes,
			inconclusive: this.incon,
			violation_total: this.total,
			violations: this.violations,
			wall_s: (Date.now() - this.start) / 1000,
		};
		const text = JSON.stringify(record, null, 1);
		if (!out) return console.log(text);
		const b = Buffer.alloc(8 * this.distinct.size);
		let i = 0;
		for (const h of this.distinct) b.writeBigUInt64LE(h, 8 * i++);
		fs.writeFileSync(`${out}.distinct`, b);
		fs.writeFileSync(out, text);
	}
}

module.exports = { Monitor, Rng, hash64 };
