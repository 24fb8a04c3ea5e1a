#!/usr/bin/env node
// C16: the JavaScript class of /repo over a stub native library in a checked linear memory, under seeded histories of several objects
// and failing native calls. One seed is one exactly repeatable run.
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm"), cp = require("child_process"), crypto = require("crypto");
const V = path.dirname(path.dirname(fs.realpathSync(__filename)));
const REPO = process.env.VERIF_REPO || "/repo";
const SRC = REPO + "/libvoikko/js/libvoikko_api.js";
const B = V + "/build/js";

// ---------------------------------------------------------------- randomness
class Rng {
	constructor(text) { this.s = crypto.createHash("sha256").update(text).digest(); this.a = this.s.readUInt32LE(0) | 0; this.b = this.s.readUInt32LE(4) | 0; this.c = this.s.readUInt32LE(8) | 0; this.d = 1; }
	next() { // sfc32
		const t = (this.a + this.b + this.d) | 0;
		this.d = (this.d + 1) | 0; this.a = this.b ^ (this.b >>> 9); this.b = (this.c + (this.c << 3)) | 0;
		this.c = (this.c << 21) | (this.c >>> 11); this.c = (this.c + t) | 0;
		return t >>> 0;
	}
	below(n) { return this.next() % n; }
	pick(a) { return a[this.below(a.length)]; }
	chance(p) { return this.next() / 4294967296 < p; }
}

// ---------------------------------------------------------------- what the native library answers
const mix = (h, v) => { h = Math.imul(h ^ v, 16777619); return (h ^ (h >>> 13)) >>> 0; };
function state(h) {
	let x = 2166136261;
	for (const c of h.lang + "|" + h.path) x = mix(x, c.codePointAt(0));
	for (const o of h.options) x = mix(x, o);
	return x;
}
function hash(h, f, ...args) {
	let x = mix(state(h), f);
	for (const a of args) { for (const c of String(a)) x = mix(x, c.codePointAt(0)); x = mix(x, 31); }
	return x;
}
const N = {
	newHandle: (lang, p) => ({ lang: lang, path: p === null ? "(null)" : p, options: new Array(32).fill(0) }),
	refuses: (lang) => lang.startsWith("xx"),
	setBoolean: (h, o, v) => { if (![0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16].includes(o)) return 0; h.options[o] = v ? 1 : 0; return 1; },
	setInteger: (h, o, v) => { if ((o != 9 && o != 17) || v < 0) return 0; h.options[o] = v; return 1; },
	spell: (h, w) => hash(h, 1, w) % 4 % 3, // 2 and 3 are the codes for failures
	suggest: (h, w) => { const x = hash(h, 2, w), r = []; for (let i = 0; i < x % 4; i++) r.push(w.slice(0, 50) + "ä" + i + "-" + x); return r; },
	attributes: (h, n) => ["CLASS", "NUMBER"].includes(n) ? [n + "_ä", n + "2-" + state(h)].slice(state(h) % 3) : null,
	pattern: (h, w) => { let x = hash(h, 4, w), s = ""; for (const c of w) { x = mix(x, 1); s += x % 3 ? " " : "-"; } return s; },
	hyphenate: (h, w, sep, ctx) => { let x = mix(hash(h, 5, w), ctx), s = ""; for (const c of w) { x = mix(x, 1); if (s && x % 3 == 0) s += sep; s += c; } return s; },
	errors: (h, p) => { const x = hash(h, 3, p), r = []; for (let k = 0; p && k < x % 4; k++) { const y = mix(x, k); r.push({ code: 1 + y % 18, pos: k, len: 1 + (y >>> 8) % 3, sugg: (y >>> 16) % 3 ? ["ehdotus ö" + y, "toinen"].slice(0, (y >>> 16) % 3) : null }); } return r; },
	description: (code, lang) => code % 6 == 0 ? "" : "selitys " + lang + " ä" + code,
	analyze: (h, w) => { const x = hash(h, 6, w), r = []; for (let i = 0; i < x % 3; i++) { const a = {}; ["CLASS", "STRUCTURE", "BASEFORM", "WEIGHT"].slice(0, mix(x, i) % 5).forEach((k, j) => { a[k] = mix(x, i * 8 + j) % 6 ? w.slice(0, 50) + "=" + i + "." + j : ""; }); r.push(a); } return r; },
	// the first token or sentence of a text: [type, characters]
	token: (h, t) => {
		const cs = Array.from(t), cls = (c) => " \n\t".includes(c) ? 3 : ".,-".includes(c) ? 2 : c > "\u2000" ? 4 : 1;
		if (!cs.length) return [0, 0];
		const c = cls(cs[0]); let i = 1;
		if (c == 1 || c == 3) while (i < cs.length && cls(cs[i]) == c) i++;
		return [c, i];
	},
	sentence: (h, t) => {
		const cs = Array.from(t); let i = 0;
		while (i < cs.length && cs[i] != ".") i++;
		while (i < cs.length && ". ".includes(cs[i])) i++;
		return i >= cs.length ? [0, cs.length] : [1 + hash(h, 7, t) % 3, i];
	},
};

// ---------------------------------------------------------------- the native side in a checked linear memory
class Hang extends Error {}
class Native {
	constructor(faults, sticky) {
		this.mem = new Uint8Array(1 << 16); this.dv = new DataView(this.mem.buffer);
		this.top = 64; this.blocks = []; this.byAddr = new Map(); this.calls = 0; this.steps = 0; this.faults = new Set(faults); this.sticky = sticky; this.broken = -1; this.fired = []; this.op = 0; this.faultedOps = new Set();
		this.violation = null; this.trace = crypto.createHash("sha1");
		this.stack = [];
	}
	bad(m) { if (!this.violation) this.violation = m; }
	alloc(n, kind, owner) {
		if (this.top + n + 64 > this.mem.length) { const m = new Uint8Array(this.mem.length * 2); m.set(this.mem); this.mem = m; this.dv = new DataView(m.buffer); }
		const b = { addr: this.top, n: n, kind: kind, owner: owner || null, freed: false, op: this.op };
		for (let i = 0; i < n; i++) this.mem[this.top + i] = 0xA5;
		this.top += (n + 15 & ~7) + 8;
		this.blocks.push(b); this.byAddr.set(b.addr, b);
		return b;
	}
	kill(b) { b.freed = true; this.mem.fill(0xDD, b.addr, b.addr + b.n); for (const x of this.blocks) if (x.owner === b && !x.freed) this.kill(x); }
	at(a, n, what) { // blocks are sorted by address
		let lo = 0, hi = this.blocks.length - 1;
		while (lo <= hi) { const m = lo + hi >> 1, b = this.blocks[m]; if (a < b.addr) hi = m - 1; else if (a >= b.addr + b.n) lo = m + 1; else {
			if (b.freed) { this.bad(what + " of a freed " + b.kind); return null; }
			if (a + n > b.addr + b.n) { this.bad(what + " past the end of a " + b.kind); return null; }
			return b;
		} }
		this.bad(what + (a ? " outside every block" : " at address 0"));
		return null;
	}
	live(f, a, kind) {
		if (!a) { this.bad(f + " called with a null pointer"); return null; }
		const b = this.byAddr.get(a);
		if (!b) { this.bad(f + " called with a pointer that the native library did not return"); return null; }
		if (b.kind != kind) { this.bad(f + " called with a " + b.kind + " where a " + kind + " is wanted"); return null; }
		if (b.freed) { this.bad(f + " called with a " + (kind == "handle" ? "terminated handle" : "freed " + kind)); return null; }
		return b;
	}
	release(f, a, kind) { if (!a) return; const b = this.live(f, a, kind); if (b) this.kill(b); }
	str(s, kind, owner) { const e = Buffer.from(s, "utf8"); const b = this.alloc(e.length + 1, kind, owner); this.mem.set(e, b.addr); this.mem[b.addr + e.length] = 0; return b.addr; }
	arr(list, kind, owner) {
		const b = this.alloc(4 * (list.length + 1), kind, owner);
		list.forEach((s, i) => { const p = typeof s == "string" ? this.str(s, "part of a result", b) : s(b); this.dv.setUint32(b.addr + 4 * i, p, true); });
		this.dv.setUint32(b.addr + 4 * list.length, 0, true);
		return b.addr;
	}
	read(a, what) { // a C string
		if (!this.at(a, 1, what)) return "";
		const b = this.at(a, 1, what); let e = a;
		while (e < b.addr + b.n && this.mem[e]) e++;
		if (e == b.addr + b.n) this.bad(what + " of a string without an end");
		return Buffer.from(this.mem.subarray(a, e)).toString("utf8");
	}
	// a native call: counts, may fail
	enter(f) {
		if (++this.calls > 20000) throw new Hang();
		this.trace.update(f + ";");
		return f;
	}
	// fails at the chosen calls; a sticky failure lasts to the end of the operation
	faulty(f) { if (!this.faults.has(this.calls) && this.broken != this.op) return false; this.fired.push(f); if (this.sticky) this.broken = this.op; this.faultedOps.add(this.op); return true; }
	handle(f, a) { this.enter(f); const b = this.live(f, a, "handle"); return b ? b.h : null; }
	text(f, a, n) { // length-delimited text; 0 when it is not UTF-8
		if (n < 0 || !this.at(a, n, f + " reads")) return null;
		const s = this.mem.subarray(a, a + n);
		try { return new TextDecoder("utf-8", { fatal: true }).decode(s).split("\0")[0]; } catch (e) { return null; }
	}
	exports() {
		const self = this, n = this;
		const word = (f, p) => n.read(p, f + " reads");
		return {
			voikkoInit(err, lang, p) {
				const f = n.enter("voikkoInit"), l = word(f, lang), q = p ? word(f, p) : null;
				const e = n.at(err, 4, "voikkoInit writes");
				if (n.faulty(f) || N.refuses(l)) { if (e) n.dv.setUint32(err, n.literal, true); return 0; }
				if (e) n.dv.setUint32(err, 0, true);
				const b = n.alloc(4, "handle"); b.h = N.newHandle(l, q); return b.addr;
			},
			voikkoTerminate(h) { const f = n.enter("voikkoTerminate"), b = n.live(f, h, "handle"); if (b) n.kill(b); },
			voikkoSetBooleanOption(h, o, v) { const x = n.handle("voikkoSetBooleanOption", h); return !x || n.faulty("voikkoSetBooleanOption") ? 0 : N.setBoolean(x, o, v); },
			voikkoSetIntegerOption(h, o, v) { const x = n.handle("voikkoSetIntegerOption", h); return !x || n.faulty("voikkoSetIntegerOption") ? 0 : N.setInteger(x, o, v); },
			voikkoSpellCstr(h, w) { const f = "voikkoSpellCstr", x = n.handle(f, h), s = word(f, w); return !x ? 0 : n.faulty(f) ? 3 : N.spell(x, s); },
			voikkoSuggestCstr(h, w) { const f = "voikkoSuggestCstr", x = n.handle(f, h), s = word(f, w); if (!x || n.faulty(f)) return 0; const r = N.suggest(x, s); return r.length || hash(x, 9, s) % 2 ? n.arr(r, "string array") : 0; },
			voikkoGetAttributeValues(h, w) { const f = "voikkoGetAttributeValues", x = n.handle(f, h), s = word(f, w); if (!x || n.faulty(f)) return 0; const r = N.attributes(x, s); return r ? n.arr(r, "string array") : 0; },
			voikkoHyphenateCstr(h, w) { const f = "voikkoHyphenateCstr", x = n.handle(f, h), s = word(f, w); return !x || n.faulty(f) ? 0 : n.str(N.pattern(x, s), "string"); },
			voikkoInsertHyphensCstr(h, w, sep, ctx) { const f = "voikkoInsertHyphensCstr", x = n.handle(f, h), s = word(f, w), p = word(f, sep); return !x || n.faulty(f) ? 0 : n.str(N.hyphenate(x, s, p, ctx ? 1 : 0), "string"); },
			voikkoFreeCstrArray(a) { n.enter("voikkoFreeCstrArray"); n.release("voikkoFreeCstrArray", a, "string array"); },
			voikkoFreeCstr(a) { n.enter("voikkoFreeCstr"); n.release("voikkoFreeCstr", a, "string"); },
			voikkoNextTokenCstr(h, t, len, out) {
				const f = "voikkoNextTokenCstr", x = n.handle(f, h), o = n.at(out, 4, f + " writes"), s = n.text(f, t, len);
				if (!x || !o) return 0;
				n.dv.setUint32(out, 0, true); // as the library does
				if (s === null || n.faulty(f)) return 0;
				const r = N.token(x, s); n.dv.setUint32(out, r[1], true); return r[0];
			},
			voikkoNextSentenceStartCstr(h, t, len, out) { // leaves the length alone when it fails, as the library does
				const f = "voikkoNextSentenceStartCstr", x = n.handle(f, h), o = n.at(out, 4, f + " writes"), s = n.text(f, t, len);
				if (!x || !o || s === null || n.faulty(f)) return 0;
				const r = N.sentence(x, s); n.dv.setUint32(out, r[1], true); return r[0];
			},
			voikkoNextGrammarErrorCstr(h, p, len, start, skip) {
				const f = "voikkoNextGrammarErrorCstr", x = n.handle(f, h), s = n.text(f, p, len);
				if (!x || s === null || n.faulty(f)) return 0;
				const r = N.errors(x, s).filter((e) => e.pos >= start)[skip];
				if (!r) return 0;
				const b = n.alloc(4, "grammar error"); b.e = r;
				b.sugg = r.sugg ? n.arr(r.sugg, "part of a result", b) : 0;
				return b.addr;
			},
			voikkoGetGrammarErrorCode(e) { const b = n.live(n.enter("voikkoGetGrammarErrorCode"), e, "grammar error"); return b ? b.e.code : 0; },
			voikkoGetGrammarErrorStartPos(e) { const b = n.live(n.enter("voikkoGetGrammarErrorStartPos"), e, "grammar error"); return b ? b.e.pos : 0; },
			voikkoGetGrammarErrorLength(e) { const b = n.live(n.enter("voikkoGetGrammarErrorLength"), e, "grammar error"); return b ? b.e.len : 0; },
			voikkoGetGrammarErrorSuggestions(e) { const b = n.live(n.enter("voikkoGetGrammarErrorSuggestions"), e, "grammar error"); return b ? b.sugg : 0; },
			voikkoFreeGrammarError(e) { n.enter("voikkoFreeGrammarError"); n.release("voikkoFreeGrammarError", e, "grammar error"); },
			voikkoGetGrammarErrorShortDescription(e, lang) { const f = n.enter("voikkoGetGrammarErrorShortDescription"), b = n.live(f, e, "grammar error"), l = lang ? word(f, lang) : "null"; return !b || n.faulty(f) ? 0 : n.str(N.description(b.e.code, l), "error message"); },
			voikkoFreeErrorMessageCstr(a) { n.enter("voikkoFreeErrorMessageCstr"); n.release("voikkoFreeErrorMessageCstr", a, "error message"); },
			voikkoAnalyzeWordCstr(h, w) {
				const f = "voikkoAnalyzeWordCstr", x = n.handle(f, h), s = word(f, w); if (!x || n.faulty(f)) return 0;
				return n.arr(N.analyze(x, s).map((a) => (owner) => { const b = n.alloc(4, "analysis", owner); b.a = a; b.keys = n.arr(Object.keys(a), "part of a result", b); b.keyAt = new Map(); Object.keys(a).forEach((k, i) => b.keyAt.set(n.dv.getUint32(b.keys + 4 * i, true), k)); return b.addr; }), "analyses");
			},
			voikko_free_mor_analysis(a) { n.enter("voikko_free_mor_analysis"); n.release("voikko_free_mor_analysis", a, "analyses"); },
			voikko_mor_analysis_keys(a) { const b = n.live(n.enter("voikko_mor_analysis_keys"), a, "analysis"); return b ? b.keys : 0; },
			voikko_mor_analysis_value_cstr(a, k) { const f = n.enter("voikko_mor_analysis_value_cstr"), b = n.live(f, a, "analysis"), key = word(f, k); return !b || !(key in b.a) || n.faulty(f) ? 0 : n.str(b.a[key], "value string"); },
			voikko_free_mor_analysis_value_cstr(a) { n.enter("voikko_free_mor_analysis_value_cstr"); n.release("voikko_free_mor_analysis_value_cstr", a, "value string"); },
			voikkoGetVersion() { n.enter("voikkoGetVersion"); return n.literal; },
		};
	}
	// what Emscripten puts around a --post-js file
	scope(Module) {
		const n = this, X = this.exports();
		this.literal = this.str("literal virhe ä", "literal"); this.byAddr.get(this.literal).op = -1;
		const UTF8ToString = (p, max) => { if (!p) return ""; let s = n.read(p, "read"); return max === undefined ? s : Buffer.from(s).subarray(0, max).toString(); };
		const lengthBytesUTF8 = (s) => Buffer.byteLength(String(s), "utf8");
		const stringToUTF8 = (s, p, max) => { if (!(max > 0)) return 0; let e = Buffer.from(String(s), "utf8"); if (e.length > max - 1) e = e.subarray(0, max - 1); if (n.at(p, e.length + 1, "write")) { n.mem.set(e, p); n.mem[p + e.length] = 0; } return e.length; };
		const size = (t) => t.endsWith("*") ? 4 : { i1: 1, i8: 1, i16: 2, i32: 4, i64: 8, float: 4, double: 8 }[t || "i8"];
		const getValue = (p, t) => { t = t || "i8"; if (!n.at(p, size(t), "read")) return 0; return t.endsWith("*") ? n.dv.getUint32(p, true) : t == "i32" ? n.dv.getInt32(p, true) : t == "i16" ? n.dv.getInt16(p, true) : n.dv.getInt8(p); };
		const setValue = (p, v, t) => { t = t || "i8"; if (!n.at(p, size(t), "write")) return; if (size(t) == 4) n.dv.setUint32(p, v >>> 0, true); else if (size(t) == 2) n.dv.setUint16(p, v & 65535, true); else n.dv.setUint8(p, v & 255); };
		const ccall = (name, ret, types, args) => {
			const f = X[name.replace(/^_/, "")];
			if (!f) throw new Error("native function " + name + " is not there");
			const tmp = [], a = (args || []).map((v, i) => {
				if (types && types[i] == "string") { if (v === null || v === undefined || v === 0) return 0; const p = n.str(String(v), "call argument"); tmp.push(n.byAddr.get(p)); return p; }
				return typeof v == "boolean" ? +v : v === null || v === undefined ? 0 : v >> 0 === v ? v : Number(v) || 0;
			});
			const r = f(...a);
			tmp.forEach((b) => n.kill(b));
			return ret == "string" ? UTF8ToString(r) : ret == "boolean" ? Boolean(r) : r;
		};
		const s = {
			Module, cwrap: (name, ret, types) => (...args) => ccall(name, ret, types, args), ccall, getValue, setValue, UTF8ToString, stringToUTF8, lengthBytesUTF8,
			_malloc: (k) => n.alloc(Math.max(1, k), "malloc block").addr, _free: (p) => n.release("free", p, "malloc block"),
		};
		for (const k in X) s["_" + k] = X[k];
		Object.assign(Module, { cwrap: s.cwrap, ccall, getValue, setValue, UTF8ToString, stringToUTF8, lengthBytesUTF8, _malloc: s._malloc, _free: s._free });
		return s;
	}
}

// ---------------------------------------------------------------- cases
const WORDS = ["koira", "kissa", "a", "yö", "auto-onnettomuus", "CLASS", "NUMBER", "ääni", "x\0y", "", "pitkä sana", "a\nb", "Koira juoksee.\nKissa ei. Hauva on.", "\u20ac5 \u20ac", "s\u{1f600}t ä", "\u{1f600}", "yksi. \u{1f600}\u{1f601} kaksi. kolme", "k".repeat(300), "ä".repeat(130), "a. b. c.", "\0", "s\0t u\0", "Ei. On. Voi\0 Se. Me", "\n\n", "a\r\nb. C", "yksi, kaksi - kolme."];
const BOOLS = { setIgnoreDot: 0, setIgnoreNumbers: 1, setIgnoreUppercase: 3, setNoUglyHyphenation: 4, setAcceptFirstUppercase: 6, setAcceptAllUppercase: 7, setIgnoreNonwords: 10, setAcceptExtraHyphens: 11, setAcceptMissingHyphens: 12, setAcceptTitlesInGc: 13, setAcceptUnfinishedParagraphsInGc: 14, setHyphenateUnknownWords: 15, setAcceptBulletedListsInGc: 16 };
const METHODS = ["spell", "suggest", "attributeValues", "grammarErrors", "analyze", "tokens", "sentences", "getHyphenationPattern", "hyphenate", "bool", "int", "strategy", "terminate", "new"];
function generate(seed) {
	const r = new Rng("C16 " + seed), c = { seed: seed, sticky: r.chance(.5), faults: [], ops: [] };
	const slots = 1 + r.below(4), n = 1 + r.below(24), noTerm = r.chance(.3);
	for (let i = 0; i < slots; i++) if (i == 0 || r.chance(.8)) c.ops.push([i, "new", [r.pick(["fi", "fi", "se", "xx", "fi-x-medicine"]), r.pick([null, null, "/polku", "/p ä"])]]);
	for (let i = 0; i < n; i++) {
		let m = r.pick(METHODS), a = [r.pick(WORDS)];
		if (m == "terminate" && (noTerm || r.chance(.3))) m = "spell";
		if (m == "new") a = [r.pick(["fi", "se", "xx", "fi"]), r.pick([null, "/polku"])];
		else if (m == "grammarErrors") a.push(r.pick(["fi", "en", "se"]));
		else if (m == "hyphenate") { if (r.chance(.7)) a.push(r.pick(["-", "\u00ad", "&shy;", "", "a\0"])); if (a.length > 1 && r.chance(.6)) a.push(r.chance(.5)); }
		else if (m == "bool") a = [r.pick(Object.keys(BOOLS)), r.chance(.5)];
		else if (m == "int") a = [r.pick([-1, 0, 1, 2, 3, 5, 100])];
		else if (m == "strategy") a = [r.pick(["TYPO", "OCR", "MUU"])];
		else if (m == "terminate") a = [];
		c.ops.push([r.below(slots), m, a]);
	}
	if (r.chance(.6)) for (let i = 1 + r.below(5); i > 0; i--) c.faults.push(1 + r.below(4 * c.ops.length + 4));
	c.faults = [...new Set(c.faults)].sort((a, b) => a - b);
	return c;
}
const text = (c) => "property C16\nparam tool javascript\nseed " + c.seed + "\n" + (c.sticky ? "param sticky yes\n" : "") + c.faults.map((f) => "fault native-call-fails " + f + "\n").join("") + c.ops.map((o) => "op " + JSON.stringify(o) + "\n").join("");
function parse(t) {
	const c = { seed: 0, sticky: false, faults: [], ops: [] };
	for (const l of t.split("\n")) {
		if (l.startsWith("seed ")) c.seed = +l.slice(5);
		else if (l == "param sticky yes") c.sticky = true;
		else if (l.startsWith("fault native-call-fails ")) c.faults.push(+l.split(" ")[2]);
		else if (l.startsWith("op ")) c.ops.push(JSON.parse(l.slice(3)));
	}
	return c;
}

// ---------------------------------------------------------------- what the user must see
const first = (t, n) => Array.from(t).slice(0, n).join("");
const tokenNames = ["NONE", "WORD", "PUNCTUATION", "WHITESPACE", "UNKNOWN"], sentenceNames = ["NONE", "NO_START", "PROBABLE", "POSSIBLE"];
function wanted(h, m, a) {
	const bad = a.some((x) => typeof x == "string" && x.includes("\0")), w = a[0];
	switch (m) {
		case "spell": return !bad && N.spell(h, w) == 1;
		case "suggest": return bad ? [] : N.suggest(h, w);
		case "attributeValues": return bad ? null : N.attributes(h, w);
		case "analyze": return bad ? [] : N.analyze(h, w);
		case "getHyphenationPattern": return bad ? " ".repeat(w.length) : N.pattern(h, w);
		case "hyphenate": return bad ? w : N.hyphenate(h, w, a.length > 1 ? a[1] : "-", a.length > 2 ? (a[2] ? 1 : 0) : 1);
		case "grammarErrors": {
			if (bad) return [];
			const r = []; let offset = 0;
			for (const p of w.replace(/\r/g, "\n").split("\n")) {
				for (const e of N.errors(h, p)) r.push({ errorCode: e.code, startPos: offset + e.pos, errorLen: e.len, suggestions: e.sugg || [], shortDescription: N.description(e.code, a[1]) });
				offset += p.length + 1;
			}
			return r;
		}
		case "tokens": {
			const r = []; let rest = w;
			while (rest) {
				if (rest[0] == "\0") { r.push({ type: "UNKNOWN", text: "\0" }); rest = rest.slice(1); continue; }
				const t = N.token(h, rest.split("\0")[0]), x = first(rest, t[1]); r.push({ type: tokenNames[t[0]], text: x }); rest = rest.slice(x.length);
			}
			return r;
		}
		case "sentences": {
			if (bad) return [{ text: w, nextStartType: "NONE" }];
			const r = []; let rest = w;
			while (rest) { const t = N.sentence(h, rest), x = first(rest, t[1]); r.push({ text: x, nextStartType: sentenceNames[t[0]] }); rest = rest.slice(x.length); }
			return r;
		}
	}
}
// key order does not matter, everything else does
const canon = (v) => JSON.stringify(v === undefined ? "undefined" : v, (k, x) => x && typeof x == "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort((p, q) => p[0] < q[0] ? -1 : 1)) : x);

let script = null, ctx = null, body = null, clean = null, call = null;
function fresh(names) { // a context of our own gives a time limit for loops that make no native call
	ctx = vm.createContext({ cell: {}, console: { log() {}, warn() {}, error() {} } });
	body = new vm.Script("cell.load = function(" + names.join(",") + ") {\n" + script + "\n}");
	call = new vm.Script("cell.f()");
	clean = new Set(Object.getOwnPropertyNames(vm.runInContext("globalThis", ctx)));
}
function run(c) {
	if (!script) script = fs.readFileSync(SRC, "utf8");
	const n = new Native(c.faults, c.sticky), Module = {}, slots = {}, note = [];
	let loaded = 0, dead = 0, live = 0;
	Module.onLoad = (m) => { if (m === Module) loaded++; };
	const s = n.scope(Module), names = Object.keys(s);
	const result = (v) => ({ violation: v || null, calls: n.calls, fired: n.fired, trace: n.trace.digest("hex"), dead, notes: note });
	if (!ctx) fresh(names);
	const global = vm.runInContext("globalThis", ctx);
	for (const k of Object.getOwnPropertyNames(global)) if (!clean.has(k)) delete global[k]; // nothing passes from run to run
	body.runInContext(ctx);
	const invoke = (f) => { ctx.cell.f = f; return call.runInContext(ctx, { timeout: 10000 }); };
	invoke(() => ctx.cell.load(...names.map((k) => s[k])));
	if (typeof Module.onRuntimeInitialized == "function") Module.onRuntimeInitialized();
	if (loaded != 1) return result("onLoad was not called with the module");
	for (let k = 0; k < c.ops.length; k++) {
		const [slot, m, a] = c.ops[k];
		let o = slots[slot];
		if (m != "new" && !o) continue;
		n.op = k;
		const before = n.calls;
		let got, threw = null, hang = false, want, mustThrow = false;
		const was = o && o.dead;
		try {
			got = invoke(() => {
				switch (m) {
					case "new": return a[1] === null ? Module.init(a[0]) : Module.init(a[0], a[1]);
					case "bool": return o.v[a[0]](a[1]);
					case "int": return o.v.setMinHyphenatedWordLength(a[0]);
					case "strategy": return o.v.setSuggestionStrategy(a[0]);
					default: return o.v[m](...a);
				}
			});
		} catch (e) { if (e instanceof Hang || (e && e.code == "ERR_SCRIPT_EXECUTION_TIMEOUT")) hang = true; else threw = e === undefined ? "undefined" : e; }
		if (n.violation) return result(n.violation + " (" + m + ")");
		const faulted = n.faultedOps.has(k);
		if (hang || n.calls - before > 5000) return result(m + " does not end" + (faulted ? " after a native failure" : ""));
		note.push(m + " " + (threw !== null ? "throws" : canon(got).slice(0, 200)));
		if (m == "new") {
			if (o && !o.dead) { o.dropped = true; (slots.old = slots.old || []).push(o); }
			if (threw === null) {
				if (faulted || N.refuses(a[0])) return result("init returned although the native library refused");
				slots[slot] = { v: got, h: N.newHandle(a[0], a[1]), dead: false }; live++;
			} else {
				if (!faulted && !N.refuses(a[0])) return result("init throws " + String(threw));
				if (String(threw && threw.message || threw).indexOf("literal virhe ä") < 0) return result("init does not pass on the native error message");
				delete slots[slot];
			}
		} else if (m == "terminate") {
			if (threw !== null) return result("terminate throws " + String(threw));
			if (!o.dead) { o.dead = true; live--; dead++; }
		} else if (was) {
			if (threw === null) return result(m + " after terminate does not throw");
		} else {
			if (m == "bool" || m == "int" || m == "strategy") {
				const h = { options: o.h.options.slice(), lang: o.h.lang, path: o.h.path };
				const ok = m == "bool" ? N.setBoolean(h, BOOLS[a[0]], a[1]) : m == "int" ? N.setInteger(h, 9, a[0]) : a[0] == "MUU" ? 0 : N.setBoolean(h, 8, a[0] == "OCR");
				if (faulted || !ok) { if (threw === null) return result("a refused option does not throw"); }
				else { if (threw !== null) return result("option throws " + String(threw)); o.h = h; }
			} else if (!faulted) {
				if (threw !== null) return result(m + " throws " + String(threw && threw.message || threw));
				want = wanted(o.h, m, a);
				if (canon(got) != canon(want)) return result(m + " gives " + canon(got).slice(0, 160) + " instead of " + canon(want).slice(0, 160));
			}
		}
		// nothing of the call may stay behind
		for (const b of n.blocks) if (!b.freed && b.op == k && b.kind != "handle" && b.kind != "literal" && !b.owner) return result("a " + b.kind + " is not freed by " + m + (faulted ? " after a native failure" : ""));
	}
	let handles = 0;
	for (const b of n.blocks) if (b.kind == "handle" && !b.freed) handles++;
	if (handles != live) return result("open native handles: " + handles + ", live objects: " + live);
	return result(null);
}

// ---------------------------------------------------------------- search
const kind = (v) => v ? v.replace(/ gives .*/, " gives another answer").replace(/throws .*/, "throws").replace(/[0-9]+/g, "N") : null;
function shrink(c, v) {
	const end = Date.now() + 10000;
	for (let again = true; again && Date.now() < end;) {
		again = false;
		for (const key of ["faults", "ops"]) for (let size = Math.max(1, c[key].length >> 1); size; size >>= 1) for (let i = 0; i + size <= c[key].length && Date.now() < end;) {
			const d = { seed: c.seed, sticky: c.sticky, faults: c.faults.slice(), ops: c.ops.slice() };
			d[key].splice(i, size);
			const r = run(d).violation;
			if (r && kind(r) == kind(v)) { c = d; v = r; again = true; } else i++;
		}
	}
	return [c, v];
}
function worker(seed, w, n, until, file) {
	const t = { runs: 0, with_faults: 0, calls: 0, replayed: 0, terminated: 0, distinct: 0, fired: {}, sample: "", violation: null, replay: null, error: null };
	const seen = new Set();
	for (let i = w; Date.now() < until; i += n) {
		const c = generate(seed * 1000003 + i), r = run(c);
		t.runs++; t.calls += r.calls; t.terminated += r.dead;
		if (r.fired.length) t.with_faults++;
		for (const f of r.fired) t.fired[f] = (t.fired[f] || 0) + 1;
		if (r.fired.length || r.dead) seen.add(r.trace);
		if (!t.sample && r.fired.length && r.dead) t.sample = text(c);
		if (t.runs % 50 == 0 || r.violation) {
			const q = run(c); t.replayed++;
			if (JSON.stringify(q) != JSON.stringify(r)) { t.error = "seed " + c.seed + " is not repeatable"; break; }
		}
		if (r.violation) { const [d, v] = shrink(c, r.violation); t.violation = v; t.replay = text(d); break; }
	}
	t.distinct = seen.size;
	fs.writeFileSync(file, JSON.stringify(t));
}
const opt = (name, def) => { const i = process.argv.indexOf(name); return i < 0 ? def : process.argv[i + 1]; };
async function check() {
	const seed = +opt("--seed", "1"), budget = +opt("--budget", "45"), tier = opt("--tier", "quick"), ev = opt("--evidence", V + "/evidence/C16.json");
	fs.mkdirSync(B, { recursive: true });
	const begin = Date.now(), n = Math.max(1, Math.min(8, require("os").cpus().length)), jobs = [];
	for (let w = 0; w < n; w++) {
		const file = B + "/r" + w + ".json";
		fs.rmSync(file, { force: true });
		jobs.push(new Promise((done) => cp.spawn(process.execPath, [__filename, "worker", seed, w, n, begin + budget * 1000, file].map(String), { stdio: "inherit" }).on("exit", () => done(fs.existsSync(file) ? JSON.parse(fs.readFileSync(file)) : null))));
	}
	const parts = (await Promise.all(jobs)).filter((x) => x), wall = (Date.now() - begin) / 1000;
	const T = (k) => parts.reduce((a, x) => a + x[k], 0), bad = parts.filter((x) => x.violation), err = parts.filter((x) => x.error).map((x) => x.error);
	const fired = {};
	for (const x of parts) for (const k in x.fired) fired[k] = (fired[k] || 0) + x.fired[k];
	fs.writeFileSync(ev, JSON.stringify({ property: "C16", tier, seed, level: "exploration", wall_s: +wall.toFixed(1), violations: bad.length ? 1 : 0, coverage: {
		evaluations: T("runs"), distinct_nontrivial: T("distinct"),
		rule: "each run: a seeded history of calls on up to four objects with up to three failing native calls, every answer compared with the stub's answer function applied to the object's own options; non-trivial: an object was terminated or a native call failed; distinct by the sequence of native calls",
		samples: parts.map((x) => x.sample).filter((x) => x).slice(0, 2), simulated_runs_per_hour: Math.round(T("runs") / wall * 3600), seeds_per_hour: Math.round(T("runs") / wall * 3600),
		native_calls: T("calls"), simulated_time: "the code has no clock; simulated time is counted in native calls", runs_with_injected_faults: T("with_faults"), faults_injected: fired, objects_terminated: T("terminated"), runs_repeated_and_found_identical: T("replayed"),
		components: "real: libvoikko/js/libvoikko_api.js in a V8 context of its own per run. stub: the native library, its linear memory (every access checked) and the Emscripten functions around the file" } }, null, 1));
	console.log("seed " + seed + " property C16 tier " + tier + "\n" + T("runs") + " runs (" + T("distinct") + " distinct nontrivial), " + T("with_faults") + " with faults, " + wall.toFixed(1) + " s");
	if (bad.length) {
		fs.mkdirSync(V + "/replays", { recursive: true });
		const dst = V + "/replays/C16-" + seed + ".txt";
		fs.writeFileSync(dst, bad[0].replay + "violation " + bad[0].violation + "\n");
		console.log("violation: " + bad[0].violation + "\nVIOLATION property=C16 replay=" + dst);
		process.exit(1);
	}
	err.forEach((e) => console.log(e));
	process.exit(err.length || parts.length < n ? 3 : 0);
}
const cmd = process.argv[2];
if (cmd == "worker") worker(+process.argv[3], +process.argv[4], +process.argv[5], +process.argv[6], process.argv[7]);
else if (cmd == "check") check();
else if (cmd == "replay") {
	const c = parse(fs.readFileSync(process.argv[3], "utf8")), r = run(c);
	console.log(r.notes.join("\n") + "\nnative failures: " + r.fired.join(" ") + "\n" + (r.violation ? "violation: " + r.violation : "no violation"));
	process.exit(r.violation ? 1 : 0);
} else if (cmd == "det") for (let i = 0; i < +process.argv[4]; i++) { const r = run(generate(+process.argv[3] + i)); console.log(i, r.trace, r.calls, r.violation); }
