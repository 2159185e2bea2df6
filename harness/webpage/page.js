// A stand-in for a browser: it loads the server's page, runs its script against a small document,
// and does what it is told on standard input, one JSON object per line:
//   {op:"load",url}  {op:"type",text}  {op:"click"}  {op:"deliver",n,status}  {op:"state"}
// Requests are sent when the page sends them; their answers reach the page when they are delivered.
"use strict";
const vm = require("vm"), http = require("http"), readline = require("readline");
const agent = new http.Agent({ keepAlive: true });

const named = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
function decode(s) {
	return s.replace(/&(?:#(\d+)|#[xX]([0-9a-fA-F]+)|([a-zA-Z]+));/g, (m, d, x, n) =>
		d ? String.fromCodePoint(+d) : x ? String.fromCodePoint(parseInt(x, 16)) : n in named ? named[n] : m);
}
// parts splits HTML into its text and its tags.
function parts(html) {
	const tags = [];
	let raw = "", at = 0;
	for (const m of html.matchAll(/<!--[\s\S]*?(?:-->|$)|<[a-zA-Z\/!?](?:"[^"]*"|'[^']*'|[^>"'])*(?:>|$)/g)) {
		tags.push(m[0]);
		raw += decode(html.slice(at, m.index));
		at = m.index + m[0].length;
	}
	raw += decode(html.slice(at));
	return { tags, text: raw };
}
const escapeText = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");

let doc, errors, requests, ctx;

class Style { constructor(css) { this.cssText = css || ""; const m = /display\s*:\s*([a-z-]+)/.exec(this.cssText); this.display = m ? m[1] : ""; }
	setProperty(k, v) { this[k] = v; } removeProperty(k) { this[k] = ""; } }
class Element {
	constructor(tag, attrs) {
		this.tagName = tag.toUpperCase(); this.attrs = attrs; this.id = attrs.id || ""; this.style = new Style(attrs.style);
		this._html = ""; this._value = ""; this._start = 0; this._end = 0; this.focused = 0; this.hidden = "hidden" in attrs; this.handlers = []; this.onclick = null;
		const cl = new Set((attrs.class || "").split(/\s+/).filter(Boolean));
		this.classList = { add: (...c) => c.forEach(x => cl.add(x)), remove: (...c) => c.forEach(x => cl.delete(x)), contains: c => cl.has(c), toggle: (c, f) => { const on = f === undefined ? !cl.has(c) : f; on ? cl.add(c) : cl.delete(c); return on; } };
	}
	get innerHTML() { return this._html; }
	set innerHTML(h) { this._html = String(h); }
	get textContent() { return parts(this._html).text; }
	set textContent(t) { this._html = t == null ? "" : escapeText(String(t)); }
	get innerText() { return this.textContent; }
	set innerText(t) { this.textContent = t; }
	get outerHTML() { const t = this.tagName.toLowerCase(); return "<" + t + ">" + this._html + "</" + t + ">"; }
	append(...ks) { for (const k of ks) this._html += k instanceof Element ? k.outerHTML : escapeText(k && k.data !== undefined ? k.data : String(k)); }
	appendChild(k) { this.append(k); return k; }
	replaceChildren(...ks) { this._html = ""; this.append(...ks); }
	insertAdjacentHTML(w, h) { this._html = w === "afterbegin" ? h + this._html : this._html + h; }
	getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
	setAttribute(k, v) { this.attrs[k] = String(v); if (k === "style") this.style = new Style(v); if (k === "hidden") this.hidden = true; }
	removeAttribute(k) { delete this.attrs[k]; if (k === "hidden") this.hidden = false; }
	get value() { return this._value; }
	set value(v) { this._value = String(v).replace(/\r\n?/g, "\n"); this._start = this._end = this._value.length; }
	clamp(n) { n = Math.trunc(Number(n)); return !(n > 0) ? 0 : Math.min(n, this._value.length); }
	get selectionStart() { return this._start; }
	set selectionStart(n) { this._start = this.clamp(n); if (this._end < this._start) this._end = this._start; }
	get selectionEnd() { return this._end; }
	set selectionEnd(n) { this._end = this.clamp(n); if (this._start > this._end) this._start = this._end; }
	setSelectionRange(a, b) { this._end = this.clamp(b); this._start = Math.min(this.clamp(a), this._end); }
	focus() { this.focused++; } blur() { } select() { this._start = 0; this._end = this._value.length; } click() { run(this.attrs.onclick || ""); }
	scrollIntoView() { } addEventListener(t, f) { this.handlers.push([t, f]); } removeEventListener(t, f) { this.handlers = this.handlers.filter(h => h[0] !== t || h[1] !== f); }
	remove() { } removeChild() { this._html = ""; } get firstChild() { return this._html === "" ? null : this; } get lastChild() { return this.firstChild; } get dataset() { return {}; }
}

function request(method, url, body, headers) {
	const r = { n: requests.length, method, url, listeners: {} };
	requests.push(r);
	r.answer = new Promise(done => {
		const u = new URL(url, doc.URL);
		const q = http.request({ host: u.hostname, port: u.port, path: u.pathname + u.search, method, headers, agent }, a => {
			const b = [];
			a.on("data", d => b.push(d));
			a.on("end", () => done({ status: a.statusCode, body: Buffer.concat(b).toString("utf8"), headers: a.headers }));
			a.on("error", e => done({ status: 0, body: "", error: String(e) }));
		});
		q.on("error", e => done({ status: 0, body: "", error: String(e) }));
		q.end(body == null ? undefined : Buffer.from(String(body).toWellFormed(), "utf8"));
	});
	return r;
}

function call(f, self, arg) {
	if (typeof f !== "function") return;
	try { f.call(self, arg); } catch (e) { errors.push(String(e && e.stack || e)); }
}
class XMLHttpRequest {
	constructor() { this.readyState = 0; this.status = 0; this.statusText = ""; this.responseText = ""; this.responseType = ""; this.ls = []; this.headers = {}; }
	addEventListener(t, f) { this.ls.push([t, f]); }
	fire(t) { call(this["on" + t], this, { type: t, target: this, currentTarget: this }); for (const [k, f] of this.ls) if (k === t) call(f, this, { type: t, target: this, currentTarget: this }); }
	open(m, u) { this.cancelled = true; if (this.r) this.r.x = null; this.m = m; this.u = u; this.readyState = 1; this.fire("readystatechange"); }
	setRequestHeader(k, v) { this.headers[k] = v; }
	send(b) { this.r = request(this.m, this.u, b, this.headers); this.r.x = this; this.sent = true; }
	get response() { return this.responseType === "json" ? (() => { try { return JSON.parse(this.responseText); } catch (e) { return null; } })() : this.responseText; }
	abort() {
		if (this.r) this.r.x = null;
		if (this.sent && this.readyState >= 1 && this.readyState < 4) {
			this.sent = false; this.status = 0; this.responseText = ""; this.readyState = 4;
			this.fire("readystatechange"); this.fire("abort"); this.fire("loadend");
		}
		if (this.readyState === 4) this.readyState = 0;
	}
	deliver(a) {
		this.sent = false;
		if (a.status === 0) { this.readyState = 4; this.fire("readystatechange"); this.fire("error"); this.fire("loadend"); return; }
		this.status = a.status; this.readyState = 2; this.fire("readystatechange");
		this.readyState = 3; this.responseText = a.body.slice(0, a.body.length >> 1); this.fire("readystatechange");
		this.responseText = a.body; this.fire("readystatechange");
		this.readyState = 4; this.fire("readystatechange"); this.fire("load"); this.fire("loadend");
	}
	getResponseHeader() { return null; } getAllResponseHeaders() { return ""; }
}
XMLHttpRequest.DONE = XMLHttpRequest.prototype.DONE = 4;
function fetchStub(u, o) {
	o = o || {};
	const r = request(o.method || "GET", String(u), o.body, o.headers || {});
	return new Promise((ok, bad) => {
		r.fetch = a => {
			if (a.status === 0) return bad(new TypeError("NetworkError"));
			ok({ ok: a.status >= 200 && a.status < 300, status: a.status, text: () => Promise.resolve(a.body), json: () => new Promise(d => d(JSON.parse(a.body))), headers: { get: k => a.headers && a.headers[k.toLowerCase()] || null } });
		};
		if (o.signal) o.signal.addEventListener("abort", () => { r.fetch = null; const e = new Error("aborted"); e.name = "AbortError"; bad(e); });
	});
}

function run(code) {
	if (!code) { errors.push("nothing happens on a click"); return; }
	try { vm.runInContext("(function(){" + code + "\n}).call(this)", ctx); } catch (e) { errors.push(String(e && e.stack || e)); }
}

function load(url, html) {
	errors = []; requests = [];
	const els = {}, all = [], scripts = [];
	let m;
	const script = /<script([^>]*)>([\s\S]*?)<\/script\s*>/gi;
	while ((m = script.exec(html))) if (!/\bsrc\s*=/.test(m[1])) scripts.push(m[2]);
	const body = html.replace(script, "").replace(/<style[\s\S]*?<\/style\s*>/gi, "");
	const tag = /<!--[\s\S]*?-->|<(\/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*\/?>|([^<]+)/g;
	const empty = /^(area|base|br|col|embed|hr|img|input|link|meta|source|track|wbr)$/i;
	const open = [];
	while ((m = tag.exec(body))) {
		if (m[4]) { for (const e of open) e.inner = (e.inner || "") + decode(m[4]); continue; }
		if (!m[2]) continue;
		if (m[1]) {
			let i = open.length - 1;
			while (i >= 0 && open[i].tagName !== m[2].toUpperCase()) i--;
			if (i >= 0) open.length = i;
			continue;
		}
		const attrs = {};
		const attr = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
		let k;
		while ((k = attr.exec(m[3]))) attrs[k[1]] = decode(k[2] ?? k[3] ?? k[4] ?? "");
		const e = new Element(m[2], attrs);
		e.parent = open[open.length - 1];
		all.push(e);
		if (e.id) { if (els[e.id]) errors.push("two elements have the id " + e.id); els[e.id] = e; }
		if (!empty.test(m[2])) open.push(e);
	}
	doc = {
		URL: url, documentURI: url, location: { href: url, toString() { return url; } }, readyState: "complete", title: "",
		getElementById: i => els[i] || null,
		querySelector: s => all.find(matches(s)) || null, querySelectorAll: s => all.filter(matches(s)),
		getElementsByTagName: t => all.filter(matches(t)), getElementsByClassName: c => all.filter(matches("." + c)),
		createElement: t => new Element(t, {}), createTextNode: t => ({ data: String(t) }),
		addEventListener: (t, f) => { if (t === "DOMContentLoaded") call(f, doc, { type: t }); },
	};
	const sandbox = { document: doc, XMLHttpRequest, fetch: fetchStub, AbortController, AbortSignal, URL, TextEncoder, TextDecoder, console: { log() { }, error() { }, warn() { } }, setTimeout, clearTimeout, location: doc.location, navigator: { userAgent: "" } };
	sandbox.window = sandbox; sandbox.self = sandbox;
	sandbox.addEventListener = (t, f) => { if (t === "load" || t === "DOMContentLoaded") call(f, sandbox, { type: t }); };
	ctx = vm.createContext(sandbox);
	for (const s of scripts) vm.runInContext(s, ctx);
	doc.els = els; doc.all = all;
}

function matches(s) {
	const ss = s.split(",").map(x => x.trim());
	return e => ss.some(s => s[0] === "#" ? e.id === s.slice(1) : s[0] === "." ? e.classList.contains(s.slice(1)) : e.tagName === s.toUpperCase());
}
function shown(e) { return !e || e.style.display !== "none" && !e.hidden && shown(e.parent); }
const pause = () => new Promise(d => setImmediate(() => setImmediate(d)));
async function handle(c) {
	switch (c.op) {
		case "load": {
			const html = await new Promise((ok, bad) => http.get(c.url, { agent }, a => { const b = []; a.on("data", d => b.push(d)); a.on("end", () => ok(Buffer.concat(b).toString("utf8"))); }).on("error", bad));
			load(c.url + (c.fragment || ""), html);
			const tabs = {};
			for (const e of doc.all) if (e.tagName === "A" && /^#./.test(e.attrs.href || "")) tabs[(e.inner || "").trim()] = e.attrs.href.slice(1);
			return { tabs };
		}
		case "type": {
			const ta = doc.all.filter(e => e.tagName === "TEXTAREA");
			if (ta.length !== 1) return { fail: ta.length + " text areas" };
			ta[0].value = c.text;
			return { value: ta[0].value };
		}
		case "click": {
			const bs = doc.all.filter(e => e.tagName === "BUTTON");
			if (bs.length !== 1) return { fail: bs.length + " buttons" };
			const n = requests.length;
			if (bs[0].attrs.onclick) run(bs[0].attrs.onclick);
			call(bs[0].onclick, bs[0], { type: "click", target: bs[0], preventDefault() { }, stopPropagation() { } });
			for (const [t, f] of bs[0].handlers) if (t === "click") call(f, bs[0], { type: t, target: bs[0], preventDefault() { }, stopPropagation() { } });
			await pause();
			return { requests: requests.slice(n).map(r => ({ n: r.n, method: r.method, url: r.url })) };
		}
		case "deliver": {
			const r = requests[c.n];
			let a = await r.answer;
			const real = a.status;
			if (c.status !== undefined) a = { status: c.status, body: c.status ? "Internal Server Error\n" : "", headers: {} };
			if (r.x) r.x.deliver(a);
			if (r.fetch) r.fetch(a);
			await pause();
			return { status: real };
		}
		case "state": {
			const s = {};
			const ta = doc.all.find(e => e.tagName === "TEXTAREA");
			for (const [i, e] of Object.entries(doc.els)) {
				const p = parts(e._html);
				s[i] = { text: p.text, tags: p.tags, shown: shown(e), };
			}
			const es = errors; errors = [];
			return { panels: s, errors: es, value: ta._value, start: ta._start, end: ta._end, focused: ta.focused };
		}
	}
	return { fail: "unknown operation" };
}

process.on("unhandledRejection", e => { if (e && e.name !== "AbortError" && !/NetworkError/.test(String(e))) errors.push(String(e && e.stack || e)); });
(async () => {
	for await (const line of readline.createInterface({ input: process.stdin })) {
		if (!line) continue;
		let out;
		try { out = await handle(JSON.parse(line)); } catch (e) { out = { fail: String(e && e.stack || e) }; }
		process.stdout.write(JSON.stringify(out) + "\n");
	}
	process.exit(0);
})();
