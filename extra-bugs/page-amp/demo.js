"use strict";
const fs = require("fs"), vm = require("vm");
const html = fs.readFileSync(process.argv[2], "utf8");
const els = {};
for (const m of html.matchAll(/\bid="([^"]+)"/g)) els[m[1]] = { style: {}, innerHTML: "", value: "", focus() {} };
const sent = [];
class XMLHttpRequest { open() { sent.push(this); this.readyState = 1; } send(t) { this.text = t; } abort() { this.gone = true; } }
const ctx = vm.createContext({ document: { URL: "http://localhost/", getElementById: i => els[i] }, XMLHttpRequest });
for (const m of html.matchAll(/<script>([\s\S]*?)<\/script>/g)) vm.runInContext(m[1], ctx);
const input = els["toaq-input-area"];
// answer submits a text, and answers it.
function answer(text, resp) {
	input.value = text;
	vm.runInContext("parse()", ctx);
	const x = sent[sent.length - 1];
	x.readyState = 4; x.status = 200; x.responseText = JSON.stringify(resp);
	x.onreadystatechange.call(x);
}
function fail(m) { console.log("FAIL: " + m); process.exit(1); }
answer("mai? &amp;", { Error: ":1.6: got '&bu;' &lt;" });
if (!/&amp;lt;/.test(els["toaq-error-panel"].innerHTML)) fail(els["toaq-error-panel"].innerHTML);
