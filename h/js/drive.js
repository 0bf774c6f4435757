// Drives rpc_client.js with sequences of events read from standard input and
// prints what happened to every call. usage: node drive.js rpc_client.js
"use strict";
const fs = require("fs"), vm = require("vm"), readline = require("readline");
const quiet = () => {};
const env = { browser: { runtime: {} }, console: { log: quiet, debug: quiet, error: quiet, warn: quiet, info: quiet } };
vm.createContext(env);
vm.runInContext(fs.readFileSync(process.argv[2], "utf8") + "\n;this.__C = JsonRpcClient;", env);

class Emitter {
	constructor() { this.l = []; }
	addListener(f) { if (!this.l.includes(f)) this.l.push(f); }
	removeListener(f) { this.l = this.l.filter(x => x !== f); }
	hasListener(f) { return this.l.includes(f); }
	fire(...a) { for (const f of this.l.slice()) f(...a); }
}

const flush = async () => { for (let i = 0; i < 8; ++i) await null; };

async function run(events, own) {
	const ports = [];
	let broken = false;
	env.browser.runtime.connectNative = name => {
		const p = { name, onMessage: new Emitter(), onDisconnect: new Emitter(), posted: [], alive: true, error: null,
			postMessage(m) {
				if (broken) throw new Error("post failure");
				if (!p.alive) throw new Error("Attempt to postMessage on disconnected port");
				p.posted.push(m); posted.push([m, ports.length - 1]);
			},
			disconnect() { p.alive = false; } };
		ports.push(p);
		return p;
	};
	const posted = [], calls = [], bad = [];
	let n = 1000;
	const client = new env.__C("app", own ? { idGenerator: () => "g" + n++ } : { debug: true });
	const last = () => ports[ports.length - 1];
	for (let e = 0; e < events.length; ++e) {
		const ev = events[e];
		try {
			switch (ev[0]) {
			case "s": {
				broken = ev[1] === "!";
				const call = { msg: null, settled: [] };
				calls.push(call);
				const at = posted.length;
				const p = client.sendMessage("m" + calls.length, { arg: calls.length });
				broken = false;
				p.then(v => call.settled.push([e0, "ok", v]), x => call.settled.push([e0, "err", String(x && x.message)]));
				if (posted.length > at) { call.msg = posted[at][0]; call.port = posted[at][1]; }
				if (posted.length > at + 1) bad.push("more than one message is posted");
				break;
			}
			case "r": {
				const c = calls[ev[1]];
				if (c && c.msg && last() && last().alive) last().onMessage.fire({ id: c.msg.id, ...ev[2] });
				break;
			}
			case "f": if (last() && last().alive) last().onMessage.fire({ id: 77777, result: "foreign", error: null }); break;
			case "n": if (last() && last().alive) last().onMessage.fire(null); break;
			case "x": if (last() && last().alive) last().onMessage.fire({ result: "no id", error: null }); break;
			case "d":
				if (last() && last().alive) {
					last().alive = false;
					last().error = ev[1] ? new Error(ev[1]) : null;
					last().onDisconnect.fire(last());
				}
				break;
			}
		} catch (x) { bad.push("event " + e + " " + JSON.stringify(ev) + " threw " + (x && x.message)); }
		var e0 = e;
		await flush();
	}
	var e0 = events.length;
	await flush();
	return { calls: calls.map(c => ({ settled: c.settled, msg: c.msg, port: c.port === undefined ? -1 : c.port })), bad, ports: ports.length };
}

(async () => {
	for await (const line of readline.createInterface({ input: process.stdin })) {
		const { e, o } = JSON.parse(line);
		process.stdout.write(JSON.stringify(await run(e, o)) + "\n");
	}
})();
