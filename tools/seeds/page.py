SEEDS = []
SH = '''#!/bin/bash
# Builds the parser for browsers, calls it in node and looks at its answers.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
GOOS=js GOARCH=wasm go build -o "$tmp/aqlparse.wasm" ./wasm/aqlparse || exit 2
timeout 120 node "$here/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$tmp/aqlparse.wasm"
'''
JS = '''
globalThis.fs = require("fs");
require(process.argv[2]);
const go = new Go();
globalThis.notifyBrowser = () => {
	let ok = false;
	try {
		const q = %s;
		const r = parseAQL(q);
		console.log(JSON.stringify(r));
		ok = %s;
	} catch (e) {
		console.log(String(e));
	}
	process.exit(ok ? 0 : 1);
};
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(r => go.run(r.instance));
'''
def seed(id, needs, breaks, query, ok):
    SEEDS.append(dict(id=id, property="W02", needs=needs, breaks=breaks, sh=SH, files={"demo.js": (JS % (query, ok)).lstrip()}))

seed("b-page-drop", "a query with several pieces of advice", "hints after another message are dropped", '"a:~/x.*/"', 'r.messages.some(m => m.type === "warning") && r.messages.some(m => m.type === "hint")')
seed("b-page-trim", "a text with blanks before a construct with advice", "messages about a text with leading blanks are at the wrong place", '"   a:2020-01-02T03:04:05Z"', 'r.messages.length === 1 && q.slice(r.messages[0].start, r.messages[0].end) === "2020-01-02T03:04:05Z"')
seed("b-page-adv-return", "two times in one list", "only the first time of a list gets advice", '"a:(2020-01-02T03:04:05Z,2021-01-02T03:04:05Z)"', 'r.messages.filter(m => m.type === "warning").length === 2')
