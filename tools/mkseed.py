#!/usr/bin/env python3
# Builds /verif/seeded/<id>/ from tools/seeds/*.py and verifies every planted bug in a scratch copy.
# usage: mkseed.py [id ...]
import glob, importlib.util, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
SEEDS = []
def wasm_seed(id, module, edits, body, needs, breaks):
    SEEDS.append(dict(id=id, prop="C10", module="shuttermint", pkg="shcryptowasm", wasm=module, edits=edits, demo=body, needs=needs, breaks=breaks))
def seed(id, prop, module, pkg, edits, demo, needs, breaks, pkgname=None):
    SEEDS.append(dict(id=id, prop=prop, module=module, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))
for f in sorted(glob.glob(here + "/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
want = sys.argv[1:]
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken. Runs in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$repo/%(module)s/%(pkg)s/zz_seed_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
cd "%(module)s" || exit 2
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local
GOPROXY=off GOFLAGS= go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' "./%(pkg)s"
'''
# a module is loaded into node, which takes the part of the web page
WASM = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken. Runs in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
cd "%(module)s" || exit 2
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
GOOS=js GOARCH=wasm go build -o "$tmp/module.wasm" "%(pkg)s/%(wasm)s_wasm.go" || exit 2
cp "$here/vectors_test.go" "$tmp/vectors.go"
echo "{\\"Replace\\": {\\"$(pwd)/shcryptowasm/zz_vectors/main.go\\": \\"$tmp/vectors.go\\"}}" > "$tmp/overlay.json"
go run -overlay "$tmp/overlay.json" ./shcryptowasm/zz_vectors > "$tmp/vectors.json" || exit 2
node "$here/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$tmp/module.wasm" "$tmp/vectors.json"
'''
VECTORS = '''package main

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
	"os"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/shcrypto"
)

func main() {
	secret := big.NewInt(123456789)
	eon := (*shcrypto.EonPublicKey)(new(bn256.G2).ScalarBaseMult(secret))
	epoch := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	id := shcrypto.ComputeEpochID(epoch)
	key := (*shcrypto.EpochSecretKey)(shcrypto.ComputeEpochSecretKeyShare((*shcrypto.EonSecretKeyShare)(secret), id))
	message := []byte("forty bytes of a message, two blocks ...")
	var sigma shcrypto.Block
	copy(sigma[:], "32 bytes which should be random!")
	m := map[string]string{
		"eon": hex.EncodeToString(eon.Marshal()), "epoch": hex.EncodeToString(epoch), "key": hex.EncodeToString(key.Marshal()),
		"message": hex.EncodeToString(message), "sigma": hex.EncodeToString(sigma[:]),
		"encrypted": hex.EncodeToString(shcrypto.Encrypt(append([]byte{}, message...), eon, id, sigma).Marshal()),
	}
	json.NewEncoder(os.Stdout).Encode(m)
}
'''
JS = '''const fs = require("fs");
globalThis.require = require; globalThis.fs = fs;
globalThis.TextEncoder = require("util").TextEncoder; globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("perf_hooks").performance;
globalThis.crypto ??= require("crypto").webcrypto;
require(process.argv[2]);
const v = JSON.parse(fs.readFileSync(process.argv[4]));
const b = {};
for (const k in v) b[k] = Uint8Array.from(Buffer.from(v[k], "hex"));
const clamped = (x) => Uint8ClampedArray.from(x);
const check = (ok, what) => { if (!ok) { console.log("demo: " + what); process.exit(1); } };
const refused = (s, what) => check(typeof s === "string" && s.startsWith("Error: "), what);
const go = new Go();
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(async (r) => {
  go.run(r.instance);
  await new Promise((f) => setTimeout(f, 200));
  %s
  process.exit(0);
}).catch((e) => { console.log("demo: " + e); process.exit(1); });
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
wt = "/tmp/seedwt"
base = json.load(open("/opt/vp/BASELINE.json"))
bad = 0
for s in SEEDS:
    if want and s["id"] not in want: continue
    if not want and os.path.exists(root + "/seeded/" + s["id"] + "/meta.json"): continue
    if os.path.isdir(wt): shutil.rmtree(wt)
    sh("cp -a /repo " + wt, "/")
    d = root + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    if "wasm" in s:
        open(d + "/vectors_test.go", "w").write(VECTORS)
        open(d + "/demo.js", "w").write(JS % s["demo"].strip())
        open(d + "/demo.sh", "w").write(WASM % s)
    else:
        open(d + "/demo_test.go", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % s)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, wt)
    ok = True
    if r.returncode != 0:
        ok = False; print(s["id"], "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-1500:])
    for f, a, b in s["edits"]:
        t = open(wt + "/" + f).read()
        if t.count(a) != 1:
            ok = False; print(s["id"], "EDIT MATCHES", t.count(a), f, a); continue
        open(wt + "/" + f, "w").write(t.replace(a, b))
    p = sh("git diff", wt).stdout
    open(d + "/patch.diff", "w").write(p)
    r = sh("bash %s/demo.sh" % d, wt)
    if r.returncode == 0:
        ok = False; print(s["id"], "DEMO PASSES WITH BUG")
    if "build failed" in r.stdout or "setup failed" in r.stdout:
        ok = False; print(s["id"], "BUILD FAILED", r.stdout[-1500:], r.stderr[-1500:])
    demo_out = r.stdout
    # the stable tests must still pass
    r = sh("export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off; %s; go test -count=1 ./... 2>&1 | grep -v 'no test files' | tail -40" % ("true" if "wasm" in s else "go vet ./" + s["pkg"]), wt + "/" + s["module"])
    if "FAIL" in r.stdout:
        ok = False; print(s["id"], "TESTS FAIL", r.stdout[-2500:], r.stderr[-500:])
    print(s["id"], s["prop"], "ok" if ok else "BAD", [l for l in demo_out.splitlines() if "demo" in l or "panic" in l][:3])
    if not ok:
        bad += 1
        shutil.rmtree(d)
    shutil.rmtree(wt)
sys.exit(bad)
