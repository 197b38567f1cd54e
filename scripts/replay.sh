#!/bin/bash
# search for a concrete failing execution of a property: replay.sh <property> <seed> [quick|thorough]
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/scripts/env.sh"
tmp=$(mktemp -d /tmp/xvreplay.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/replay/*.go "$tmp/" && cp "$here/replay/go.mod" "$tmp/go.mod" && cp "$XV_REPO/go.sum" "$tmp/go.sum"
sed -i "s#=> /repo#=> $XV_REPO#" "$tmp/go.mod"
dur=10s; [ "$3" = thorough ] && dur=120s
race=; [ "$1" = C13 ] && race=-race
cd "$tmp" && go build $race -o "$tmp/replay" . >"$tmp/build.log" 2>&1 || { echo '{"note":"the harness does not build"}'; head -5 "$tmp/build.log" >&2; exit 0; }
mkdir "$tmp/work"; cd "$tmp/work"
GORACE="halt_on_error=0 exitcode=0 log_path=$tmp/race" timeout 280 "$tmp/replay" -p "$1" -seed "$2" -dur "$dur" >"$tmp/out" 2>"$tmp/err"; rc=$?
cat "$tmp/out"
if [ "$1" = C24 ] && clang -w -O1 -g -fsanitize=address -I "$XV_REPO/redis/lzf" "$here/replay/lzf/driver.c" "$XV_REPO"/redis/lzf/*.c -o "$tmp/lzf" >/dev/null 2>&1; then
  ASAN_OPTIONS=detect_leaks=0 timeout 250 "$tmp/lzf" "$2" "${dur%s}" >"$tmp/lzf.out" 2>"$tmp/lzf.err"
  python3 - "$tmp/lzf.out" "$tmp/lzf.err" <<'P'
import sys, json
o = open(sys.argv[1], errors='replace').read(); e = open(sys.argv[2], errors='replace').read()
l = o.split("\n")[0]
if l.startswith("CASES "): print(json.dumps({"cases": 0, "native": int(l[6:])}))
elif l.startswith("FAIL ") or "AddressSanitizer" in e:
    e = "\n".join(x for x in e.split("\n") if "lzf_" in x or "ERROR" in x or "SUMMARY" in x)
    print(json.dumps({"cases": 1, "failure": "C code of redis/lzf: " + l + ("\n" + e[:1200] if e else "")}))
P
fi
if ! grep -q '^{' "$tmp/out"; then
  python3 - "$tmp/err" $rc <<'P'
import sys, json
t = open(sys.argv[1], errors='replace').read()
t = "\n".join(l for l in t.split("\n")[:200] if l.strip())[:1500]
print(json.dumps({"cases": 1, "failure": ("the process died (exit %s): " % sys.argv[2]) + t if t else ""}))
P
fi
if ls "$tmp"/race.* >/dev/null 2>&1; then
  python3 - "$tmp"/race.* <<'P'
import sys, json
t = open(sys.argv[1]).read()
i = t.find("WARNING: DATA RACE")
if i >= 0 and "xxcache" in t[i:i+3000]:
    print(json.dumps({"cases": 0, "failure": "concurrent use, found by the race detector:\n" + t[i:i+1800]}))
P
fi
exit 0
