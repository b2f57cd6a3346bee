#!/bin/bash
# compares the engine's vector intrinsics with scalar definitions: tools/intrin.sh
cd "$(dirname "$0")/.."; E=$(python3 -c "import sys; sys.path.insert(0, 'lib'); import vp; print(vp.engine())"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang-18 -m64 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -w -c tools/intrin.c -o "$T/intrin.bc" || exit 1
for k in $(seq 0 24); do echo "$k h_intrin 100000 60 0 2 0 $k"; done | "$E" "$T/intrin.bc" | python3 -c "
import sys, json
for l in sys.stdin:
    try: r = json.loads(l)
    except ValueError: continue
    print(r['id'], r['status'], r.get('paths'), r.get('info'), [v['msg'] for v in r.get('viol', [])])"
