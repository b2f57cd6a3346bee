#!/usr/bin/env python3
"""replay.py <entry> <values.txt>: runs one counterexample against the library built from /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
rc = 0
for kind, junk in [("nat", 0), ("asan", 0)] + [("junk", k) for k in range(16)]:
    st, msg, obs = vp.replay(vp.native(kind, vp.module_of(sys.argv[1])), sys.argv[1], sys.argv[2], junk=junk)
    print("%s: %s %s" % (dict(nat="plain build", asan="AddressSanitizer build", junk="build with arbitrary contents of uninitialised variables (%d)" % junk)[kind], st, msg))
    rc |= st == "viol"
sys.exit(rc)
