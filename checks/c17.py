#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C17")
    b = c.build("ns_driver", san=True)
    c.design("NsMC", "NsMC.cfg", "2 prefixes x 2 URIs x 3 contexts: restore, declare, inherit laws")
    d1 = c.cov["design_runs"][-1]["distinct_states"]
    c.design("NsMC", "NsMC2.cfg", "3 prefixes x 2 URIs x 2 contexts")
    d2 = c.cov["design_runs"][-1]["distinct_states"]
    exe = b.wait()
    any_line = lambda o: True
    for pfx, uris, depth, want in ((",p", ",u", 3, d1), (",p,q", "u,v", 2, d2)):
        out = os.path.join(c.dir, "bfs.ndjson")
        what = "every state of prefixes {%s} uris {%s} depth %d under every call" % (pfx, uris, depth)
        so = c.drive([exe, "bfs", pfx, uris, depth, out], out, what)
        c.validate("NsTrace", out, what, is_start=any_line)
        if so is not None and int(so.split()[1]) != want:
            c.violation("the class reaches %s distinct states, the specification %d" % (so.split()[1], want), {"argv": ["bfs", pfx, uris, depth]})
    for k in range(15 if c.thorough else 1):
        out = os.path.join(c.dir, "rand.ndjson")
        c.drive([exe, "rand", c.seed + k, 500, out], out, "random histories")
        c.validate("NsTrace", out, "random histories, seed %d" % (c.seed + k), is_start=any_line)
    c.assumptions = ["the base context is never popped"]
    c.finish()


vlib.main(run)
