#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C07")
    b = c.build("walker_driver", san=True)
    c.design("WalkerMC", "WalkerMC.cfg", "all trees of up to 5 nodes, all labellings, all walks: inside, shown, complete, retraceable")
    exe = b.wait()
    any_line = lambda o: True
    out = os.path.join(c.dir, "all.ndjson")
    n = 6 if c.thorough else 5
    c.drive([exe, "all", n, out], out, "every tree of up to %d nodes" % n)
    c.validate("WalkerTrace", out, "every tree of up to %d nodes x labelling x current x move" % n, is_start=any_line)
    for k in range(12 if c.thorough else 1):
        out = os.path.join(c.dir, "rand.ndjson")
        c.drive([exe, "rand", c.seed + k, 1500, out], out, "random trees, masks, filters, tree changes")
        c.validate("WalkerTrace", out, "random trees, seed %d" % (c.seed + k), is_start=any_line)
    c.assumptions = ["where the current node lies inside a rejected subtree either reading of its logical parent is admitted",
                     "the walker stays within its root; current nodes outside the root are not explored"]
    c.finish()


vlib.main(run)
