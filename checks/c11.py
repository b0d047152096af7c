#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C11")
    b = c.build("xpath_driver", san=True)
    c.design("XPathMC", "XPathMC.cfg", "every document of up to 6 nodes: patterns read right to left agree with their definition as paths")
    exe = b.wait()
    any_line = lambda o: True
    for k in range(20 if c.thorough else 2):
        out = os.path.join(c.dir, "path.ndjson")
        c.drive([exe, "expr", c.seed * 100 + k, 25, 80, "path", out], out, "random location paths")
        c.validate("XPathTrace", out, "random location paths, seed %d" % (c.seed * 100 + k), is_start=any_line)
    for k in range(20 if c.thorough else 2):
        out = os.path.join(c.dir, "pat.ndjson")
        c.drive([exe, "pat", c.seed * 100 + k, 25, 40, out], out, "random match patterns")
        c.validate("XPathTrace", out, "random match patterns against every node, seed %d" % (c.seed * 100 + k), is_start=any_line)
    c.assumptions = ["patterns are compiled with compile_match, without id() and key()",
                     "documents hold no unexpanded entity references",
                     "the order among the namespace nodes of one element is free",
                     "no absolute paths where the tree's root is a document fragment"]
    c.finish()


vlib.main(run)
