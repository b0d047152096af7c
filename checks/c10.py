#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C10")
    b = c.build("xpath_driver", san=True)
    c.design("XPathMC", "XPathMC.cfg", "laws of arithmetic, rounding, conversion and comparison")
    exe = b.wait()
    any_line = lambda o: True
    out = os.path.join(c.dir, "fixed.ndjson")
    c.drive([exe, "fixed", out], out, "grid of operators and functions over values of every type")
    c.validate("XPathTrace", out, "grid of operators and functions over values of every type", is_start=any_line)
    for k in range(30 if c.thorough else 2):
        out = os.path.join(c.dir, "expr.ndjson")
        c.drive([exe, "expr", c.seed * 100 + k, 25, 100, "any", out], out, "random expressions")
        c.validate("XPathTrace", out, "random expressions, seed %d" % (c.seed * 100 + k), is_start=any_line)
    c.assumptions = ["numbers the specification's fixed point (sixteenths up to a million) cannot hold are only checked for type and well-formed output",
                     "id() and lang() are not part of the library; strings are ASCII",
                     "documents hold no unexpanded entity references"]
    c.finish()


vlib.main(run)
