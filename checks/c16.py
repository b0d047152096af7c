#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

WHAT = {"wf": "well-formed documents", "dtd": "documents with declarations, entities and defaults", "bad": "malformed documents",
        "throw": "handlers that throw", "ext": "external entities"}


def run():
    c = vlib.Check("C16")
    b = c.build("sax_driver", san=True)
    c.design("SaxMC", "SaxMC.cfg", "small documents: event streams balanced, handlers independent, features change names only, text conserved")
    exe = b.wait()
    any_line = lambda o: True
    n = 400
    for k in range(20 if c.thorough else 1):
        for p in ("wf", "dtd", "bad", "throw", "ext"):
            out = os.path.join(c.dir, p + ".ndjson")
            seed = c.seed * 100 + k
            c.drive([exe, p, seed, n, out], out, WHAT[p])
            c.validate("SaxTrace", out, "%s through reused readers, seed %d" % (WHAT[p], seed), is_start=any_line)
    c.assumptions = ["Expat is the back end compiled in", "what Expat itself accepts and reports is right",
                     "the place where a parser cuts text is free", "parameter entities are not used in the generated documents"]
    c.finish()


vlib.main(run)
