#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C08")
    b = c.build("domio_driver", san=True)
    c.design("DomIoMC", "DomIoMC.cfg", "every tree of two elements with up to two attributes each: written and read by the namespace rules it is the same tree")
    exe = b.wait()
    any_line = lambda o: True
    n = 1200
    for k in range(15 if c.thorough else 1):
        for p, what in (("build", "generated documents, malformed ones too, through reused DOM parsers"), ("write", "documents changed through the DOM, written and read back")):
            out = os.path.join(c.dir, p + ".ndjson")
            seed = c.seed * 100 + k
            c.drive([exe, p, seed, n, out], out, what)
            c.validate("DomIoTrace", out, "%s, seed %d" % (what, seed), is_start=any_line)
    c.assumptions = ["Expat is the back end compiled in", "the choice of prefixes and the redundancy of declarations are free",
                     "an empty CDATA section leaves no node", "comments without --, processing instructions without ?> or leading space, no carriage returns where they cannot be escaped",
                     "document types are not written, so documents with entity references are not either",
                     "names with a colon belong to a namespace"]
    c.finish()


vlib.main(run)
