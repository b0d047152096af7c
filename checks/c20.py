#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C20")
    b = c.build("uri_driver", san=True)
    c.design("UriMC", "UriMC.cfg", "all pairs of small bases and references: no dot segments, absolute, idempotent, fragment laws")
    exe = b.wait()
    any_line = lambda o: True
    out = os.path.join(c.dir, "all.ndjson")
    n = 5 if c.thorough else 4
    c.drive([exe, "all", n, out], out, "enumerated references")
    c.validate("UriTrace", out, "every reference path of up to %d segments against 10 bases" % n, is_start=any_line)
    for k in range(20 if c.thorough else 2):
        out = os.path.join(c.dir, "rand.ndjson")
        c.drive([exe, "rand", c.seed + k, 20000, out], out, "random references")
        c.validate("UriTrace", out, "random references, seed %d" % (c.seed + k), is_start=any_line)
    c.assumptions = ["references within the generic syntax, without the forms RFC 3986 leaves ambiguous (empty segments where no authority precedes)",
                     "single-letter schemes are Windows drive letters by the library's convention and left out"]
    c.finish()


vlib.main(run)
