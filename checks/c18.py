#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C18")
    b = c.build("filter_driver", san=True)
    c.design("AttsMC", "AttsMC.cfg", "two attribute lists of up to 2: lookups agree, refused changes change nothing")
    c.design("FilterMC", "FilterMC.cfg", "every document of 5 events, larger vocabulary: pass-through, batching, scopes, bases, written text")
    c.design("FilterMC", "FilterMC2.cfg", "every document of 8 events, small vocabulary: the same laws")
    if c.thorough:
        c.design("FilterMC", "FilterMC3.cfg", "every document of 6 events, larger vocabulary: the same laws")
    exe = b.wait()
    any_line = lambda o: True
    jobs = []
    for k in range(30 if c.thorough else 4):
        for mode, n in (("chain", 1000), ("atts", 1500)):
            out = os.path.join(c.dir, "%s%d.ndjson" % (mode, k))
            jobs.append(([exe, mode, c.seed * 1000 + k, n, out], out, "%s, seed %d" % ("chains of filters" if mode == "chain" else "attribute lists", c.seed * 1000 + k)))
    for _, out, what in c.drive_all(jobs):
        c.validate("AttsTrace" if "attribute" in what else "FilterTrace", out, what, is_start=any_line)
        os.unlink(out)
    c.assumptions = ["events come from a scripted reader in an order a conforming parser may report them",
                     "text written is read back with the expat wrapper", "narrow strings"]
    c.finish()


vlib.main(run)
