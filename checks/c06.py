#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C06")
    b = c.build("handle_driver", san=True)
    c.design("HandlesMC", "HandlesMC.cfg", "three handles, two documents, a document type, a list: every order of getting, copying, adopting and dropping")
    if c.thorough:
        c.design("HandlesMC", "HandlesMC2.cfg", "four handles, two lists: the same")
    exe = b.wait()
    jobs = []
    for k in range(60 if c.thorough else 8):
        seed = c.seed * 1000 + k
        n, steps = (600, 60) if k % 2 else (150, 250)
        out = os.path.join(c.dir, "h%d.ndjson" % k)
        jobs.append(([exe, seed, n, steps, out], out, "%d histories of %d steps on six handles, seed %d" % (n, steps, seed)))
    for _, out, what in c.drive_all(jobs):
        c.validate("HandlesTrace", out, what, is_start=lambda o: True)
        os.unlink(out)
    c.assumptions = ["freed memory is told apart by the address sanitizer", "purgeChild, which frees a node on request, is not used",
                     "narrow strings, SimpleDOM"]
    c.finish()


vlib.main(run)
