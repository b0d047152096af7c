#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def run():
    c = vlib.Check("C09")
    b = c.build("xpath_driver", san=True)
    c.design("XPathMC", "XPathMC.cfg", "every document of up to 6 nodes: axes partition the tree, are inverse, compose, follow document order")
    exe = b.wait()
    any_line = lambda o: True
    n = 4 if c.thorough else 3
    out = os.path.join(c.dir, "small.ndjson")
    c.drive([exe, "small", n, out], out, "every document of up to %d nodes below its element" % n)
    c.validate("XPathTrace", out, "every small document x context node x axis", is_start=any_line)
    for k in range(25 if c.thorough else 2):
        out = os.path.join(c.dir, "axes.ndjson")
        c.drive([exe, "axes", c.seed * 100 + k, 70, out], out, "random documents, every axis from every node")
        c.validate("XPathTrace", out, "random documents x context node x axis, seed %d" % (c.seed * 100 + k), is_start=any_line)
    for k in range(10 if c.thorough else 1):
        out = os.path.join(c.dir, "path.ndjson")
        c.drive([exe, "expr", c.seed * 100 + 50 + k, 25, 60, "path", out], out, "random node-set expressions: order, duplicates")
        c.validate("XPathTrace", out, "document order and uniqueness of node-set results, seed %d" % (c.seed * 100 + 50 + k), is_start=any_line)
    c.assumptions = ["documents hold no unexpanded entity references",
                     "a context node is never a later node of a run of adjacent text nodes",
                     "the order among the namespace nodes of one element is free",
                     "namespace nodes are those of declaration attributes present in the tree"]
    c.finish()


vlib.main(run)
