# The four XSLT checks differ in the stylesheets they generate.
import os
import vlib

WHAT = {"rules": "template rules, modes, priorities, imports and includes",
        "vars": "variables, parameters and templates called by name",
        "loops": "loops, sorting, keys and the context inside them",
        "tree": "elements, attributes, comments, processing instructions and copies"}


def main(prop, profile):
    def run():
        c = vlib.Check(prop)
        b = c.build("xslt_driver", san=True)
        c.design("XsltMC", "XsltMC.cfg", "every module graph of 3 modules and 5 items, every result sequence of 5 items, every document of 6 nodes: the laws of the XSLT semantics")
        exe = b.wait()
        any_line = lambda o: True
        plan = [(profile, 40 if c.thorough else 4, 500)] + [(p, 12 if c.thorough else 1, 300) for p in sorted(WHAT) if p != profile]
        jobs = []
        for p, rounds, n in plan:
            for k in range(rounds):
                d = os.path.join(c.dir, "%s%d" % (p, k))
                os.makedirs(d)
                sd = c.seed * 100 + k
                jobs.append(([exe, "run", p, sd, n, d, d + ".ndjson"], d + ".ndjson", "random stylesheets with %s, seed %d" % (WHAT[p], sd)))
        for argv, out, what in c.drive_all(jobs):
            c.validate("XsltTrace", out, what, is_start=any_line)
        c.assumptions = ["stylesheets use what the library implements: no attribute sets, xsl:number, strip-space, decimal-format, fallback or document()",
                         "sorting by character code in every language",
                         "variables of a template are not declared again inside it, which XSLT 1.0 forbids"]
        c.finish()
    vlib.main(run)
