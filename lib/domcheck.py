"""C01-C05: the DOM state machine. One driver, one specification (spec/Dom.tla), one profile per property."""
from vlib import Check
import os

LAWS = {"tree": "Inv_Tree, Inv_Partition, Inv_NoDup, RefusedChangesNothing"}


def run(pid, profiles, bfs=False, quick=500, ops=60):
    c = Check(pid)
    san = c.build("dom_driver", san=True)
    fast = c.build("dom_driver", out=os.path.join(c.dir, "dom_fast"), flags=("-O1",)) if bfs else None
    d = c.design("DomMC", "DomMC.cfg", "every state of a 7-node stock under all structural mutators; laws of tree, normalize, split, clone, lists")
    exe = san.wait()
    if bfs:
        f = fast.wait()
        out = os.path.join(c.dir, "bfs.ndjson")
        so = c.drive([f, "bfs", d.distinct + 40, out], out, "exhaustive small scope", timeout=200)
        c.validate("DomTrace", out, "exhaustive small scope")
        if so is not None:
            n = int(so.split()[1])
            c.cov["impl_states_small_scope"] = n
            if n != d.distinct:
                c.violation("the implementation reaches %d distinct states from the stock, the specification %d" % (n, d.distinct),
                            {"argv": ["dom_driver", "bfs"], "impl": n, "spec": d.distinct})
    rounds = 10 if c.thorough else 1
    for prof in profiles:
        for k in range(rounds):
            if len(c.violations) > 3:
                break
            out = os.path.join(c.dir, "t.ndjson")
            seed = c.seed + 1000 * k
            c.drive([exe, "rand", prof, seed, quick, ops if k % 3 else 2 * ops // 2, out], out, "profile %s seed %d" % (prof, seed))
            c.validate("DomTrace", out, "profile %s seed %d" % (prof, seed))
    c.assumptions = ["operations are called through the public proxy classes of std::string instantiation",
                     "random sequences of %d operations over two documents and at most ~40 nodes" % ops,
                     "memory errors are those AddressSanitizer and UBSan see"]
    c.finish()
