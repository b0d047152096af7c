#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, domcheck
vlib.main(lambda: domcheck.run("C05", ["copy"], bfs=False))
