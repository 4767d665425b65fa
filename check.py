#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))
sys.setrecursionlimit(20000)
import core
sys.exit(core.main(sys.argv[1:]))
