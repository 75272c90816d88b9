#!/usr/bin/env python3
"""replay.py <file> - re-executes a replay file against /repo's working tree, showing every step.  Exit 1 if it reproduces."""
import os, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import build  # noqa: E402

kind = 'plain'
for line in open(sys.argv[1]):
    if line.startswith('exe '):
        kind = line.split()[1]
sim, a0, a1 = build.build(kind)
sys.exit(subprocess.run([sim, 'replay', 'file=' + sys.argv[1], 'app0=' + a0, 'app1=' + a1, '-v']).returncode)
