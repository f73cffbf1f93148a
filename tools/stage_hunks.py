#!/usr/bin/env python3
"""stage_hunks.py FILE N[,N...]: stage the given hunks (0-based) of /repo's FILE."""
import re, subprocess, sys
f, ns = sys.argv[1], [int(x) for x in sys.argv[2].split(",")]
d = subprocess.run(["git", "-C", "/repo", "diff", "-U1", f], capture_output=True, text=True, check=True).stdout
parts = re.split(r"(?m)^(?=@@ )", d)
sel = parts[0] + "".join(parts[1 + n] for n in ns)
subprocess.run(["git", "-C", "/repo", "apply", "--cached", "--unidiff-zero", "--recount", "-"], input=sel, text=True, check=True)
