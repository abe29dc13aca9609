"""known_findings.txt: `finding: property=<id> key=<mechanism> <text>` or
`fixed: property=<id> <commit> <text>`; only `finding:` lines suppress."""
import os
import re
from .core import VERIF


def load(pid):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
