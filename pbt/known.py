"""KNOWN_FINDINGS.txt:  lines `finding: property=<id> id=<finding id> <what fails>` and
`fixed: property=<id> <commit> <what failed>`. Fixed entries suppress nothing."""
import os
import re

_LINE = re.compile(r"^finding: property=(\S+) id=(\S+) (.*)$")


def load(path):
    found = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = _LINE.match(line.rstrip("\n"))
                if m:
                    found[(m.group(1), m.group(2))] = "[%s] %s" % (m.group(2), m.group(3))
    return found
