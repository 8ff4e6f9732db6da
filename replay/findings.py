"""known findings (committed file; never written at run time)

  known: property=<id> [<name>] <what fails>

An obligation tagged finding:<name> that fails is the recorded defect; any other failing obligation is a violation."""
import os, re
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def text(pid, name):
    try:
        for l in open(FILE):
            m = re.match(r'known: property=(C\d+) \[([\w-]+)\] (.*)', l.strip())
            if m and m.group(1) == pid and m.group(2) == name:
                return m.group(3)
    except OSError:
        pass
    return None
