"""python3 check.py <property>: decide one property by static analysis of /repo's current sources."""
import importlib
import sys

sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.report import Check  # noqa: E402


def main():
    prop = sys.argv[1]
    ck = Check(prop)
    importlib.import_module("checks." + prop).run(ck)
    sys.exit(ck.finish())


main()
