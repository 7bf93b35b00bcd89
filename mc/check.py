"""python3 mc/check.py <property> [quick|thorough] -- runs one property's check."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import common

MODULES = {"C07": "metrics", "C08": "metrics", "C09": "metrics", "C10": "metrics"}
MODULES.update({f"C{i:02}": "core" for i in (1, 2, 3, 4)}, C05="reporters", C06="reporters")
MODULES.update({f"C{i}": "driver" for i in (27, 28, 29, 30, 37)})
MODULES.update({f"C{i}": "stmts" for i in (16, 17, 19, 20, 21, 32)})
MODULES.update({f"C{i}": "decls" for i in (11, 18, 22, 23, 24)})
MODULES.update({f"C{i}": "scope" for i in (12, 13, 14, 15)})
MODULES.update({f"C{i}": "objc" for i in (25, 31, 33, 34)}, C26="lang", C35="robust", C36="robust", C41="robust", C38="scaffold", C39="docs", C40="paths")
if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(MODULES[pid])
    common.main(lambda: mod.check(pid))
