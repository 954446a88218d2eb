"""Runs harness cases concretely on the unmodified code (plain interpreter).

stdin: JSON lines {prop, shape, env, tier}; stdout: one JSON line per case.
"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)


def fresh():
    for n in [n for n in sys.modules if n == "htmltools" or n.startswith("htmltools.")]:
        del sys.modules[n]
    import htmltools
    import htmltools._jsx
    assert os.path.realpath(htmltools.__file__).startswith(os.path.realpath(REPO)), \
        htmltools.__file__
    return htmltools


def run_case(case, ht):
    import importlib
    from symx import session
    mod = importlib.import_module("props." + case["prop"].lower())
    ht = sys.modules.get("htmltools", ht)      # a harness may have imported it afresh
    S = session.ConcreteSession(case["env"], ht, case.get("tier", "quick"))
    S.shape = case["shape"]
    res = {"fails": [], "exc": None, "assume": True}
    hook = sys.displayhook
    try:
        mod.run(S, case["shape"])
    except session.AssumeFailed:
        res["assume"] = False
    except Exception as e:
        res["exc"] = "".join(traceback.format_exception_only(type(e), e)).strip()
        res["tb"] = traceback.format_exc(limit=-5)
    finally:
        sys.displayhook = hook
        if hasattr(mod, "cleanup"):
            mod.cleanup(S)
    res["fails"] = S.fails
    res["detail"] = [[a, b[:2000]] for a, b in S.detail[:3]]
    res["observed"] = S.observed
    res["checks"] = S.checks
    return res


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    ht = fresh()
    n = 0
    for line in sys.stdin:
        case = json.loads(line)
        n += 1
        try:
            r = run_case(case, ht)
        except BaseException as e:
            r = {"fails": [], "exc": None, "error": repr(e),
                 "tb": traceback.format_exc(limit=-5), "observed": [], "assume": True}
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
