"""python3-vt tool/check.py <ID> [--tier quick|thorough]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
import checks_formula as cf
import checks_solver as cs
import checks_effect as ce
import checks_prop as cp
import checks_range as cr
import checks_round as cd
import checks_nan as cn

CHECKS = {"C01": cf.c01, "C02": cf.c02, "C06": cf.c06, "C07": cf.c07, "C08": cf.c08, "C09": cf.c09, "C10": cf.c10, "C11": cf.c11, "C12": cf.c12, "C21": cf.c21,
          "C03": cs.c03, "C04": cs.c04, "C05": cs.c05, "C13": cs.c13,
          "C14": ce.c14, "C15": ce.c15, "C16": ce.c16, "C17": ce.c17, "C18": ce.c18, "C27": ce.c27, "C28": cr.c28, "C29": cd.c29, "C30": cn.c30,
          "C19": cp.c19, "C20": cp.c20, "C22": cp.c22}
LEVEL = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    run = framework.Run(a.id, a.tier, LEVEL.get(a.id, "proof"))
    try:
        CHECKS[a.id](run)
    except framework.Missing as e:
        run.fact("anchor", str(e), "documented name exists", False if a.id == "C22" else None, dict(reason=str(e)))
        if a.id != "C22":
            print("ANALYSIS-BROKEN property=%s: %s" % (a.id, e))
            run.finish()
            return 2
    return run.finish()


if __name__ == "__main__":
    sys.exit(main())
