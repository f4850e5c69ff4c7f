#!/usr/bin/env python3
"""check.py Cxx: decide one property (see DESIGN.md).  Exit 0 held, 1 violated, other: error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
AREAS = {"C01": "a_cb", "C02": "a_cb", "C03": "a_cb", "C04": "a_sema", "C05": "a_sema", "C06": "a_tb", "C07": "a_tb", "C08": "a_fw", "C09": "a_sw", "C10": "a_sw", "C11": "a_ttl", "C12": "a_ttl", "C13": "a_bus", "C14": "a_bus", "C15": "a_bus", "C16": "a_sched", "C17": "a_sched", "C18": "a_sched", "C19": "a_sched", "C20": "a_tm", "C21": "a_store", "C22": "a_store", "C23": "a_store", "C24": "a_load", "C25": "a_procs", "C26": "a_conf", "C27": "a_conf", "C28": "a_auth", "C29": "a_tls", "C30": "a_span", "C31": "a_span", "C32": "a_procs", "C33": "a_mask", "C34": "a_conn", "C35": "a_http", "C36": "a_conf", "C37": "a_span", "C38": "a_report", "C39": "a_mask"}


def main():
    pid = sys.argv[1]
    try:
        return importlib.import_module(AREAS[pid]).main(pid)
    except SystemExit:
        raise
    except BaseException as e:
        if hasattr(e, "report"):
            return e.report()
        traceback.print_exc()
        print("ERROR property=%s: the check could not decide" % pid)
        return 3


sys.exit(main())
