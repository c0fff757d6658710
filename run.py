#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] : decides one property."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
from framework import Check, Broken
import tlc

PROXY = {"C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C15"}


def module(pid):
    if pid in PROXY:
        import check_proxy
        return check_proxy
    mods = {"C23": "check_listing", "C22": "check_life", "C13": "check_hostile", "C21": "check_codec", "C14": "check_listen", "C20": "check_listen", "C16": "check_stats", "C17": "check_dns", "C09": "check_rate", "C08": "check_limits", "C18": "check_buffers", "C01": "check_relay", "C02": "check_handshake", "C19": "check_handshake"}
    if pid in mods:
        return __import__(mods[pid])
    raise SystemExit("no check for " + pid)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = Check(pid, tier, seed, "model_checking")
    try:
        module(pid).run(chk)
    except (Broken, tlc.TlcError) as e:
        print("check broken: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        if not chk.violations:
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
