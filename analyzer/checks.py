"""Which rule decides which property."""
import os
import sys
import traceback

import core
import extract
import texts
import rules_transport as rt
import rules_wiring as rw
import rules_handshake as rh
import rules_message as rm
import rules_wire as rx
import rules_kind as rk
import rules_values as rv
import rules_safety as rs
import rules_round as rr

REG = {
    "C15": rs.check_panics,
    "C16": rs.check_leaks,
    "C06": rk.check_kinds,
    "C20": rv.check_accessors,
    "C21": rv.check_conversions,
    "C22": rv.check_defaults,
    "C24": rv.check_ids,
    "C25": rv.check_handlers,
    "C27": rv.check_equality,
    "C28": rv.check_root,
    "C01": rt.check_writer,
    "C02": rt.check_reader,
    "C10": rt.check_reader,
    "C11": rt.check_writer,
    "C12": rw.check_wiring,
    "C13": rw.check_join,
    "C14": rw.check_stdout,
    "C03": rm.check_methods,
    "C04": rm.check_encoding,
    "C05": rm.check_decoding,
    "C17": rx.check_members,
    "C18": rx.check_optional,
    "C19": rx.check_codes,
    "C26": rx.check_wide,
    "C07": rh.check_initialize,
    "C08": rh.check_shutdown,
    "C09": rh.check_responses,
    "C23": rh.check_send,
    "C30": rr.check_round,
    "C36": rv.check_sharing,
    "C37": rv.check_display,
    "C38": rs.check_total,
    "C29": rw.check_errors,
}


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    fn = REG[pid]
    t = texts.P[pid]
    chk = None
    try:
        chk = core.Check(pid, core.Programs(), tier)
        try:
            fn(chk)
            if tier == "thorough":
                # the same rule over the program a release build is made of
                chk.P = core.Programs(release=True)
                fn(chk)
        except core.Anchor as e:
            if not core.fresh(chk):
                raise
            print("incomplete: %s" % e)
        return core.finish(chk, t["explanation"], t["assume"], t["rule"])
    except (core.Anchor, extract.Broken) as e:
        print("cannot decide %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3
