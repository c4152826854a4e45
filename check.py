#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--job NAME]... [--keep]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vt, props


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, keep = [], False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--job': only.append(a[i + 1]); i += 1
        elif a[i] == '--keep': keep = True
        i += 1
    if pid == '--engine':
        vt.ensure_engine(); return 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    return vt.check_property(pid, props.PROPS[pid], tier, seed, only, keep)


sys.exit(main())
