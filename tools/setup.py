#!/usr/bin/env python3
"""Warms the object cache (library and drivers, address sanitizer). The checks
build whatever is missing themselves, so nothing depends on this."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from config import CHECKS
for d in sorted({(c['driver'], tuple(c.get('flavours', ['asan']))) for c in CHECKS.values()}):
    try:
        check.build(d[0], list(d[1]))
    except check.Broken as e:
        print('setup:', d, str(e)[-500:], file=sys.stderr)
