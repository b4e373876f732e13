#!/usr/bin/env python3
"""Decide one property on the current source of /repo.  usage: check.py <property id> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import checks

sys.exit(checks.main(sys.argv[1:]))
