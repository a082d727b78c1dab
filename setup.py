#!/usr/bin/env python3
"""Builds the analyser and the library models."""
import sys
import check
try:
    check.build()
except check.NoVerdict as e:
    print(e)
    sys.exit(1)
