#!/usr/bin/env python3
"""Builds the analyser from the committed sources."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import comp_effects  # noqa: E402
import sa  # noqa: E402

print(sa.zoneai(), comp_effects.irscan(), comp_effects.astscan())
