#!/usr/bin/env python3
"""Builds the MIR driver and the dependencies of every configuration, and dumps the current tree."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "engine")]
import build  # noqa: E402

build.dump(list(build.CONFIGS))
build.witness()
