#!/usr/bin/env python3
"""Builds the replayers once, so that the first check finds a warm build cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
for cmd in sorted(os.listdir(os.path.join(vlib.V, 'harness', 'cmd'))):
    vlib.build(cmd)
