#!/usr/bin/env python3
"""Checks that the tools are there; everything else is built by the checks from /repo's tree."""
import os, subprocess, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_NET_OFFLINE='true')
r = subprocess.run(['cargo', 'kani', '--version'], env=env)
sys.exit(r.returncode)
