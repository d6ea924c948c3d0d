#!/usr/bin/env python3
"""Checks that what the checks need is there. Each check builds its own harness, from /repo's working tree, when it runs."""
import os, subprocess, sys
for p in ('/repo/src/main/cpp/Balau/BalauConfig.hpp.in', '/usr/include/boost/version.hpp'):
    if not os.path.exists(p):
        sys.exit('missing: ' + p)
subprocess.check_call(['g++', '--version'], stdout=subprocess.DEVNULL)
