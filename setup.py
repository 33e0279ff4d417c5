#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Every check builds what it runs."""
import os, subprocess, sys
go = "/opt/veriftools/go1.24.13/bin/go"
if not os.path.exists(go):
    sys.exit("no go toolchain at " + go)
if not os.path.isdir("/root/go/pkg/mod/pgregory.net/rapid@v1.3.0"):
    sys.exit("rapid v1.3.0 is not in the module cache")
print(subprocess.check_output([go, "version"], text=True, env=dict(os.environ, GOTOOLCHAIN="local")).strip())
