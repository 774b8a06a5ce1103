#!/bin/bash
# warms the Go build cache with the driver; every check builds it again from /repo
cd "$(dirname "$0")" || exit 1
exec python3 -c '
import check, os
exe, instr = check.build()
os.unlink(exe)
print("driver builds, instrumented:", instr)'
