#!/bin/bash
# Pre-builds the symbolic executor, the IR and the replay binaries (the checks would do it themselves, and do it again when /repo has changed).
cd "$(dirname "$0")" && python3 check.py --build
