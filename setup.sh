#!/bin/sh
# builds the simulator from the committed files and /repo once; every check rebuilds what changed
cd "$(dirname "$0")" && python3 tools/build.py && exec python3 tools/build.py --redzone
