#!/bin/bash
# Nothing has to be prepared: run.sh builds from /repo on every run. This warms the build cache;
# what the short run says does not matter here (the checks decide).
cd "$(dirname "$0")" || exit 1
./run.sh C03 quick -cases 500 > /dev/null 2>&1
./run.sh C15 quick -cases 50 > /dev/null 2>&1
exit 0
