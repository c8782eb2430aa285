#!/bin/sh
# Nothing to build ahead of time: every check compiles the harness and /repo's
# current sources itself.  Only verify that the tools are there.
set -e
command -v g++ python3 >/dev/null
mkdir -p build evidence replays
echo "setup ok"
