#!/bin/sh
# Nothing to build ahead: every check compiles the code under test and its harness itself. Verify the tools are there.
set -e
gcc --version >/dev/null
mkdir -p "$(dirname "$0")/../evidence"
