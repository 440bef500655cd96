#!/bin/bash
# Nothing to compile: confirm that the interpreter, hypothesis and the code under test can be imported.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
mkdir -p evidence out
exec ./run_check.sh --selftest
