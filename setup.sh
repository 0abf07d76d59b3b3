#!/bin/bash
# Builds all variants of the harness once, so that a check only recompiles what changed.
here=$(cd "$(dirname "$0")" && pwd)
for v in dbg asan tsan; do "$here/build.sh" $v || exit 1; done
