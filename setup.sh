#!/bin/bash
# Builds the simulator once, which fills the build cache.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
. "$here/build.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/vsim-build-XXXXXX") || exit 2
trap '/bin/rm -rf "$work"' EXIT
vsim_build "$work" "" || exit 2
vsim_build "$work" -race || exit 2
