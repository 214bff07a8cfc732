#!/bin/bash
# Builds the harness and the command line tool once; the checks rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" all || exit 1
echo "built $VMC"
