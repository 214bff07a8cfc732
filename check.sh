#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild from /repo's working tree and decide one property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
. "$here/build.sh" "$id" || exit 2
exec "$VMC" check "$id" "$tier"
