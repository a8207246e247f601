#!/bin/bash
# Builds the framework once, which also shows that it builds; checks rebuild it
# from /repo's tree of the moment.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf -- "$work"' EXIT
cd "$here/harness" && go build -o "$work/x" . && "$work/x" -list
