#!/bin/bash
# Builds the harness once, so that the build cache is warm. Checks build it again from /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh || exit 2
scratch="$(mktemp -d /tmp/verif-setup-XXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$here/harness" && go build -tags verif -buildvcs=false -o "$scratch/harness" .
