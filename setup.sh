#!/bin/bash
# Builds the conformance driver against /repo's working tree.
set -e
cd "$(dirname "$0")"
exec python3 -c 'import check; check.build()'
