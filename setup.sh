#!/bin/bash
# Warm the build cache: build the harness once against /repo's working tree.
set -u
exec "$(cd "$(dirname "$0")" && pwd)/run.sh" build
