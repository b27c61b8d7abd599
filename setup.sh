#!/bin/bash
# Nothing is compiled: checks run the TypeScript of /repo directly. This only verifies that the runtime is there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
exec /opt/deno/deno --version
