#!/bin/bash
# run.sh ID [quick|thorough]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export HOME=/root LANG=C.UTF-8 TZ=UTC NO_COLOR=1
export DENO_DIR=/opt/deno/cache DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1
mkdir -p evidence/replay
rm -f "evidence/replay/$id-"*.json "evidence/.progress-$id"
limit=300
[ "$tier" = thorough ] && limit=860
limit=${VERIF_LIMIT:-$limit}
scratch=$(mktemp -d /tmp/verif-check.XXXXXX)
trap '/bin/rm -rf "$scratch"' EXIT
export VERIF_SCRATCH=$scratch
timeout -k 5 "$limit" /opt/deno/deno run -A --no-check --cached-only --no-remote --no-npm \
  --config /repo/deno.jsonc --import-map /opt/mtkruto-deps/import_map.json --unstable-kv --v8-flags=--max-old-space-size=${VERIF_HEAP:-6000} \
  "checks/$id.ts" < /dev/null
rc=$?
if [ $rc -eq 124 ]; then
  # Every loop of a check is bounded by its own time budget (a fraction of this limit), so getting here
  # means that one single case has been running for minutes: the code under test does not terminate on it.
  if [ -f "evidence/.progress-$id" ]; then
    cp "evidence/.progress-$id" "evidence/replay/$id-hang.json"
    echo "VIOLATION property=$id replay=evidence/replay/$id-hang.json"
    echo "  the code under test did not return: $(cat "evidence/.progress-$id")"
    exit 1
  fi
fi
exit $rc
