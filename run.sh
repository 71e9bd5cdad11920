#!/bin/bash
# usage: bash run.sh <property> quick|thorough      |  bash run.sh <property> replay <file>
# Runs one check against /repo's working tree (imported directly; Python needs no build step).
cd "$(dirname "$0")" || exit 2
SCR=$(mktemp -d /tmp/verif-XXXXXX)
trap 'rm -rf -- "$SCR"' EXIT
mkdir -p "$SCR/home" "$SCR/work"
export RECAP_HOME="$SCR/home" HOME="$SCR/home" VERIF_SCRATCH="$SCR/work" TMPDIR="$SCR/work"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8 LANG=C.UTF-8
export PYTHONPATH=/repo:"$PWD" PYTHONWARNINGS=ignore
unset RECAP_URLS RECAP_SECRETS RECAP_REGISTRY_STORAGE_URL RECAP_REGISTRY_STORAGE_URL_ARGS
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY all_proxy ALL_PROXY
cd "$SCR/work" || exit 2        # load_dotenv must not pick up a stray .env
/opt/venv/bin/python -m mc.engine "$@"
