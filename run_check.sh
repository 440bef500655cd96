#!/bin/bash
# Usage: run_check.sh <property id> [--tier quick|thorough] [--replay FILE]
# Runs one check against /repo's current working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
exec env -i \
	HOME="${HOME:-/root}" LANG=C.UTF-8 TERM=dumb TMPDIR=/tmp \
	PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin \
	PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore \
	GIT_CONFIG_GLOBAL=/dev/null GIT_CONFIG_NOSYSTEM=1 GIT_ALLOW_PROTOCOL=file GIT_TERMINAL_PROMPT=0 \
	VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" VF_BUDGET="${VF_BUDGET:-}" VF_SHARDS="${VF_SHARDS:-}" VF_REPO="${VF_REPO:-/repo}" \
	/opt/venv/bin/python -m vf.runner "$@"
