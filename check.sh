#!/bin/bash
# check.sh ID...: decides the properties on the current source of /repo.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x bin/mlsvet ] || [ -n "$(find analyzer -name '*.go' -newer bin/mlsvet -not -path 'analyzer/vendor/*' -print -quit)" ]; then
	bash ./setup.sh || exit 2
fi
mkdir -p evidence
exec bin/mlsvet -repo "${VERIF_REPO:-/repo}" -check "$1" -out evidence -known known-findings.txt
