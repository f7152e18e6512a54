#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")"
if [ ! -x bin/gosym ] || [ -n "$(find gosym -name '*.go' -newer bin/gosym -print -quit)" ]; then
	bash ./setup.sh >&2 || exit 3
fi
exec ./bin/gosym check "$1" "${2:-quick}"
