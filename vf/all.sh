#!/bin/bash
# All given checks one after another, briefly.
cd "$(dirname "$0")/.."
for c in "$@"; do /opt/venv/bin/python -m vf.run $c 2>&1 | tail -${LINES_EACH:-6}; echo "-> $c ${PIPESTATUS[0]}"; done
