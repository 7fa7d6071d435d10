#!/bin/bash
# builds what the checks need from committed files (idempotent, offline)
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence build
command -v frama-c >/dev/null && command -v clang >/dev/null || exit 1
exit 0
