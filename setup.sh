#!/bin/bash
# Builds what the checks share: Hypothesis from the offline wheelhouse and the compiled extensions
# (plain and sanitizer variants) for the current /repo sources. Every check repeats this when needed.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "lib")
import boot
boot.add_hypothesis()
boot.build_extensions("plain")
boot.build_extensions("asan")
print("setup done")
P
