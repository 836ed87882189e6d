#!/bin/bash
# Builds the framework: the content mirror of /repo and its extension modules.
cd "$(dirname "$0")" || exit 2
exec python3 tools/build.py
