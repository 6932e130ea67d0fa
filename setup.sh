#!/usr/bin/env bash
# Builds the model checker from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 2
exec bash ./build.sh
