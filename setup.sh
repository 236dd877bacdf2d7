#!/bin/sh
# Builds the engine (the checks rebuild it, and the harnesses, when needed).
set -e
cd "$(dirname "$0")"
sh engine/build.sh
