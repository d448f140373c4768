#!/bin/bash
# Builds the rewriter and the closed world once, which also warms the Go build cache.
cd "$(dirname "$0")/.." || exit 1
VERIF_SETUP=1 exec ./check.sh setup
