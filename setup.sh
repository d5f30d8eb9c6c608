#!/bin/bash
# Warms the Go build cache for the checks; every check rebuilds what it needs.
set -e
cd "$(dirname "$0")"
VERIF_SETUP=1 ./run.sh C02 quick
VERIF_SETUP=1 ./run.sh C10 quick
