#!/bin/bash
# Builds the harness against /repo's tree (checks build it again from whatever the tree then is).
set -e
cd "$(dirname "$0")"
. ./env.sh
cd harness && cargo build --offline
