#!/bin/bash
# Builds the verifier from the committed files, offline.
cd "$(dirname "$0")" && python3 -c 'import check; print(check.build_govc())'
