#!/bin/bash
# Decides one property: rebuilds the simulator from /repo's working tree, explores, writes the evidence file.
exec python3 "$(dirname "$0")/tools/check.py" "$@"
