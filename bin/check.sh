#!/bin/bash
# usage: bin/check.sh <property> [quick|thorough]
cd "$(dirname "$0")/.." && exec python3 checks/main.py "$@"
