#!/bin/bash
# usage: ./check.sh <property> quick|thorough
cd "$(dirname "$0")" && exec python3 tools/check.py "$1" "${2:-quick}"
