#!/bin/bash
# addfix.sh <property> <commit-ish> <text>
c=$(git -C /repo rev-parse --short=10 "$2") || exit 1
echo "fixed: property=$1 $c $3" >> "$(dirname "$0")/../KNOWN_FINDINGS.txt"
