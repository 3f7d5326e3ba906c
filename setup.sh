#!/bin/bash
# Builds everything the checks need (each check builds its own part again if it is missing or out of date).
set -eu
cd "$(dirname "$0")"
python3 buildgen.py all
