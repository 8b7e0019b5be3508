#!/bin/bash
# builds the extractor
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash extract/build.sh "$PWD/build/kwsx"
