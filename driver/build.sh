#!/bin/bash
# Builds the THIR dump driver into /verif/build/ (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
rustc +nightly --edition 2021 -o ../build/kdriver.tmp.$$ src/main.rs
mv ../build/kdriver.tmp.$$ ../build/kdriver
