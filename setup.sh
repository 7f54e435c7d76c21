#!/bin/bash
# builds the verifier from the committed files (offline; dependencies are vendored); checks build it again, from the
# cache, because nothing is kept between runs
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
cd gocv && GOFLAGS=-mod=vendor GOWORK=off go build -o ../.build/gocv .
