#!/bin/bash
# Builds the probe; warms the Go build cache.
cd "$(dirname "$0")/.." && mkdir -p build && gcc -O1 -o build/probe harness/native/probe.c
