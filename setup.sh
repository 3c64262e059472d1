#!/bin/bash
# Builds the driver and a first instrumented binary so that the caches are warm.
cd "$(dirname "${BASH_SOURCE[0]}")" && ./check.sh C01 quick -prime
