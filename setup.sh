#!/bin/bash
# Build everything the checks need (offline).
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$V/build.sh" && bash "$V/build.sh" asan && bash "$V/build.sh" tsan
