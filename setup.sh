#!/bin/bash
# Compiles the harness against /repo once so that the checks start warm (they rebuild when /repo changes).
cd "$(dirname "$(realpath "$0")")"
exec ./check --build
