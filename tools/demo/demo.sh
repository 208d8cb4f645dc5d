#!/bin/bash
# Runs the built program on the configuration beside this script and compares the report with the expected one.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
