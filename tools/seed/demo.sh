#!/bin/bash
# Run with cwd at the source tree: exit 0 if the behaviour is right.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
