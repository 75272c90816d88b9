#!/bin/bash
# Exit 0 when the property holds on the application in the current directory, non-zero otherwise.
exec python3 "$(dirname "$0")/kit/run.py"
