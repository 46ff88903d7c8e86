#!/bin/bash
# run with the repository as working directory, after it was built
exec /usr/bin/python3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
