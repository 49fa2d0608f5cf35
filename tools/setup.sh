#!/bin/sh
# Nothing to prepare: every check builds what it needs from /repo in a scratch directory.
mkdir -p evidence && java -version >/dev/null 2>&1 && g++ --version >/dev/null
