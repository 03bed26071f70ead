#!/bin/bash
# builds the symbolic-execution engine (the checks rebuild it themselves when it is missing or out of date)
cd "$(dirname "$0")" && bash engine/build.sh
