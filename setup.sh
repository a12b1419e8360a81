#!/bin/bash
# builds the symbolic executor; checks compile /repo's sources themselves
cd "$(dirname "$0")" && bash engine/build.sh && mkdir -p build/cache evidence
