#!/bin/bash
# builds the engine from the committed files
cd "$(dirname "$0")" && . ./build.sh && echo "engine: $GOSYM"
