#!/bin/bash
# builds the engine from the committed sources
cd "$(dirname "$0")/engine" || exit 1
. ../env.sh
mkdir -p ../bin && go build -o ../bin/symgo.tmp . && mv ../bin/symgo.tmp ../bin/symgo
