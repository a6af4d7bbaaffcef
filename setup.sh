#!/bin/bash
# Builds the framework once (each check builds again what it needs from /repo's current tree).
cd "$(dirname "$0")" && . ./env.sh
(cd symex && cargo build --offline -q 2>/dev/null) && test -x symex/target/debug/symex && echo ready
