#!/bin/bash
# dev helper: t.sh PROP [tier]
cd /verif && bash check.sh "$1" "${2:-quick}" 2>&1 | cut -c1-600 | tail -${3:-40}; echo "exit ${PIPESTATUS[0]}"
