#!/bin/bash
# Regenerates h/tasks.go, the list of harnesses for the native replay.
cd "$(dirname "$0")/h" || exit 1
{
  echo "package h"
  echo
  echo "// Tasks names the harnesses for the native replay (gen_tasks.sh)."
  echo "var Tasks = map[string]func(){"
  grep -hoE '^func [A-Z][0-9]+_[A-Za-z0-9_]+\(\)' *.go | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\t"\1": \1,/' | sort
  echo "}"
} > tasks.go.tmp && mv tasks.go.tmp tasks.go && gofmt -w tasks.go
