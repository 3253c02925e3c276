#!/bin/bash
# build.sh EXE REPO (cwd: the replay module)
go run ./cmd/shimbuild "$1" "$2" C17 refreshcache refreshcache0 refreshcache1
