#!/bin/bash
# builds the analyser offline
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
go build -o ../bin/analyzer .
