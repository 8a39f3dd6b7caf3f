#!/bin/sh
# Regenerates h/registry.go, the table of the harnesses.
cd "$(dirname "$0")/h" || exit 1
{
	echo "// Code generated by genreg.sh. DO NOT EDIT."
	echo
	echo "package h"
	echo
	echo "// Registry names the harnesses for the native replay."
	echo "var Registry = map[string]func(){"
	grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*()' *.go | sed 's/^func //; s/()$//' | sort | while read -r n; do
		echo "	\"$n\": $n,"
	done
	echo "}"
} > registry.new && mv registry.new registry.go && gofmt -w registry.go
