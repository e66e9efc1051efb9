#!/bin/bash
# Builds the IR exporter (the only compiled part of the framework).
cd "$(dirname "$0")" || exit 2
exec sa/build_irx.sh
