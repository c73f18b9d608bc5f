#!/bin/bash
# builds the support crate once, so that the dependencies are compiled before the first check
cd "$(dirname "$0")" || exit 2
exec python3 -m opgv setup all
