#!/bin/bash
# nothing is compiled: verifies that the interpreter, the library and Hypothesis load
cd "$(dirname "$0")"
exec bash run.sh --selftest
