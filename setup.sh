#!/bin/bash
# Nothing to compile: checks that the interpreter and the package import in the simulator.
cd "$(dirname "$0")" && ./run P11 quick --runs 20
