#!/bin/bash
# nothing is installed: every check builds the MIR dumper and the facts it needs in a temporary directory of its own.
# This only confirms that the toolchain the checks use is there.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
rustc +nightly --version && python3 --version
