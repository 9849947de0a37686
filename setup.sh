#!/bin/sh
# Nothing is kept between runs: every check rebuilds from /repo. This only verifies that the tools are there.
cargo kani --version && verus --version | head -2 && python3 --version
