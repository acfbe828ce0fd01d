#!/bin/bash
# Nothing is compiled ahead of time: every check builds what it needs from /repo's
# current tree. This only confirms that the tools the checks use are present.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B -c 'import numpy, scipy, numba, joblib, skimage, sklearn, astropy, Cython' || exit 1
command -v gcc >/dev/null || exit 1
gcc -print-file-name=libasan.so >/dev/null || exit 1
echo "setup ok"
