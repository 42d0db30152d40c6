#!/bin/bash
# check.sh ID [quick|thorough]: decides one property for /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/setup.sh" || { echo "the checker does not build"; exit 2; }
exec "$here/checker/pargocheck" check "$1" "${2:-quick}"
