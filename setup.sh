#!/bin/bash
# Everything is built offline from what is installed; a check builds again whatever changed.
exec "$(cd "$(dirname "$0")" && pwd)/build.sh"
