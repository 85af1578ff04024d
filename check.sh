#!/bin/bash
# check.sh ID quick|thorough          run the monitors of one property
# check.sh replay FILE                run one recorded case again
exec /usr/bin/python3 "$(dirname "$(readlink -f "$0")")/lib/driver.py" "$@"
