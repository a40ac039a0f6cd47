#!/bin/bash
# run.sh PROPERTY quick|thorough | run.sh PROPERTY --replay FILE
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
unset CFLAGS CXXFLAGS CPPFLAGS LDFLAGS
exec python3 "$(dirname "$0")/tools/run.py" "$@"
