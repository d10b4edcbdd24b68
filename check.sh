#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3 -B -m vp "$1" "${2:-quick}"
