#!/bin/sh
# builds the MIR driver and the dependencies' metadata into /verif/.cache
cd "$(dirname "$0")" && exec python3 -B -m vp.build
