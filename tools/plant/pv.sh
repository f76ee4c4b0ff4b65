#!/bin/bash
# pv.sh args: run plant.py with a clone bound to /repo
D=/tmp/w/prepo; rm -rf $D; cp -a /repo $D
exec unshare -Urm sh -c "mount --bind $D /repo && cd /tmp/w/plant && exec python3 plant.py $*"
