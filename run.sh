#!/bin/sh
# developer helper: run several checks, keep the output short
for p in "$@"; do VMC_PROFILE=1 $(dirname $0)/check $p ${TIER:-quick} 2>&1 | cut -c1-900 | tail -40; done
