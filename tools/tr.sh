#!/bin/bash
# tr.sh EVENTS PROP : judge recorded filings by hand
cd "$(dirname "$0")/../spec"
EVENTS=$1 PROP=$2 tlc -workers 8 -metadir ../out/meta -config FilingTrace.cfg FilingTrace.tla
