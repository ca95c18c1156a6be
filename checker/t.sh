#!/bin/bash
sh /verif/checker/b.sh && VERIF_LINT=1 VERIF_OUT=/tmp/vo /tmp/chk check "$@"
