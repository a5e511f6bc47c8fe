#!/bin/bash
# run all checks (or those given) in turn, quietly
for i in ${@:-$(ls /verif/drivers | grep -o 'C[0-9][0-9]')}; do /verif/check.sh $i 2>&1 | grep -E "^(OK|VIOLATION|MACHINERY|KNOWN)" | cut -c1-200; done
