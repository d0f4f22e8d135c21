#!/bin/bash
# addfix.sh PROPERTY COMMIT "what failed"
echo "fixed: property=$1 $2 $3" >> /verif/known_findings.txt
