#!/bin/bash
# usage: fixadd.sh P02 "what failed" [skip]  -> appends the (skip-th last) commit to known_findings
echo "fixed: property=$1 $(git -C /repo log --format=%h -1 --skip=${3:-0}) $2" >> /verif/known_findings.txt
