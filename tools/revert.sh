#!/bin/bash
# For each repaired defect: put it back, see that its check reports it.
while read -r prop commit; do
  git -C /repo checkout -q -- .
  if ! git -C /repo diff $commit $commit~1 | git -C /repo apply -3 2>/tmp/rv/$commit.apply; then
     echo "$commit $prop CONFLICT"; git -C /repo checkout -q HEAD -- . ; git -C /repo reset -q; continue; fi
  git -C /repo reset -q
  (cd /verif; timeout 880 python3 bin/check.py $prop --tier quick > /tmp/rv/$commit.$prop 2>&1; echo "$commit $prop exit $? $(grep -c ^VIOLATION /tmp/rv/$commit.$prop)")
  git -C /repo checkout -q HEAD -- .
done < <(grep ^fixed /verif/known-findings.txt | sed -E 's/fixed: property=(C[0-9]+) ([0-9a-f]+) .*/\1 \2/')
git -C /repo status --short
