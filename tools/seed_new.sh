#!/bin/bash
# seed_new.sh ID PROPERTY : take the uncommitted change in the scratch copy /tmp/seedwork/repo as seeded/ID/patch.diff
set -e
ID=$1
mkdir -p /verif/seeded/$ID
git -C /tmp/seedwork/repo diff > /verif/seeded/$ID/patch.diff
git -C /tmp/seedwork/repo checkout -q -- .
