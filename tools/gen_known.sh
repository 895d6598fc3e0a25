#!/bin/bash
# prints "hash subject" of all fix commits in /repo
git -C /repo log --reverse --format='%h %s' | grep ' fix:'
