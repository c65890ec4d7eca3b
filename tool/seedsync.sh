#!/bin/bash
# bring the scratch copy used by seed.py to /repo's HEAD
git -C /tmp/mw checkout -q -- . && git -C /tmp/mw pull -q /repo HEAD && git -C /tmp/mw log --oneline | head -1
