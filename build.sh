#!/bin/bash
# Build pyuvdata's compiled extensions in place from /repo's working tree.
# Same rule as /opt/vp/build.sh --extensions: content hashes decide what is stale.
exec bash /opt/vp/build.sh --extensions
