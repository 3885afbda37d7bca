#!/bin/bash
# build.sh OUT [ENTRY]: bundles the driver with the JavaScript clients of /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VP_REPO:-/repo}
exec /opt/veriftools/node/node_modules/.bin/esbuild "${2:-$here/driver.js}" --bundle --platform=node --format=cjs --log-level=error --outfile="$1" \
  "--alias:nifty-asset-js=$repo"/clients/js/asset/src/index.ts --alias:nifty-bridge-js="$repo"/clients/js/bridge/src/index.ts \
  --alias:nifty-proxy-js="$repo"/clients/js/proxy/src/index.ts \
  "--alias:@metaplex-foundation/umi/serializers=$here/serializers.js" "--alias:@metaplex-foundation/umi-serializers=$here/serializers.js" \
  "--alias:@metaplex-foundation/umi=$here/umi.js" \
  "--alias:@metaplex-foundation/mpl-toolbox=$here/mpl-toolbox.js" "--alias:@metaplex-foundation/mpl-token-metadata=$here/mpl-token-metadata.js"
