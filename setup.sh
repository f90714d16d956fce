#!/bin/bash
# builds the framework's tools from the committed files (the checks rebuild what they need themselves)
cd "$(dirname "$0")" && exec python3 - <<'P'
import check
print(check.build_extract()); print(check.build_harness())
P
