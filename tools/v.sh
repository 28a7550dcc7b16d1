#!/bin/bash
# development helper: rebuild the extractor, extract, verify
cd /verif/tools/extract && CARGO_TARGET_DIR=/verif/build/extract cargo +stable build --release --offline -q 2>&1 | grep -E "^error" -A8
cd /verif && tools/gen.sh build/gen || exit 1
python3 -c "import json
for i in json.load(open('build/gen/report.json'))['items']:
    if 'id' in i and (i['status'] not in ('verified', 'trusted') or i.get('problems')): print('extraction:', i.get('id', i), i.get('status'), i.get('problems'))" | cut -c1-300
cat verus/main.rs > build/gen/main.rs
cd build/gen && verus main.rs --crate-type=lib --triggers-mode silent --multiple-errors 6 "$@" 2>&1
