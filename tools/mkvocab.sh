#!/bin/sh
# regenerate engine/vocabulary.txt and engine/names.json from the current tree (never part of a check)
# vocabulary.txt: the library functions called by the analysed code, and those the rules name
cd "$(dirname "$0")/.." || exit 1
: > /tmp/vocab.$$
for p in $(python3 -c "import json;print(' '.join(x['property'] for x in json.load(open('MANIFEST.json'))['checks']))"); do
  VERIF_VOCABULARY=/tmp/vocab.$$ python3 check.py "$p" --tier thorough > /dev/null
done
grep -oh '"[A-Za-z_<>]*::[a-z_0-9]*"' rules/*.py engine/rl.py | tr -d '"' >> /tmp/vocab.$$
sort -u /tmp/vocab.$$ > engine/vocabulary.txt
rm -f /tmp/vocab.$$
# the names of the analysed items
python3 engine/names.py build/dump
