"""Validates properties.jsonl, MANIFEST.json and the evidence files
(python3-vt tools/validate.py)."""
import glob
import json
import os

import jsonschema

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def schema(n):
    return json.load(open('/root/.vp/%s.schema.json' % n))


for line in open(HERE + '/properties.jsonl'):
    jsonschema.validate(json.loads(line), schema('PROPERTIES'))
jsonschema.validate(json.load(open(HERE + '/MANIFEST.json')),
                    schema('MANIFEST'))
for f in glob.glob(HERE + '/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), schema('EVIDENCE'))
print('valid')
