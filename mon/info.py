import json
import sys

from mon import worker

p = worker.props()[sys.argv[1]]
print(json.dumps(dict(shards=p.shards, need=p.need, rule=" ".join(p.rule.split()),
                      assumptions=p.assumptions)))
