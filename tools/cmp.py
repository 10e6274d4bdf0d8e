import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))
p=set(map(str,o['passed']));print(len(b),[x for x in b if str(x) not in p][:5])
