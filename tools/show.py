import json,sys
d=json.load(open(sys.argv[1])); print(json.dumps(d['plan'])); print('\n'.join(d['events'][-12:])); print(d['signature'],d['message'])
