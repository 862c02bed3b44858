python3 -c "
import json,sys;d=json.load(open(sys.argv[1]));print(d['message']);print(json.dumps(d['case']))" $1
