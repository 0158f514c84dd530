"""Print the case of a replay file."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core
for f in sys.argv[1:]:
    c = json.load(open(f))
    print(c['property'], c['sub'], c['message'])
    print(core.decode(c['case']))
