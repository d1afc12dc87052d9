# tools/why.py MODULE TRACE [n]: validates a recording and prints the events that fail (development aid)
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
t = os.path.abspath(sys.argv[2]); L = open(t).read().splitlines()
d = check.validate(sys.argv[1], t)
print(d["done"], len(d["bad"]))
for b in d["bad"][:int(sys.argv[3]) if len(sys.argv) > 3 else 10]: print(b.get("p"), b["why"], L[b["l"] - 1][:1500])
