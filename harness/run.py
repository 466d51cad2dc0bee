"""run.py PROP SEED TIER BUDGET OUT.json   |   run.py --replay FILE"""
import sys, json, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); f = d['failing_input']
        importlib.import_module('h_' + d['property'])
        c = [c for c in core.CASES if c.name == f['case']][0]
        st, msg, _ = core.run_one(c, f['seed'], f['index'])
        print(st, msg); print(json.dumps(core.describe(core.INPUT[0]), indent=1))
        sys.exit(1 if st == 'fail' else 0)
    prop, seed, tier, budget, out = sys.argv[1:6]
    importlib.import_module('h_' + prop)
    r = core.run_all(int(seed), tier, float(budget))
    json.dump(r, open(out, 'w'))
if __name__ == '__main__': main()
