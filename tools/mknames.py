"""Records the names private items have today, so that renaming one is not
mistaken for removing it.  usage: mknames.py MIR.json > analysis/names.json"""
import json
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/analysis")
import mir

d = json.load(open(sys.argv[1]))
json.dump(mir.inventory(d), sys.stdout, indent=0, sort_keys=True)
