"""mark.py ID  (stdin: technique line, then note) - marks a property as built in properties.py"""
import re, sys
p = "/verif/spec/properties.py"
s = open(p).read()
ID = sys.argv[1]
tech, note = sys.stdin.read().strip().split("\n", 1)
i = s.index(f'prop("{ID}",')
j = s.find('\nprop("', i + 5)
j = len(s) if j < 0 else j
blk = s[i:j]
assert "built=True" not in blk
k = blk.rindex(")")
# drop a reason= argument if any
blk = blk[:k] + f',\n     built=True,\n     technique={tech.strip()!r},\n     note={" ".join(note.split())!r})' + blk[k+1:]
open(p, "w").write(s[:i] + blk + s[j:])
