# edit.py FILE: stdin = OLD\n====\nNEW ; exact unique replacement in /repo/FILE (several hunks separated by ####)
import sys
p='/repo/'+sys.argv[1]; s=open(p).read()
for h in sys.stdin.read().split('\n####\n'):
    o,n=h.split('\n====\n') if '\n====\n' in h else (h.split('\n====')[0],'')
    o=o.rstrip('\n'); n=n.rstrip('\n')
    assert s.count(o)==1,(s.count(o),o)
    s=s.replace(o,n)
open(p,'w').write(s)
