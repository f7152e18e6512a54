import re,sys,os
R='/verif/tools/seed_results.tsv'
r={}
if os.path.exists(R):
    for l in open(R):
        a=l.rstrip('\n').split('\t'); r[a[0]]=a
for fn in sys.argv[1:]:
    for l in open(fn):
        m=re.match(r'(\S+): check (C\d+) rc=(\d+) (\d+)s ?(.*)',l)
        if m:
            h=re.search(r'harness (\w+): (.*)',m[5])
            r[m[1]]=[m[1],m[2],m[3],f"`{h[1]}`: {h[2]}" if h else '',m[4]]
open(R,'w').write(''.join('\t'.join(r[k])+'\n' for k in sorted(r)))
