# prints the table of planted bugs from seeded/*/meta.json and tools/caught.txt
import json,os,glob
c={l.split()[0]:l.split()[1] for l in open('/verif/tools/caught.txt') if l.strip()}
print("| planted bug | property | needs | caught by its quick check |\n|---|---|---|---|")
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    print("| %s | %s | %s | %s |"%(i,m['property'],m['needs'],c.get(i,'?')))
