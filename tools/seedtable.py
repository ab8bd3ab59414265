"""Writes the table of planted bugs into DESIGN.md."""
import json,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
rows=["| planted bug | caught by | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append("| "+" | ".join(str(x).replace('|','\\|') for x in (d,m['property'],m['what_it_breaks'],m['needs']))+" |")
f=root+'/DESIGN.md'; s=open(f).read()
s=re.sub(r'(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)',lambda k:k.group(1)+"\n".join(rows)+"\n"+k.group(2),s,flags=re.S)
open(f,'w').write(s)
