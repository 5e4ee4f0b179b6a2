# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seeds.json
import json, os, re
first = json.load(open('tools/seeds.json'))
rows = ['| change | property | needs | caught at first? |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {first.get(d, 'yes')} |")
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
