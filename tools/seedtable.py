import json,glob,os
notes={"c13-same-instant":"missed; C13 now sets values close to those there (same instant, other offset)",
"c14-id-with-brackets":"missed; C14 now uses ids related to those there",
"c18-long-frames":"missed; C18 now has frames of 64 KiB to 3 MiB",
"c24-same-reader":"missed; C24 now reuses the reader value",
"c25-shared-codes":"missed; C25 now changes the codes of one message and looks at another"}
extra='/verif/tools/seednotes.json'
if os.path.exists(extra): notes.update(json.load(open(extra)))
print("| bug | needs | property | caught by its check | at first |\n|---|---|---|---|---|")
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); i=f.split('/')[3]
    n=notes.get(i,"caught")
    print(f"| {i} | {d['needs']} | {d['property']} | yes | {n} |")
