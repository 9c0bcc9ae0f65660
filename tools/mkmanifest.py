import json,os,importlib,sys
sys.path.insert(0,'/verif')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTES=json.load(open('/verif/notes.json')) if os.path.exists('/verif/notes.json') else {}
checks=[];na=[]
PURE="A pure function of one input text: no schedule, clock, fault, I/O or interleaving takes part in it, so a simulator has nothing to decide; generating inputs would be property testing in simulator vocabulary."
for p in props:
    i=p['id']
    f=f'/verif/props/{i.lower()}.py'
    if i.startswith('N'):
        na.append({"property":i,"reason":PURE})
    elif os.path.exists(f):
        checks.append({"property":i,
          "quick_cmd":f"/opt/venv/bin/python run_check.py {i} --tier quick",
          "thorough_cmd":f"/opt/venv/bin/python run_check.py {i} --tier thorough",
          "technique":"deterministic simulation with fault injection: seeded search over schedules, faults and edits",
          "level":"exploration",
          "level_note":NOTES.get(i,"Seeded sampling of schedules and faults on the real code: evidence, not proof. Trusts the simulated system calls (sim/vfs.py) and the oracle in props/%s.py."%i.lower())})
    else:
        na.append({"property":i,"reason":"The check is not built yet."})
json.dump({"version":1,"setup_cmd":"/opt/venv/bin/python sim/selfcheck.py","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
