import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
have=[p["id"] for p in props if os.path.exists(f"{V}/props/{p['id'].lower()}.py")]
NA={"N":"pure function of its input: no schedule, clock, fault or interleaving enters, so deterministic simulation has nothing to decide",
"N05":"needs a GPU, which is not available here; the kernels cannot run inside the simulator",
"N06":"compilation is a deterministic single-threaded transformation of the program: no schedule or fault to simulate"}
notes=json.load(open(V+"/tools/levels.json")) if os.path.exists(V+"/tools/levels.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        n=notes.get(i,{})
        checks.append(dict(property=i,quick_cmd=f"/opt/venv/bin/python check.py {i}",thorough_cmd=f"/opt/venv/bin/python check.py {i} --thorough",evidence_file=f"evidence/{i}.json",
          technique=n.get("technique","deterministic simulation: seeded search over schedules and faults against a reference model"),level=n.get("level","exploration"),
          level_note=n.get("note","Seeded sampling of configurations, schedules and faults; evidence, not proof. Assumes the simulated interconnect matches NCCL semantics.")))
    else:
        na.append(dict(property=i,reason=NA.get(i,NA["N"]) if i.startswith("N") else "check under construction"))
m=dict(version=1,setup_cmd="/opt/venv/bin/python setup_check.py",hooks=dict(guard="none",enable="no hooks in /repo are needed: the simulator uses the torch.distributed process-group seam, import machinery and operator dispatch",source_commits=[]),checks=checks,not_applicable=na,notes="See DESIGN.md.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
