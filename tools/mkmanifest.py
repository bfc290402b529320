import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={'C30':"The property quantifies over thread interleavings of Arc, atomics and thread-local state; Verus decides such claims only for code written with its own permission types and atomics, and Kani has no threads."}
LEVEL={}
try:
    import sys; sys.path.insert(0,V+'/tools'); import levels; LEVEL=levels.LEVEL
except ImportError: pass
ch=[]
for p in props:
    i=p['id']
    if i in NA: continue
    lv=LEVEL.get(i,('exploration','bounded execution of the real crate against the executable definition of the property (the proof of this property is not built yet)','bounded replay'))
    ch.append({"property":i,"quick_cmd":"VERIF_TIER=quick bin/check "+i,"thorough_cmd":"VERIF_TIER=thorough bin/check "+i,"evidence_file":"evidence/%s.json"%i,"technique":lv[2],"level":lv[0],"level_note":lv[1]})
m={"version":1,"setup_cmd":"bash tools/setup.sh","hooks":{"guard":"--cfg essay_verif","enable":"RUSTFLAGS='--cfg essay_verif' (replay/build.sh)","source_commits":["62c1695"]},"checks":ch,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
