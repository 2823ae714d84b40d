import json
PROPS=[l for l in open('/verif/properties.jsonl')]
ids=[json.loads(l)['id'] for l in PROPS]
claimed=[i for i in ids if int(i[1:])<20]
notes={
'C01':'Real Model/TriangleMesh OBJ writers over a simulated disk (or a simulated caller-supplied writer); oracle parses the bytes and compares them with the tessellation the same draws give.',
'C02':'Real STL writer over a simulated disk incl. failures at flush, seek and close; oracle recomputes every record.',
'C03':'Real point/outline writers over a simulated disk; oracle reads every number back bit for bit.',
'C04':'Real loader over simulated reads (splits, errors, truncation, bit flips, wrong size hints); reference parser as oracle.',
'C05':'Histories of saves/loads/faults/crashes/restarts against a small reference model of the file set.',
'C06':'Real SVG writer over a simulated disk; oracle parses the document and locates every drawn point on its curve.',
'C07':'Real STEP reader and parser over simulated reads; files are generated from a known model; truncation, damage, hash seed and read faults.',
'C08':'Every operation rerun in hostile environments (working directory, standard streams, clock, variables) and compared with the ordinary run; the file system is watched.',
'C09':'Crash (process death or a panicking caller face) at every kind of write boundary; oracle on the surviving bytes of every file.',
'C10':'Real threads serialised by a seeded scheduler with preemption at basic-block granularity; every result compared with the operation running alone.',
'C11':'Every random draw decided by the simulator (adversarial and seeded); invariants on parameters and points against an independent evaluator.',
'C12':'Every random draw decided by the simulator; the polygon is walked along its edges.',
'C13':'Every random draw decided by the simulator; exact-cover oracle by areas, orientation and point sampling.',
'C14':'Every random draw decided by the simulator; combinatorial and area oracle on the unrolled cylinder; step budget for progress.',
'C15':'Every random draw decided by the simulator; combinatorial and area oracle in the parameter domain; step budget for progress.',
'C16':'Histories of real operations (storage faults, panicking caller faces, look-alike arguments, shared objects) in one process; every operation compared with the same one in a fresh process.',
}
pure={
'C20':'basis values, end interpolation and convex hulls are pure functions of their arguments: no schedule, clock, I/O, randomness or fault can influence them, so there is nothing for a simulator to decide; plain input sampling would be another technique.',
'C21':'derivatives and normals are pure functions of their arguments; nothing for a simulator to schedule or to fail.',
'C22':'knot insertion, splitting, clamping and decomposition are pure functions of their arguments; nothing for a simulator to schedule or to fail.',
'C23':'projection onto a curve is a pure, deterministic computation on its arguments; nothing for a simulator to schedule or to fail (its environment- and thread-independence is covered by C08 and C10).',
'C24':'projection onto a surface is a pure, deterministic computation on its arguments (environment- and thread-independence is covered by C08 and C10).',
'C25':'untrimmed patch tessellation draws no random values and does no I/O; a pure function of its arguments.',
'C26':'evaluation of circles, cylinders, spin and sweep surfaces is a pure function of its arguments.',
'C27':'the polygon predicates are pure functions of their arguments (their use inside meshing under all draws is covered by C13-C15).',
}
m={'version':1,'setup_cmd':'./build.sh','checks':[],'not_applicable':[]}
for i in claimed:
    m['checks'].append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'./check.sh {i} thorough','evidence_file':f'evidence/{i}.json',
      'technique':'deterministic simulation with fault injection (seeded search)','level':'exploration','level_note':notes[i]})
for i in ids:
    if i not in claimed: m['not_applicable'].append({'property':i,'reason':pure[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
