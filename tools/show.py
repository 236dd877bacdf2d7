import sys,json
d=json.load(open(sys.argv[1])); lim=int(sys.argv[2]) if len(sys.argv)>2 else 6
def dec(v): return v
for e in d['entries']:
    print(e['entry'],{k:e[k] for k in('status','paths','panics','assumed_out','forks','instructions','queries','unsat','unknown','solver_s','max_query_s','asserts','discharged','trivial','violations','errors','wall_s')})
    for l,n in sorted(e['labels'].items()):
        print('    ',n,l)
    seen={}
    for ev in e['events']:
        if ev['ev']=='sample': continue
        k=(ev['ev'],ev.get('label'))
        seen[k]=seen.get(k,0)+1
        if seen[k]<=lim: print('   !',ev['ev'],ev.get('label'),ev.get('notes'),[v for _,v in ev.get('inputs',[])],ev.get('at') or '')
