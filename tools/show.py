import json,sys
d=json.load(open(sys.argv[1]))
for s in d['scenarios']:
    print("%-26s b=%d %s ex=%d nodes=%d steps=%d out=%d div=%d unst=%d %.1fs lv=%s"%(s['name'],s['bound'],'ok' if s['complete'] else 'CUT',s['executions'],s['nodes'],s['steps'],s['outcomes'],s['diverged'],s['unstable'],s['wall'],s['levels']))
    for v in s['violations']: print('   V',v['sig'],v['count'],v['choices']); print('      ',v['msg'][:int(sys.argv[2]) if len(sys.argv)>2 else 600].replace('\n','\n       '))
