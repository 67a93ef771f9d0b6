import json,sys
m={x['n']:x for x in json.load(open('/tmp/mut/mutants.json'))}
def show(x,c=''):
    print(f"#{x['n']} {x['file'][9:]}:{x['line']} [{x['kind']}] {x['old'][:110]!r} -> {x['new'][:110]!r} {c}")
if __name__=='__main__':
    seen=set(sys.argv[2:])
    for l in open(sys.argv[1]):
        r=json.loads(l)
        if r['caught'] is None:
            show(m[r['n']])
        rc={k:(v[0],v[1][-150:]) if isinstance(v,list) else v for k,v in r['rcs'].items() if 'monitor counter' not in str(v)}
        if rc: print('     ',r['n'],r['caught'],str(rc)[:400])
