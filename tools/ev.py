#!/usr/bin/env python3
import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p))
    print(p,e['wall_s'],'s', {k:v for k,v in e['coverage'].items() if isinstance(v,int)}, e['coverage']['notes'])
    for r in e['coverage']['runs']:
        if 'stats' in r: print('   ', {k:v for k,v in r['variant'].items() if k not in('aspects','fields','ops')}, r['stats'])
        else: print('   ', {k:(v if k!='constants' else '') for k,v in r.items()})
