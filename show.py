import json,sys
for p in sys.argv[1:]:
    e=json.load(open(f'evidence/{p}.json'))['coverage']
    for k,v in e['harnesses'].items(): print(p,k,'paths',v['paths'],'ended',v['ended'],'q',v['queries'],'solver',v['solver_s'],'wall',v['wall_s'],v['errors'] or '')
    print(p,'build',e['build_s'],'insts',e['ir_instructions_interpreted'],'maxq',e['max_query_s'])
