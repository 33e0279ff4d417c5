#!/usr/bin/env python3
import json,sys,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d=json.load(open(f'{here}/evidence/{i}.json'))
    print(i,d['tier'],'seed',d['seed'],'wall',d['wall_s'],'viol',d['violations'],d['coverage']['known_findings'])
    for t in d['coverage']['tests']: print('   ',t['test'],t['evaluations'],'nt',t['distinct_nontrivial'],t['classes'],'skip',t['skipped_after_budget'])
