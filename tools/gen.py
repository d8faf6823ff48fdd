import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
import registry as R
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in R.P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=p['hook'] or None)
        if p['state']:
            a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
na = {x['property'] for x in R.NA}
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         checks=[dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'], thorough_cmd='bash run.sh %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note'].strip())
                 for p in R.P if p['id'] not in na],
         not_applicable=R.NA,
         notes='Pure-Python code: every check imports /repo directly, so there is nothing to build; no hooks in /repo are needed. See DESIGN.md.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
