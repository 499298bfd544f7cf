"""writes MANIFEST.json from properties.jsonl and the property modules that exist"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C30': 'pure functions of their arguments: no schedule, clock, I/O, fault or history for a simulation to decide (their effect on runs is covered through C01 and C02)',
 'C31': 'pure functions of their arguments: nothing nondeterministic or stateful to simulate (their effect on runs is covered through C01, C03 and C12)',
 'C32': 'pure construction of a fixed model from parameters: no schedule, clock, I/O, fault or history',
 'C33': 'pure functions over a list: no schedule, clock, I/O, fault or history (the part with a history, naming by loggers, is in C13)',
 'C34': 'pure translation of an input file; its XML reader depends on Python 2 only parts and it has no behaviour over time',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
    d = json.loads(line)
    pid = d['id']
    p = os.path.join(V, 'dst', 'props', pid.lower() + '.py')
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif os.path.exists(p):
        vals = {}
        for n in ast.parse(open(p, encoding='utf-8').read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    vals[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        checks.append(dict(
            property=pid,
            quick_cmd='./check %s --tier quick' % pid,
            thorough_cmd='./check %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique='deterministic simulation with fault injection: ' + vals['TECHNIQUE'],
            level='exploration',
            level_note=vals['NOTE']))
    else:
        na.append(dict(property=pid, reason='no check yet: to be decided by deterministic simulation, see DESIGN.md'))
m = dict(version=1,
         setup_cmd='./check --selftest',
         hooks=dict(guard='none', enable='no hook was added to /repo: the seams are the interpreter trace hook, patched clocks, a simulated socket module, resource limits in forked children and harness-defined controllers, constraints and observers', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='fix: commits in /repo are listed in KNOWN_FINDINGS.txt')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
