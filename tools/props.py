"""The properties: the single source of properties.jsonl and MANIFEST.json.

python3 tools/props.py   rewrites both (only properties that have a check in
wmv/checks, plus those in NOT_CLAIMED)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         technique, note, state=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe, 'hook_needed': None},
        '_technique': technique, '_note': ' '.join(note.split())})


REF = 'runtime monitoring: reference-model monitor over generated tiles'
AM = 'all_multipliers.py'

exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(
        HERE, 'wmv', 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in claimed:
            q = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(q) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'bash ./setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './run_check %s quick' % p['id'],
            'thorough_cmd': './run_check %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['_technique'],
            'level': 'exploration',
            'level_note': p['_note']} for p in claimed],
        'not_applicable': [],
        'notes': 'No hooks in /repo: the monitors observe public functions, '
                 'files, processes and (faked) MPI messages. Repairs of '
                 'genuine defects are the fix: commits listed in '
                 'known_findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed of', len(P))


if __name__ == '__main__':
    main()
