"""Compose DESIGN.md from its hand-written parts and from what the repository of checks says about itself."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
D = os.path.join(V, 'tools', 'design')
rd = lambda *a: open(os.path.join(V, *a)).read()


def assumptions(i):
    t = ast.parse(rd('harness', '%s.py' % i.lower()))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            return ast.unparse(n.value)
    return ''


def main():
    fixed = '\n'.join('- %s %s: %s' % (f['property'], f['commit'], f['what'].split(' ', 3)[3])
                      for f in map(json.loads, rd('known_findings.jsonl').splitlines()) if f['kind'] == 'fixed')
    out = [rd('tools', 'design', '1.md').replace('@@FIXED@@', fixed), rd('tools', 'design', '2.md')]
    props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
    stats = {}
    sf = os.path.join(D, 'stats.json')
    if os.path.exists(sf):
        stats = json.load(open(sf))
    for p in props:
        try:
            e = json.loads(rd('evidence', p['id'] + '.json'))
        except OSError:
            continue
        if e['tier'] != 'quick':
            continue
        c = e['coverage']
        bs = [j['bounds'] for j in c['jobs']]
        seen, pick = set(), []
        for b in bs[::max(1, len(bs) // 4)] + bs[-1:]:
            b = b.replace('\n', '\\n').replace('\r', '\\r')
            b = ''.join(ch if ch.isprintable() else '\\x%02x' % ord(ch) for ch in b)
            if b not in seen:
                seen.add(b)
                pick.append(b if len(b) < 150 else b[:147] + '...')
        stats[p['id']] = dict(jobs=len(bs), paths=c['states'], queries=c['solver_queries'], cert=c.get('certificate_queries', 0),
                              wall=round(e['wall_s']), sample=pick)
    json.dump(stats, open(sf, 'w'), indent=0, sort_keys=True)
    out.append('## 5. Bounds, assumptions and cost (quick tier)\n\n`queries` are those of Z3 while exploring; what structural simplification and character domains '
               'decide needs none. `certificates` are the whole-path queries to the second solver.\n')
    for p in props:
        s = stats.get(p['id'])
        out.append('**%s %s**' % (p['id'], p['title']))
        if s:
            out.append('%d jobs, %d paths, %d queries, %d certificates, about %d s. Some of the bounds:\n' % (
                s['jobs'], s['paths'], s['queries'], s['cert'], s['wall']) + '\n'.join('- `%s`' % b.replace('`', "'") for b in s['sample']))
        a = assumptions(p['id'])
        if a:
            a = a.replace('texts.ASSUMPTION', repr('text: see harness/texts.py ASSUMPTION')).replace('c19.ASSUMPTIONS', "'those of C19'")
            out.append('\nAssumptions: ' + '; '.join(x for x in _strings(a)) + '.\n')
    out.append(rd('tools', 'design', '3.md'))
    rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m))
        q = lambda x: str(x).replace('|', '\\|').replace('\n', ' ')
        rows.append('| %s | %s | %s | %s |' % (m.split('/')[-2], j['property'], q(j['what_it_breaks']), q(j['needs'])))
    out.append('\n'.join(rows))
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o.rstrip('\n') + '\n' if not o.startswith('**') else o for o in out))


def _strings(src):
    return [n.value for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Constant) and isinstance(n.value, str)]


main()
