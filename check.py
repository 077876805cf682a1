#!/usr/bin/env python3
"""One property: compile /repo and the client contexts to LLVM IR, analyse, judge.

  check.py ID            (VERIF_TIER=quick|thorough)
Exit 0: held on everything analysed; 1: VIOLATION; 2: no answer.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GOOST_REPO', '/repo')
FLAGS = ['-w', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-include', 'array', '-DNDEBUG',
         '-D_GLIBCXX_ASSERTIONS', '-I' + REPO, '-emit-llvm', '-c']
# undefined behaviour that is a matter of object lifetime
LIFETIME = {'use-after-free', 'double-free', 'bad-free'}
# id -> (context files, prefixes of the contexts, which events count)
PROPS = {
    'C01': (['C01'], ['C01'], 'fatal'),
    'C02': (['C01'], ['C02'], 'fatal'),
    'C03': (['C03'], ['C03'], 'fatal'),
    'C04': (['C04'], ['C04'], 'fatal'),
    'C05': (['C05'], ['C05'], 'fatal'),
    'C06': (['C06'], ['C06'], 'fatal'),
    'C07': (['C07'], ['C07'], 'fatal'),
    'C08': (['C08'], ['C08'], 'fatal'),
    'C09': (['C09'], ['C09'], 'fatal'),
    'C10': (['C08'], ['C10'], 'fatal'),
    'C11': (['C11'], ['C11'], 'fatal'),
    'C12': (['C11'], ['C12'], 'fatal'),
    'C13': (['C11'], ['C13'], 'fatal'),
    'C14': (['C09'], ['C14'], 'fatal'),
    'C15': (['C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C16', 'C19', 'C22'],
            ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C21', 'C09', 'C14', 'C16', 'C19', 'C22'], 'events'),
    'C16': (['C16'], ['C16'], 'fatal'),
    'C17': (['C17'], ['C17'], 'threads'),
    'C18': (['C18'], ['C18'], 'fatal'),
    'C19': (['C19'], ['C19'], 'lifetime'),
    'C20': (['C16'], ['C16'], 'effects'),
    'C21': (['C11'], ['C21'], 'fatal'),
    'C22': (['C22'], ['C22'], 'lifetime'),
    'C23': (['C23'], ['C23'], 'fatal'),
    'C24': (['C23'], ['C24'], 'fatal'),
    'C25': (['C23'], ['C25'], 'fatal'),
    'C26': (['C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C16', 'C17', 'C18', 'C19', 'C22', 'C23'], [], 'interface'),
}
TITLES = {}
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    if line.strip():
        d = json.loads(line)
        TITLES[d['id']] = d['title']


def sources():
    """The library's translation units, as its build lists them."""
    try:
        text = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'ADD_LIBRARY\s*\(\s*goost\b(.*?)\)', text, re.S | re.I)
        lst = [x for x in m.group(1).split() if x.endswith('.cpp') and os.path.isfile(os.path.join(REPO, x))]
        if len(lst) >= 10:
            return lst
    except (OSError, AttributeError):
        pass
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'goost')):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def fail(msg):
    print('check: ' + msg)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_ir(tmp, files, jobs):
    todo = [(os.path.join(REPO, s), s.replace('/', '_') + '.bc') for s in sources()]
    todo += [(os.path.join(VERIF, 'contexts', f + '.cpp'), 'ctx_' + f + '.bc') for f in files + ['rt', 'std']]

    def one(t):
        r = run(['clang++-18'] + FLAGS + [t[0], '-o', os.path.join(tmp, t[1])])
        return t[0], r.returncode, r.stdout
    with cf.ThreadPoolExecutor(jobs) as ex:
        for src, rc, out in ex.map(one, todo):
            if rc:
                fail('%s does not compile:\n%s' % (src, out[-3000:]))
    raw, fin = os.path.join(tmp, 'all.raw'), os.path.join(tmp, 'all.bc')
    for cmd in (['llvm-link-18'] + [os.path.join(tmp, t[1]) for t in todo] + ['-o', raw], ['opt-18', '-passes=mem2reg,sroa', raw, '-o', fin]):
        r = run(cmd)
        if r.returncode:
            fail('%s failed:\n%s' % (cmd[0], r.stdout[-3000:]))
    return fin, [t[0] for t in todo if t[0].startswith(REPO + '/')]


def headers():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'goost')):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(('.h', '.hpp'))]
    return sorted(out)


def interface(tmp, files, jobs):
    """The public interface, decided by the compilers' front ends and the linker:
    one obligation per header, client, class and declared function."""
    hs = headers()
    obl, units = [], []          # (ok, where, rule, detail)

    def first_error(out):
        lines = [x for x in out.splitlines() if 'error' in x] or out.splitlines()[-1:]
        return ' | '.join(lines[:3]).replace(tmp + '/', '')

    def compiles(job):
        name, text, where, rule = job
        src = os.path.join(tmp, name)
        with open(src, 'w') as f:
            f.write(text)
        res = []
        for cc in ('clang++-18', 'g++'):
            if not shutil.which(cc):
                continue
            r = run([cc, '-w', '-std=c++17', '-I' + REPO, '-fsyntax-only', src])
            res.append((not r.returncode, where, rule, '%s: %s' % (cc, first_error(r.stdout)) if r.returncode else ''))
        return res
    inc = lambda l: ''.join('#include <%s>\n' % h for h in l)
    jobs_ = [('h%d.cpp' % i, inc([h]), h, 'a public header can be included alone, before anything else') for i, h in enumerate(hs)]
    jobs_ += [('t%d.cpp' % i, inc([h, h]), h, 'a public header can be included twice') for i, h in enumerate(hs)]
    jobs_ += [('p%d_%d.cpp' % (i, j), inc([hs[i], hs[j]]), '%s then %s' % (hs[i], hs[j]), 'two public headers can be included one after the other')
              for i in range(len(hs)) for j in ((i + 1) % len(hs), (i - 1) % len(hs))]
    jobs_ += [('all.cpp', inc(hs), 'all headers', 'all public headers together'), ('rev.cpp', inc(reversed(hs)), 'all headers, in reverse order', 'all public headers together')]

    def client(f):
        r = run(['clang++-18', '-w', '-std=c++17', '-include', 'array', '-I' + REPO, '-fsyntax-only', os.path.join(VERIF, 'contexts', f + '.cpp')])
        return [(not r.returncode, 'client ' + f, 'clients of the documented interface compile', first_error(r.stdout) if r.returncode else '')]

    def unit(s):
        r = run(['clang++-18'] + FLAGS + [os.path.join(REPO, s), '-o', os.path.join(tmp, s.replace('/', '_') + '.bc')])
        if r.returncode:
            fail('%s does not compile:\n%s' % (s, r.stdout[-3000:]))
        return s.replace('/', '_') + '.bc'
    with cf.ThreadPoolExecutor(jobs) as ex:
        for res in ex.map(compiles, jobs_):
            obl += res
        for res in ex.map(client, files):
            obl += res
        units = list(ex.map(unit, sources()))
    classes, declared, methods = {}, [], []
    if all(o[0] for o in obl if o[2].startswith('all public')):
        for n in ('all', 'rev'):
            r = run(['clang++-18'] + FLAGS + [os.path.join(tmp, n + '.cpp'), '-o', os.path.join(tmp, n + '.bc')])
            if r.returncode:
                fail('the headers do not compile:\n' + r.stdout[-2000:])
        raw = os.path.join(tmp, 'lib.raw')
        r = run(['llvm-link-18'] + [os.path.join(tmp, u) for u in units] + ['-o', raw])
        if r.returncode:
            fail('the library does not link:\n' + r.stdout[-2000:])
        r = run(['llvm-link-18', raw, os.path.join(tmp, 'all.bc'), os.path.join(tmp, 'rev.bc'), '-o', os.path.join(tmp, 'two.raw')])
        obl.append((not r.returncode, 'two files with all headers, and the library', 'what the headers define may be defined in any number of files', first_error(r.stdout) if r.returncode else ''))
        names = set()
        for line in run(['llvm-nm-18', '--defined-only', raw]).stdout.splitlines():
            m = re.match(r'\S+\s+([TtWwVvDdBbRr])\s+(\S+)', line.strip())
            if m and m.group(1).isupper():
                names.add(m.group(2))
        r = subprocess.run(['clang++-18', '-w', '-std=c++17', '-I' + REPO, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=goost', os.path.join(tmp, 'all.cpp')],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        dec, docs, i = json.JSONDecoder(), [], r.stdout.find('{')
        while i >= 0:
            d, i = dec.raw_decode(r.stdout, i)
            docs.append(d)
            i = r.stdout.find('{', i)

        def walk(n, scope, access, nested):
            k = n.get('kind')
            if k == 'NamespaceDecl':
                for c in n.get('inner', []):
                    walk(c, scope + n.get('name', '') + '::', 'public', False)
            elif k == 'CXXRecordDecl' and n.get('completeDefinition'):
                q = scope + n.get('name', '')
                dd = n.get('definitionData', {})
                cls = classes.setdefault(q, {'poly': dd.get('isPolymorphic', False), 'bases': [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])], 'vdtor': False, 'hidden': nested and access != 'public'})
                a = 'private' if n.get('tagUsed') == 'class' else 'public'
                for c in n.get('inner', []):
                    if c.get('kind') == 'AccessSpecDecl':
                        a = c.get('access', a)
                    elif c.get('kind') == 'CXXDestructorDecl':
                        cls['vdtor'] |= bool(c.get('virtual'))
                    if c.get('kind') != 'AccessSpecDecl':
                        walk(c, q + '::', a if not (nested and access != 'public') else 'private', True)
            elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl') and not n.get('isImplicit'):
                body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))
                t = n.get('type', {}).get('qualType', '')
                if not (body or n.get('pure') or n.get('explicitlyDeleted') or n.get('explicitlyDefaulted')):
                    declared.append((scope + n.get('name', '') + ' ' + t, n.get('mangledName', '')))
                if k == 'CXXMethodDecl' and access == 'public' and n.get('storageClass') != 'static' and not n.get('name', '').startswith('operator='):
                    methods.append((scope[:-2], scope + n.get('name', ''), t))
        for d in docs:
            walk(d, '', 'public', False)

        def vdtor(q, seen=()):
            c = classes.get(q)
            return c is not None and (c['vdtor'] or any(vdtor(b, seen + (q,)) for b in c['bases'] if b not in seen))
        for q, c in sorted(classes.items()):
            if c['poly']:
                obl.append((vdtor(q) or any(b.startswith('std::') for b in c['bases']) and c['vdtor'], q, 'an object can be destroyed through a pointer to its base', 'class %s has virtual functions and no virtual destructor' % q))
        # the classes users hold: those with an interface, and the values named here
        for q, what, t in methods:
            if q in classes and not classes[q]['hidden'] and (classes[q]['poly'] or q in ('goost::magma::Imit', 'goost::magma::EncryptionBase', 'goost::kuznyechik::Imit', 'goost::kuznyechik::Key', 'goost::gost89::DataImit', 'goost::gost89::ImitedBlock')):
                obl.append((re.search(r'\)\s*const\b', t) is not None, what, 'a public operation can be called on a const object', t))
        for what, m in sorted(set(declared)):
            alt = {m, re.sub(r'C1E', 'C2E', m), re.sub(r'D1E', 'D2E', m)}
            obl.append((bool(alt & names), what, 'what a public header declares is in the library', 'declared, never defined: ' + m))
        if len(classes) < 10 or len(declared) < 20:
            fail('the public interface could not be read')
    return {'results': [], 'static': [{'ok': o[0], 'where': o[1], 'rule': o[2], 'detail': o[3]} for o in obl],
            'functions': [[d[0], 'declared in a public header'] for d in sorted(set(declared))] + [[q, 'class'] for q in sorted(classes)]}


def known_ids(prop):
    out = {}
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'known:\s*(\S+)\s+property=(\S+)\s+(.*)', line)
        if m and m.group(2) == prop:
            out[m.group(1)] = m.group(3).strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    files, prefixes, mode = PROPS[prop]
    jobs = os.cpu_count() or 4
    if mode == 'interface':
        tmp = tempfile.mkdtemp(prefix='goost-check-')
        try:
            res = interface(tmp, files, jobs)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(judge(prop, tier, mode, res, headers(), ['check.py', prop], t0))
    analyzer = os.path.join(VERIF, 'build', 'analyzer')
    r = run(['make', '-s', '-j%d' % jobs, '-C', os.path.join(VERIF, 'analyzer'), 'OUT=' + os.path.join(VERIF, 'build')])
    if r.returncode:
        fail('the analyzer does not build:\n' + r.stdout[-3000:])
    tmp = tempfile.mkdtemp(prefix='goost-check-')
    try:
        ir, units = build_ir(tmp, files, jobs)
        cmd = [analyzer, ir, '--prop', ','.join(prefixes), '--jobs', str(jobs), '--repo', REPO + '/',
               '--limit', '700' if tier == 'quick' else '6000', '--case-limit', '400' if tier == 'quick' else '3000']
        if mode == 'effects':
            cmd.append('--effects')
        if tier == 'thorough':
            cmd.append('--thorough')
        p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
        try:
            res = json.loads(p.stdout)
        except ValueError:
            fail('the analyzer gave no answer (status %d)\n%s' % (p.returncode, p.stdout[-2000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(judge(prop, tier, mode, res, units, cmd, t0))


def judge(prop, tier, mode, res, units, cmd, t0):
    if res.get('init_error'):
        fail('initialisation of globals could not be analysed: ' + res['init_error'])
    known = known_ids(prop)
    viol, seen_known, undecided, funcs, notes = [], {}, [], {}, set()
    excused = total = disch = unknown = events_unconfirmed = 0
    steps = forks = loads = stores = 0
    contexts, names = set(), {}
    for t in res['results']:
        contexts.add(t['ctx'])
        steps += t.get('steps', 0); forks += t.get('forks', 0); loads += t.get('loads', 0); stores += t.get('stores', 0)
        at = '%s case %d' % (t['ctx'], t['case'])
        if 'undecided' in t:
            undecided.append(at + ': ' + t['undecided'])
        for f, where, seen, tot in t.get('visited', []):
            if where.startswith('goost/'):
                k = (f, where)
                funcs[k] = (max(seen, funcs.get(k, (0, 0))[0]), tot)
        notes.update(t.get('notes', []))
        own = mode != 'events'
        for o in t.get('obligations', []):
            if not own:
                continue
            total += o['count']
            names[o['name']] = names.get(o['name'], 0) + o['count']
            if o.get('known') and not o['violated']:
                if o['known'] in known:
                    seen_known.setdefault(o['known'], o['name'])
                    excused += o['count']
                else:
                    viol.append((at, o['name'], 'finding %s, which is not listed' % o['known'], ''))
                continue
            if o['violated']:
                viol.append((at, o['name'], o.get('detail', ''), o.get('where', '')))
            elif o['equal'] < o['bits']:
                unknown += 1
                undecided.append('%s: %s: %s' % (at, o['name'], o.get('detail', '')))
            else:
                disch += o['count']
        for e in t.get('events', []):
            counts = e['fatal'] or mode in ('events',) or (mode == 'lifetime' and e['kind'] in LIFETIME) or (mode == 'effects' and e['kind'] in ('global-write', 'init-input')) or (mode == 'threads' and e['kind'] in ('lock', 'unlock', 'deadlock')) or e['kind'] == 'deadlock'
            if counts and e['confirmed']:
                viol.append((at, e['kind'], '%s at %s; path: %s%s' % (e['msg'], e['where'], e['chain'], '; for example ' + e['witness'] if e['witness'] else ''), ''))
            elif not e['confirmed']:
                events_unconfirmed += 1
                if counts:
                    undecided.append('%s: %s %s at %s neither proved nor refuted' % (at, e['kind'], e['msg'], e['where']))
        if not own and 'undecided' not in t:
            # every access, shift, conversion and call on the way is one obligation
            total += t.get('loads', 0) + t.get('stores', 0)
            disch += t.get('loads', 0) + t.get('stores', 0) - len(t.get('events', []))
    # static results (effects pass)
    for o in res.get('static', []):
        total += 1
        if o['ok']:
            disch += 1
        else:
            viol.append((o['where'], o['rule'], o['detail'], ''))
    for f in res.get('functions', []):
        funcs[(f[0], f[1].replace(REPO + '/', ''))] = (1, 1)

    EV = os.environ.get('GOOST_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    replay = os.path.join(EV, prop + '.violation.txt')
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': 'VERIF_TIER=%s python3 /verif/check.py %s' % (tier, prop),
            'trusted_base': ['clang++-18 front end and mem2reg/sroa passes', '/verif/analyzer (abstract interpreter and bit domain)',
                             '/verif/contexts (client contexts, reference specifications, models of the C++ runtime in rt.cpp)'],
            'explanation': 'Abstract interpretation of the LLVM IR of the library under the client contexts listed; values are canonical forms over GF(2) with '
                           'uninterpreted collaborators; an obligation is discharged when both sides have the same form.' if mode not in ('effects', 'interface') else
                           'Front ends of clang and gcc over every public header alone, twice, in pairs and together, and over every client context; the type-checked program (AST) '
                           'for classes and declared functions; the linked IR for what is defined.' if mode == 'interface' else
                           'Reachability over the call graph of the library IR; every external function reached and every write to a global is one obligation.',
            'translation_units': len(units), 'contexts': sorted(contexts), 'cases': len(res['results']),
            'undecided': undecided[:50], 'undecided_count': len(undecided), 'unconfirmed_events': events_unconfirmed,
            'ir_instructions_interpreted': steps, 'joins_or_forks': forks, 'loads': loads, 'stores': stores,
            'obligation_names': names,
            'functions_analysed': ['%s (%s) blocks %d/%d' % (k[0][:140], k[1], v[0], v[1]) for k, v in sorted(funcs.items(), key=lambda x: x[0][1])],
            'functions_count': len(funcs), 'notes': sorted(notes)[:50],
            'obligations_excused_by_known_findings': excused, 'known_findings': ['%s %s' % (k, known[k]) for k in seen_known],
        },
        'assumptions': ['x86-64, little-endian, LP64', 'sizes and call sequences are those of the client contexts; contents, keys and registers are unrestricted'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if os.path.exists(replay):
        os.remove(replay)
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d obligations, %d discharged, %d undecided, %d functions of the library, %.1f s' % (
        prop, TITLES.get(prop, ''), len(res['results']), total, disch, len(undecided), len(funcs), time.time() - t0))
    for u in undecided[:10]:
        print('undecided: ' + u[:400])
    for k, name in seen_known.items():
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known[k]))
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s: %s\nanalysed with: %s\n\n' % (prop, TITLES.get(prop, ''), ' '.join(cmd)))
            for at, name, detail, where in viol:
                f.write('%s\n  %s\n  %s\n' % (at, name, detail))
                if where:
                    f.write('  code analysed for this obligation: %s\n' % where)
                f.write('\n')
        for at, name, detail, where in viol[:5]:
            print('violated: %s: %s: %s' % (at, name, detail[:1200]))
            if where:
                w = [x for x in where.split('; ') if '(goost/' in x]
                print('  in the code of: ' + '; '.join(w)[:800])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if disch == 0 or not funcs or (disch + excused) * 4 < total:
        print('check: too little could be decided')
        return 2
    return 0


main()
