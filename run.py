#!/usr/bin/env python3
"""Contract checks for wickr-crypto-c.  usage: run.py Cxx [--unit name] [--keep]

Every unit (units/*.c) holds the contract of one or more functions of /repo (precondition by construction of the
inputs, postcondition predicates, ghost state, executable contracts of the callees it replaces). The driver compiles
the real sources of /repo with goto-cc, inserts the loop contracts at the loop heads of a scratch copy, has CBMC
generate and discharge every obligation, and attributes failures to the property. See DESIGN.md."""
import sys, os, re, copy, json, subprocess, tempfile, shutil, time, resource
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units as UN

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/wickrcrypto/src'
INCS = [VERIF + '/lib', VERIF + '/lib/third', REPO + '/src/wickrcrypto/include/wickrcrypto', REPO + '/src/wickrcrypto/include/wickrcrypto/private',
        REPO + '/src/wickrcrypto/include', REPO + '/src/protobuf/gen']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CBMC_CHECKS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check', '--signed-overflow-check',
               '--undefined-shift-check', '--unwinding-assertions', '--no-malloc-may-fail']
MEM_LIMIT = 12 << 30

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    os.setpgrp()

def sh(cmd, timeout=None, cwd=None, lim=False):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=limits if lim else os.setpgrp)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return -999, 'TIMEOUT after %ss: %s' % (timeout, ' '.join(cmd)[:300]), time.time() - t0

# ---------------------------------------------------------------- loop contracts: mechanical insertion at loop heads
def mask(text):
    """same length text with comments and literals blanked"""
    def bl(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', bl, text, flags=re.S)

def match(m, i, o, c):
    d = 0
    for j in range(i, len(m)):
        if m[j] == o: d += 1
        elif m[j] == c:
            d -= 1
            if d == 0: return j
    raise ValueError('unbalanced')

def find_function(m, name):
    for k in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        e = match(m, m.index('(', k.start()), '(', ')')
        rest = m[e + 1:]
        g = re.match(r'\s*\{', rest)
        if g:
            s = e + 1 + g.end() - 1
            return s, match(m, s, '{', '}')
    raise ValueError('function %s not found' % name)

def inject(text, func, idx, macro):
    m = mask(text)
    s, e = find_function(m, func)
    loops = [k for k in re.finditer(r'\b(while|for)\s*\(', m[s:e])]
    # the `while` of a do-while is not a head
    heads = []
    for k in loops:
        o = s + m[s:e].index('(', k.start()); c = match(m, o, '(', ')')
        if k.group(1) == 'while' and re.match(r'\s*;', m[c + 1:]): continue
        heads.append((k.group(1), o, c))
    kind, o, c = heads[idx]
    # every variable the loop writes and does not declare itself must be handed to the contract by address (havoc set)
    b = c + 1
    while m[b].isspace(): b += 1
    e2 = match(m, b, '{', '}') if m[b] == '{' else m.index(';', b)
    hd, body = m[o + 1:c], m[b:e2]
    decl = set(re.findall(r'(?:\b[A-Za-z_]\w*[ \t]*[ *]+|,[ \t*]*)([A-Za-z_]\w*)\s*(?:=(?!=)|;|\[)', body)) - {'return', 'else', 'goto'}
    decl = {v for v in decl if re.search(r'\b(?!return\b|else\b|goto\b|case\b)[A-Za-z_]\w*(?:[ \t]+|[ \t]*\*+[ \t]*)%s\s*(?:=(?!=)|;|\[|,)' % v, body)}
    code = hd + ' ; ' + body
    wr = set(re.findall(r'(?<![\w.>\])])\b([A-Za-z_]\w*)\s*(?:=(?!=)|[-+*/%&|^]=|<<=|>>=|\+\+|--)', code)) | set(re.findall(r'(?:\+\+|--)\s*([A-Za-z_]\w*)\b(?!\s*(?:->|\.|\[))', code)) | set(re.findall(r'(?<!&)&\s*([A-Za-z_]\w*)\b(?!\s*(?:->|\.|\[))', re.sub(r'[\w)\]]\s*&', '', code)))
    miss = sorted(v for v in wr - decl if not re.search(r'&%s\b' % v, macro) and not re.search(r'\b%s\s*$' % v, ''))
    if miss: raise ValueError('%s: the loop writes %s, which its contract does not cover' % (func, ', '.join(miss)))
    if kind == 'while':
        return text[:o + 1] + macro + ', (' + text[o + 1:c] + ')' + text[c:]
    parts = []; d = 0
    for j in range(o + 1, c):
        if m[j] in '([{': d += 1
        elif m[j] in ')]}': d -= 1
        elif m[j] == ';' and d == 0: parts.append(j)
    a, b = parts
    cond = text[a + 1:b].strip() or '1'
    return text[:a + 1] + ' ' + macro + ', (' + cond + ')' + text[b:]

def udiv(text):
    """replace every `a / b` of the file by v_udiv(a, b) (the verifier then treats division as an uninterpreted function
    with the lemmas stated in lib/udiv.h; bit-level 64-bit division is out of reach of the SAT back end)"""
    out = text; m = mask(out); i = 0
    while True:
        k = re.compile(r'/(?![/*=])').search(m, i)
        if not k: return out
        i = k.start()
        line = m[m.rfind('\n', 0, i) + 1:i]
        if line.lstrip().startswith('#'): i += 1; continue
        j = i
        while m[j - 1].isspace(): j -= 1
        a = j
        while True:                                   # left operand, backwards
            if m[a - 1] in ')]':
                c = m[a - 1]; o = '([' [')]'.index(c)]; d = 0; a -= 1
                while True:
                    if m[a] == c: d += 1
                    elif m[a] == o:
                        d -= 1
                        if d == 0: break
                    a -= 1
                continue
            if m[a - 1].isalnum() or m[a - 1] in '_.': a -= 1; continue
            if m[a - 2:a] == '->': a -= 2; continue
            break
        b = i + 1
        while m[b].isspace(): b += 1
        while True:
            if m[b] in '([': b = match(m, b, m[b], ')]'['(['.index(m[b])]) + 1; continue
            if m[b].isalnum() or m[b] in '_.': b += 1; continue
            if m[b:b + 2] == '->': b += 2; continue
            break
        rep = 'v_udiv((%s), (%s))' % (out[a:j], out[i + 1:b].strip())
        out = out[:a] + rep + out[b:]; m = mask(out); i = a + len('v_udiv(')

# ---------------------------------------------------------------- one unit
class Result:
    def __init__(s, u): s.u = u; s.status = 'ok'; s.obl = {}; s.fail = []; s.note = ''; s.time = 0.0; s.mode = 'proof'; s.replay = None; s.reach = []; s.cmds = []

def defs(u): return ['-D' + d for d in u.defines]

_index = None
def index():
    """function name -> source file of /repo that defines it"""
    global _index
    if _index is None:
        ix = {}
        for f in sorted(os.listdir(SRC)):
            if f.endswith('.c'):
                for k in re.finditer(r'^[A-Za-z_][\w \t*]*?\b(\w+)\s*\([^;{}]*\)\s*\{', mask(open(SRC + '/' + f, errors='replace').read()), re.M):
                    ix.setdefault(k.group(1), f[:-2])
        _index = ix   # published only when complete: units are decided in parallel threads
    return _index

def src_path(f):
    return f if f.startswith('/') else '%s/%s.c' % (SRC, f)


def compile_real_goto(u, f, work, loops):
    path = src_path(f); base = os.path.basename(path)[:-2]
    todo = [l for l in (u.loops if loops else []) if l[0] == f]
    extra = []; o = '%s/%s.gb' % (work, base)
    if todo or f in u.udiv:
        text = open(path).read()
        if f in u.udiv:
            text = udiv(text); extra += ['-include', VERIF + '/lib/udiv.h']
        for (_, func, idx, macro) in sorted(todo, key=lambda l: (l[1], -l[2])):
            try: text = inject(text, func, idx, macro)
            except (ValueError, IndexError) as ex: return None, 'loop contract: %s' % ex
        path2 = '%s/%s_annot.c' % (work, base)
        open(path2, 'w').write('#line 1 "%s"\n%s' % (path, text)); path = path2
        extra += ['-I' + SRC]
        if todo: extra += ['-include', '%s/units/%s' % (VERIF, u.loop_header)]
    rc, out, _ = sh(['goto-cc', '-D__CPROVER'] + ['-I' + i for i in INCS] + defs(u) + ['-include', VERIF + '/lib/hook.h'] + extra + ['-c', path, '-o', o], 120)
    if rc: return None, 'goto-cc %s: %s' % (f, out[-1500:])
    if todo:
        # the contract must speak about the variables of the loop at their types
        rc, out, _ = sh(['gcc', '-fsyntax-only', '-w', '-Werror=incompatible-pointer-types', '-D__CPROVER'] + ['-I' + i for i in INCS] + defs(u) + ['-include', VERIF + '/lib/hook.h'] + extra + ['-c', path], 120)
        if 'incompatible pointer type' in out: return None, 'loop contract: a variable of the loop has another type now'
    own = [k for k, v in index().items() if v == f]
    # functions replaced by their contract in this unit
    drop = [k for k in u.stubs if k in own]
    if drop:
        o2 = '%s/%s_s.gb' % (work, base)
        cmd = ['goto-instrument']
        for k in drop: cmd += ['--remove-function-body', k]
        rc, out, _ = sh(cmd + [o, o2], 120)
        if rc: return None, 'remove-function-body: ' + out[-800:]
        o = o2
    return o, None

def fp_restrictions(gb):
    """the possible targets of each indirect call, as read off the linked program; goto-instrument turns each of them into an
    obligation (the pointer is one of these targets), so a wrong guess is reported, never assumed away"""
    rc, out, _ = sh(['goto-instrument', '--show-goto-functions', gb], 120)
    if rc: return []
    func = None; n = {}; calls = []; member = {}; args = {}
    for line in out.splitlines():
        g = re.match(r'^([\w$.]+) /\* \1 \*/', line)
        if g: func = g.group(1); continue
        g = re.search(r'ASSIGN .*\.(\w+) := (.*)$', line)
        if g and 'address_of(' in g.group(2):
            for f in re.findall(r'address_of\(([A-Za-z_]\w*)\)', g.group(2)): member.setdefault(g.group(1), set()).add(f)
        g = re.search(r'CALL (?:.*? := )?(\*?\(?.*)$', line)
        if g and 'CALL' in line:
            c = g.group(1)
            if c.startswith('*'):
                d = re.match(r'\*\((.*?)\)\(|\*([\w:$.]+)\(', c)
                n[func] = n.get(func, 0) + 1
                if c.startswith('*('):
                    e = match(c, 1, '(', ')'); x = c[2:e]
                else: x = c[1:c.index('(')]
                calls.append((func, n[func], x))
            else:
                k = re.match(r'([A-Za-z_]\w*)\(', c)
                if k:
                    for f in re.findall(r'address_of\(([A-Za-z_]\w*)\)', c): args.setdefault(k.group(1), set()).add(f)
    funcs = set(re.findall(r'^(\w+) /\* \1 \*/', out, re.M)); r = []
    for func, i, x in calls:
        g = re.search(r'\.(\w+)$', x)
        if g: t = member.get(g.group(1), set())
        else: t = args.get(func, set()) if re.match(r'%s::\w+$' % re.escape(func), x) else set()
        t = sorted(f for f in t if f in funcs)
        if t: r.append('%s.function_pointer_call.%d/%s' % (func, i, ','.join(t)))
    return r

def compile_goto(u, work, loops):
    os.makedirs(work, exist_ok=True)
    objs = []; have = []
    for f in u.real:
        o, err = compile_real_goto(u, f, work, loops)
        if o is None: return None, err
        objs.append(o); have.append(f)
    inc = ['-D__CPROVER'] + ['-I' + i for i in INCS] + defs(u)
    for f in [VERIF + '/lib/rt.c', '%s/units/%s' % (VERIF, u.src)] + [VERIF + '/lib/' + x for x in u.lib]:
        obj = '%s/v_%s.gb' % (work, os.path.basename(f).replace('.c', ''))
        rc, out, _ = sh(['goto-cc'] + inc + (['-DV_LOOPS'] if loops else []) + ['-c', f, '-o', obj], 120)
        if rc: return None, 'goto-cc %s: %s' % (f, out[-1500:])
        objs.append(obj)
    out_gb = work + '/unit.gb'
    for _ in range(12):
        rc, out, _ = sh(['goto-cc', '--function', 'harness'] + objs + ['-o', out_gb], 120)
        if rc: return None, 'link: ' + out[-1500:]
        # callees without a body: link the source file of /repo that defines them (their code is then part of the proof)
        rc, out, _ = sh(['goto-instrument', '--drop-unused-functions', out_gb, work + '/d.gb'], 120)
        rc, out, _ = sh(['goto-instrument', '--list-undefined-functions', work + '/d.gb'], 120)
        need = {index()[x] for x in re.findall(r'^(\w+)$', out, re.M) if x in index() and x not in u.stubs} - set(have)
        if not need: break
        for f in sorted(need):
            o, err = compile_real_goto(u, f, work, loops)
            if o is None: return None, err
            objs.append(o); have.append(f)
    cmds = []
    if not u.nofp:
        o2 = work + '/unit_fp.gb'
        r = fp_restrictions(out_gb)
        if r:
            cmd = ['goto-instrument'] + [x for a in r for x in ('--restrict-function-pointer', a)] + [out_gb, o2]
            rc, out, _ = sh(cmd, 120)
            if rc == 0: out_gb = o2
    if u.dfcc:
        o2 = work + '/unit2.gb'
        cmd = ['goto-instrument', '--dfcc', 'harness', '--enforce-contract', u.dfcc]
        for r in u.replace: cmd += ['--replace-call-with-contract', r]
        rc, out, _ = sh(cmd + [out_gb, o2], 300); cmds.append(' '.join(cmd))
        if rc: return None, 'goto-instrument: ' + out[-1500:]
        out_gb = o2
    return out_gb, cmds

LINE = re.compile(r'^\[(.+?)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')
FILEL = re.compile(r'^(\S.*) function (\S+)$')

def reached(gb):
    """functions in the static call graph of the harness (obligations elsewhere are not counted)"""
    rc, out, _ = sh(['goto-instrument', '--reachable-call-graph', gb], 120)
    r = {'harness'}
    for a, b in re.findall(r'^(\S+) -> (\S+)$', out, re.M): r |= {a, b}
    return r if rc == 0 and len(r) > 1 else None

def cbmc_cmd(u, gb, unwindset, extra=()):
    cmd = ['cbmc'] + CBMC_CHECKS + (['--sat-solver', u.solver] if u.solver else []) + ['--object-bits', str(u.object_bits)] + list(u.flags)
    us = ','.join('%s:%d' % kv for kv in sorted(unwindset.items()) if kv[0] != '*')
    if us: cmd += ['--unwindset', us]
    # loops without a bound of their own: a default, checked by unwinding assertions
    cmd += ['--unwind', str(unwindset.get('*', u.unwind or 12))]
    return cmd + list(extra) + [gb]

def groups_of(u, gb, unwindset):
    """the obligations of a unit in groups that are decided by separate runs in parallel (unwinding assertions are part of every run)"""
    rc, out, _ = sh(cbmc_cmd(u, gb, unwindset, ['--show-properties']), 120)
    names = re.findall(r'^Property (\S+):$', out, re.M); by = {}
    for n in names:
        f, k = n.split('.')[0], n.split('.')[1]
        by.setdefault(f if k == 'assertion' else '', []).append(n)
    return names, list(by.values())

def run_cbmc(u, gb, unwindset, timeout):
    if u.split:
        names, gs = groups_of(u, gb, unwindset)
        if len(gs) > 1:
            with ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda g: run_cbmc1(u, gb, unwindset, timeout, [x for n in g for x in ('--property', n)]), gs))
            cmd = cbmc_cmd(u, gb, unwindset) + ['(in %d groups of --property)' % len(gs)]; t = max(r[2] for r in rs)
            for r in rs:
                if r[0] is None: return None, r[1], t, cmd
            seen = {}
            for r in rs:
                for x in r[0]:
                    if x[0] not in seen or x[3] == 'FAILURE': seen[x[0]] = x
            missing = [n for n in names if n not in seen]
            if missing: return None, 'obligations not decided: ' + ' '.join(missing[:5]), t, cmd
            return list(seen.values()), '', t, cmd
    return run_cbmc1(u, gb, unwindset, timeout)

def run_cbmc1(u, gb, unwindset, timeout, extra=()):
    cmd = cbmc_cmd(u, gb, unwindset, extra)
    rc, out, t = sh(cmd, timeout, lim=True)
    if rc not in (0, 10): return None, 'cbmc rc=%s %s' % (rc, out[-1200:]), t, cmd
    res = []; where = ''
    for line in out.splitlines():
        g = LINE.match(line)
        if g: res.append((g.group(1), g.group(2), g.group(3), g.group(4), where)); continue
        g = FILEL.match(line)
        if g: where = g.group(1)
    if not res: return None, 'cbmc produced no obligations: ' + out[-800:], t, cmd
    if 'no body for' in out:
        missing = sorted(set(re.findall(r'no body for function (\S+)', out)))
        missing = [x for x in missing if x not in UN.NO_BODY_OK]
        if missing: return None, 'no body/contract for callee: ' + ' '.join(missing), t, cmd
    return res, '', t, cmd

def tape_of(u, gb, unwindset, prop, work, timeout):
    rc, out, t = sh(cbmc_cmd(u, gb, unwindset, ['--trace', '--json-ui', '--property', prop]), timeout, lim=True)
    try: js = json.loads(out)
    except ValueError: return None, None
    for msg in js:
        for r in (msg.get('result') or []) if isinstance(msg, dict) else []:
            if r.get('property') == prop and r.get('trace'):
                tape = []
                for s in r['trace']:
                    if s.get('stepType') == 'assignment' and s.get('lhs') == 'G.nd_val':
                        v = s['value']
                        if 'binary' in v: tape.append(int(v['binary'], 2))
                        else: tape.append(int(re.sub(r'[^0-9-]', '', v.get('data', '0')) or 0))
                return tape, r['trace']
    return None, None

CLANG = ['clang', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=alignment,function', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer',
        '-fPIC', '-fsemantic-interposition', '-fno-inline']
def build_native(u, work, out):
    """the same unit over the real sources, all of whose symbols are weak, so that the unit's callee contracts take precedence"""
    inc = ['-I' + i for i in INCS] + defs(u); objs = []
    lib = work + '/libreal.a'; real = []
    files = [f[:-2] for f in sorted(os.listdir(SRC)) if f.endswith('.c') and f not in ('kdf.c',)] + [f for f in u.real if f.startswith('/') or f == 'kdf']
    def one(f):
        o = '%s/n_%s.o' % (work, os.path.basename(f))
        rc, txt, _ = sh(CLANG + inc + ['-include', VERIF + '/lib/hook.h', '-c', src_path(f), '-o', o], 120)
        if rc: return None, txt
        sh(['objcopy', '--weaken', o], 60)
        return o, None
    files += sorted(REPO + '/src/protobuf/gen/' + f for f in os.listdir(REPO + '/src/protobuf/gen') if f.endswith('.c'))
    with ThreadPoolExecutor(8) as ex: got = list(ex.map(one, files))
    for o, txt in got:
        if o: real.append(o)
    rc, txt, _ = sh(['ar', 'rcs', lib] + real, 60)
    for f in [VERIF + '/lib/rt.c', '%s/units/%s' % (VERIF, u.src)] + [VERIF + '/lib/' + x for x in u.lib]:
        o = '%s/nv_%s.o' % (work, os.path.basename(f)); objs.append(o)
        rc, txt, _ = sh(CLANG + inc + ['-c', f, '-o', o], 120)
        if rc: return txt
    rc, txt, _ = sh(CLANG + objs + ['-Wl,--whole-archive', lib, '-Wl,--no-whole-archive', '-o', out, '-lcrypto', '-lprotobuf-c'] + u.native_libs, 120)
    return txt if rc else None

def native_search(u, work, tape, secs):
    """replay the verifier's counterexample, then search around it, on the real code built natively"""
    exe = work + '/native'
    if not u.native: return None, 'no native replay for this unit'
    err = build_native(u, work, exe)
    if err: return None, 'native build: ' + err[-800:]
    tp = work + '/trace.tape'; args = []
    if tape:
        open(tp, 'w').write('\n'.join(map(str, tape))); args = [tp]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096', UBSAN_OPTIONS='print_stacktrace=1')
    for seed in range(SEED, SEED + 4):
        p = subprocess.Popen([exe, str(secs / 4.0), str(seed), work + '/fail.tape'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work, preexec_fn=os.setpgrp)
        try: out, _ = p.communicate(timeout=secs / 4.0 + 20); out = out.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); out = p.communicate()[0].decode('utf-8', 'replace')
            if u.hang_is_failure: return 'hang', out + '\nHANG: the real code did not terminate'
            continue
        if p.returncode != 0: return 'seed %d%s' % (seed, ' with trace' if tape else ''), out
    return None, out

def relevant(u, prop, res):
    """split results into (reach, bound, obligations of this property)"""
    reach, bound, obl = [], [], []
    for r in res:
        pid, line, desc, st, where = r
        if desc.startswith(('REACH ', 'REACH? ')): reach.append(r); continue
        if '.unwind.' in pid or 'unwinding assertion' in desc or 'recursion unwinding' in desc: bound.append(r); continue
        g = re.match(r'POST (C\d+):', desc)
        if g and g.group(1) != prop: continue
        obl.append(r)
    return reach, bound, obl

def run_unit(u, prop, work, deadline):
    R = Result(u); t0 = time.time()
    def left(): return max(20, min(u.timeout, deadline - time.time()))
    attempts = []
    if u.loops: attempts = [('proof', True, dict(u.unwindset)), ('bounded', False, dict(u.unwindset, **u.bounded))]
    else: attempts = [('bounded' if u.bounded else 'proof', False, dict(u.unwindset, **u.bounded))]
    # when the proof cannot be applied to the code as it is now (a loop without contract, or one that moved): bounded stand-in
    attempts = [a if a[0] == 'proof' else (a[0], a[1], dict({'*': 4}, **a[2])) for a in attempts]
    if not u.loops: attempts.append(('bounded', False, dict({'*': 4}, **u.unwindset)))
    undecided = []; kept = None
    for mode, loops, us in attempts:
        w = '%s/%s-%s' % (work, u.name, mode)
        gb, info = compile_goto(u, w, loops)
        if gb is None: undecided.append('%s: %s' % (mode, info)); continue
        res, err, t, cmd = run_cbmc(u, gb, us, left())
        R.cmds = (info or []) + [' '.join(cmd).replace(work, '$W')]
        if res is None: undecided.append('%s: %s' % (mode, err)); continue
        fr = reached(gb)
        if fr: res = [r for r in res if r[3] != 'SUCCESS' or r[0].split('.')[0] in fr or r[2].startswith('REACH')]
        reach, bound, obl = relevant(u, prop, res)
        bad = [r for r in obl if r[3] != 'SUCCESS']
        # a pointer check whose status is UNKNOWN only follows another failure
        hard = [r for r in bad if r[3] == 'FAILURE'] or bad
        bfail = [r for r in bound if r[3] != 'SUCCESS']
        vac = [r for r in reach if r[3] == 'SUCCESS' and r[2].startswith('REACH ')]
        opt = [r[2][7:] for r in reach if r[3] == 'SUCCESS' and r[2].startswith('REACH? ')]
        # the rest of an execution after a failed unwinding assertion is not explored
        if mode == 'proof' and bfail and not hard:
            undecided.append('%s: unwinding assertion %s' % (mode, bfail[0][0])); 
            R.reach = reach
            # a loop that exceeds its proven bound: look for a concrete failure on the real code
            ev, out = native_search(u, w, None, u.native_secs)
            if ev: R.status = 'violation'; R.fail = bfail; R.replay = (ev, out, w, None, None); R.mode = mode; break
            continue
        if not u.nofp and any('dereferenced function pointer must be' in r[2] for r in hard):
            # the targets read off the program were incomplete: decide again with every candidate
            u2 = copy.copy(u); u2.nofp = True; R2 = run_unit(u2, prop, work + '/nofp', deadline); R2.u = u
            return R2
        R.mode = mode; R.obl = {(r[0], r[2]): r[3] for r in obl}; R.reach = reach
        if hard and mode == 'proof' and any('loop invariant on entry' in r[2] for r in hard):
            # the loop no longer starts where its contract says (rewritten, or wrong): a failing input on the real code decides,
            # then the stand-in without the loop contract; if that gives no answer, the failed obligation stands
            tape, trace = tape_of(u, gb, us, hard[0][0], w, left())
            ev, out = native_search(u, w, tape, u.native_secs)
            R.fail = hard; R.replay = (ev, out, w, tape, trace)
            if ev: R.status = 'violation'; break
            kept = (mode, R.obl, R.reach, R.fail, R.replay, R.cmds)
            undecided.append('%s: the loop contract does not hold of the loop as it is now (%s)' % (mode, '; '.join(sorted({r[2] for r in hard}))))
            continue
        if hard:
            R.fail = hard; R.status = 'violation'
            tape, trace = tape_of(u, gb, us, hard[0][0], w, left())
            ev, out = native_search(u, w, tape, u.native_secs)
            R.replay = (ev, out, w, tape, trace)
            break
        # a stand-in that takes the place of a proof only loses goals beyond its bound
        if vac and mode == 'bounded' and attempts[0][0] == 'proof' and len(vac) < len([r for r in reach if r[2].startswith('REACH ')]): opt += [r[2][6:] for r in vac]; vac = []
        if vac:
            undecided.append('%s: vacuous: %s' % (mode, '; '.join(r[2] for r in vac)))
            # the outcome the contract speaks about is never reached any more
            if mode == attempts[0][0]:
                R.status = 'violation'; R.fail = vac; ev, out = native_search(u, w, None, u.native_secs); R.replay = (ev, out, w, None, None); break
            continue
        R.status = 'ok'
        if opt: R.note = 'failure path not reachable in this program: %s' % '; '.join(opt)
        if mode == 'bounded' and undecided: R.note = 'loop contract could not be applied (%s): bounded stand-in, bounds %s' % ('; '.join(undecided)[:300], us)
        elif mode == 'bounded': R.note = 'bounded stand-in, bounds %s' % u.bounded
        break
    else:
        # neither the contract nor the stand-in could be decided: a concrete failure of the real code still counts
        w = '%s/%s-native' % (work, u.name); os.makedirs(w, exist_ok=True)
        if kept:
            R.mode, R.obl, R.reach, R.fail, R.replay, R.cmds = kept; R.status = 'violation'; R.time = time.time() - t0
            return R
        ev, out = native_search(u, w, None, u.native_secs)
        if ev: R.status = 'violation'; R.fail = [('undecided', None, '; '.join(undecided)[:400], 'UNDECIDED', '')]; R.replay = (ev, out, w, None, None)
        else: R.status = 'undecided'; R.note = '; '.join(undecided)
    R.time = time.time() - t0
    return R

def write_replay(prop, R):
    d = '%s/replays/%s' % (VERIF, prop); os.makedirs(d, exist_ok=True)
    path = '%s/%s.txt' % (d, R.u.name)
    ev, out, w, tape, trace = R.replay
    with open(path, 'w') as f:
        f.write('property %s  unit units/%s  contract of: %s\n' % (prop, R.u.src, ', '.join(R.u.functions)))
        f.write('verifier command: %s\n\nfailed obligations:\n' % ' ; '.join(R.cmds))
        for r in R.fail[:40]: f.write('  [%s] line %s %s: %s   (%s)\n' % (r[0], r[1], r[2], r[3], r[4]))
        f.write('\nreplay on the real code (ASan/UBSan build of the same unit and the sources of %s): %s\n' % (REPO, ev or 'no failing input found'))
        f.write((out or '')[-6000:] + '\n')
        if os.path.exists(w + '/fail.tape'): f.write('\nfailing choices (one per line, argument TAPE of lib/rt.c main):\n' + open(w + '/fail.tape').read()[:20000])
        if tape: f.write('\nchoices of the verifier counterexample:\n' + '\n'.join(map(str, tape)) + '\n')
        if trace:
            f.write('\nverifier trace (assignments):\n')
            n = 0
            for s in trace:
                if s.get('stepType') == 'assignment' and not s.get('hidden') and s.get('value', {}).get('data') is not None:
                    l = s.get('sourceLocation', {})
                    f.write('%s:%s %s = %s\n' % (os.path.basename(l.get('file', '')), l.get('line'), s.get('lhs'), s['value']['data'])); n += 1
                    if n > 1500: break
    return path

def main():
    prop = sys.argv[1]; only = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv else None
    todo = [u for u in UN.UNITS if prop in u.props and (only is None or u.name == only) and (TIER == 'thorough' or not u.thorough_only)]
    if not todo: print('no units for', prop); sys.exit(2)
    t0 = time.time(); deadline = t0 + (840 if TIER == 'quick' else 3300)
    index(); work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(run_unit, u, prop, work, deadline) for u in sorted(todo, key=lambda u: -u.weight)]
            results = [f.result() for f in futs]
        code = report(prop, results, t0, only)
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: print('work', work)
    sys.exit(code)

def known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            g = re.match(r'KNOWN property=(\S+) unit=(\S+) obligation="(.*?)" what="(.*)"', line)
            if g and g.group(1) == prop: out.append(g.groups())
    return out

def report(prop, results, t0, only):
    kn = known(prop); viol = 0; und = 0; kf = []
    total = disc = 0; cov_units = []; bounded = []
    for R in sorted(results, key=lambda r: r.u.name):
        n = len(R.obl); ok = sum(1 for v in R.obl.values() if v == 'SUCCESS')
        if R.status == 'violation':
            rest = []
            for f in R.fail:
                hit = [k for k in kn if k[1] == R.u.name and re.search(k[2], f[2])]
                if hit: kf.append(hit[0][3])
                else: rest.append(f)
            R.fail = rest
            if not rest: R.status = 'ok'
        total += n; disc += ok
        if R.mode == 'bounded': bounded.append(R.u.name)
        cov_units.append({'unit': R.u.name, 'functions_under_contract': R.u.functions, 'status': R.status, 'mode': R.mode, 'obligations': n, 'discharged': ok,
                          'reach_goals_confirmed': sum(1 for r in R.reach if r[3] == 'FAILURE'), 'wall_s': round(R.time, 1), 'note': R.note})
        print('%-28s %-10s %-8s obligations %d/%d reach %d  %.1fs %s' % (R.u.name, R.status, R.mode, ok, n, len(R.reach), R.time, R.note[:600]))
        if R.status == 'violation':
            viol += 1
            path = write_replay(prop, R)
            for f in R.fail[:6]: print('   failed obligation [%s] line %s %s (%s)' % (f[0], f[1], f[2], f[4]))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if R.replay[0] else ' no-failing-input-found'))
        elif R.status == 'undecided': und += 1
    for what in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (prop, what))
    fns = sorted({f for R in results for f in R.u.functions})
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof',
          'coverage': {'obligations': total, 'discharged': disc,
                       'checker_cmd': 'goto-cc + cbmc 6.11.0 (symbolic execution, MiniSat back end); per unit: ' + (results[0].cmds[-1] if results[0].cmds else ''),
                       'trusted_base': UN.TRUSTED + sorted({a for R in results for a in R.u.assumes}),
                       'functions_under_contract': fns, 'units': cov_units, 'bounded_units': bounded,
                       'solver_wall_s': round(sum(R.time for R in results), 1)},
          'assumptions': sorted({a for R in results for a in R.u.assumes}), 'wall_s': round(time.time() - t0, 1), 'violations': viol}
    if not only:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    if viol: return 1
    if und: print('UNDECIDED: %d unit(s)' % und); return 2
    print('property %s holds: %d obligations discharged over %d functions under contract' % (prop, disc, len(fns)))
    return 0

if __name__ == '__main__': main()
