#!/usr/bin/env python3
"""Development tool (not part of any check): random syntactic mutations of HyperHDG's headers, run against the checks of the
properties that depend on the header; prints the mutants which no check reports.
usage: mutate.py N SEED OUT [file-regex]     (works in a clone /tmp/mut/w<SEED>)"""
import os, random, re, subprocess, sys
V = os.environ.get('VP_VERIF', '/verif')
MAP = {
 'dense_la.hxx': 'P01 P02 P03 P04 P05 P06 P07 P08 P09', 'wrapper/lapack.hxx': 'P07 P08 P09', 'mapping/linear.hxx': 'P10',
 'hypernodefactory.hxx': 'P11 P14', 'hypercube.hxx': 'P12', 'hdg_hypergraph.hxx': 'P13', 'hy_data_container.hxx': 'P13',
 'global_loop/elliptic.hxx': 'P14 P15 P16 P18 P23', 'global_loop/prototype.hxx': 'P14 P16 P18 P15', 'global_loop/parabolic.hxx': 'P14 P17 P18 P23',
 'global_loop/mass_approx_eigenvalue.hxx': 'P14 P15 P17 P18 P23', 'global_loop/nonlinear_eigenvalue.hxx': 'P14 P17 P18 P23',
 'global_loop/shifted_inverse_eigenvalue.hxx': 'P14 P15 P17 P18 P23', 'sparse_la.hxx': 'P20 P16', 'read_domain.hxx': 'P21',
 'epsilon_neighborhood_graph.hxx': 'P22', 'plot.hxx': 'P23 P24', 'hy_assert.hxx': 'P25', 'topology/cubic.hxx': 'P26', 'geometry/unit_cube.hxx': 'P26',
 'node_descriptor/cubic.hxx': 'P26', 'wrapper/tpcc.hxx': 'P26 P27', 'topology/file.hxx': 'P27', 'geometry/file.hxx': 'P27',
 'node_descriptor/file.hxx': 'P27', 'local_solver/diffusion_ldgh.hxx': 'P28', 'local_solver/diffusion_ip.hxx': 'P28', 'local_solver/diffusion_eigs_ldgh.hxx': 'P28',
 'local_solver/diffusion_uniform_ldgh.hxx': 'P28', 'local_solver/diffusion_ldgh_pp.hxx': 'P28', 'local_solver/diffusion_advection_reaction_ldg.hxx': 'P28',
 'local_solver/bilaplacian_ldgh.hxx': 'P29', 'local_solver/bilaplacian_eigs_ldgh.hxx': 'P29', 'local_solver/bilaplacian_uniform_ldgh.hxx': 'P29',
 'local_solver/diffusion_parab_ldgh.hxx': 'P30', 'local_solver/bilaplacian_parab_ldgh.hxx': 'P30', 'local_solver/advection_parab_ldgh.hxx': 'P30', 'local_solver/timoshenko_network.hxx': 'P31'}


def mask(s):
    """positions inside comments, strings, preprocessor lines, static_asserts and texts of assertions are masked"""
    m = bytearray(len(s))
    def put(a, b):
        for i in range(a, b):
            m[i] = 1
    for x in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|^[ \t]*#(?:[^\n]|\\\n)*|^[ \t]*(?:template|using|typedef|class|struct|namespace)\b[^\n]*', s, re.S | re.M):
        if x.group(0).lstrip().startswith('#define') :
            put(x.start(), s.index('\n', x.start()))
        else:
            put(x.start(), x.end())
    for x in re.finditer(r'static_assert\s*\([^;]*;|<<[^;]*', s):
        put(x.start(), x.end())
    return m


def mutants(s):
    m = mask(s)
    out = []
    def add(a, b, t, k):
        if a < b and not any(m[a:b]) and s[a:b] != t:
            out.append((a, b, t, k))
    for a, b in [('+=', '-='), ('-=', '+='), (' + ', ' - '), (' - ', ' + '), (' * ', ' + '), (' / ', ' * '), ('==', '!='), ('!=', '=='), (' < ', ' <= '),
                 (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), ('&&', '||'), ('||', '&&'), ('true', 'false'), ('false', 'true'),
                 (' % ', ' / '), ('++', '--')]:
        for x in re.finditer(re.escape(a), s):
            add(x.start(), x.end(), b, 'op')
    for x in re.finditer(r'(?<![\w.])(\d+)(\.?)(?![\w.])', s):
        n = int(x.group(1))
        add(x.start(), x.end(), '%d%s' % (n + 1, x.group(2)), 'const')
        if n:
            add(x.start(), x.end(), '%d%s' % (n - 1, x.group(2)), 'const')
    for x in re.finditer(r'\[([a-z]\w*)\]', s):
        ids = set(re.findall(r'\[([a-z]\w*)\]', s[max(0, x.start() - 300):x.end() + 300])) - {x.group(1)}
        for i in ids:
            add(x.start(), x.end(), '[%s]' % i, 'index')
        add(x.start(), x.end(), '[0]', 'index')
    for x in re.finditer(r'\btime\b(?=[,)])', s):
        add(x.start(), x.end(), '0.', 'time')
    for x in re.finditer(r'\(([\w\[\].]+), ([\w\[\].]+)([,)])', s):
        add(x.start(1), x.end(2), '%s, %s' % (x.group(2), x.group(1)), 'swap')
    for x in re.finditer(r'(?<=[;{}\n])\s*\n([ \t]+[\w\[\]().\->:, *+]+ [-+*/]?= [^;{}]+;|[ \t]+[\w.\->]+\([^;{}]*\);)', s):
        if not re.match(r'\s*(const|auto|for|if|while|return|unsigned|double|SmallVec|SmallMat|std::array|constexpr|static|hy_assert)', x.group(1)):
            add(x.start(1), x.end(1), ';', 'delete')
    for x in re.finditer(r'return ([^;{}]+);', s):
        pass
    return out


def main():
    n, seed, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pat = sys.argv[4] if len(sys.argv) > 4 else '.'
    w = '/tmp/mut/w%d' % seed
    if not os.path.isdir(w):
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    rnd = random.Random(seed)
    files = [f for f in MAP if re.search(pat, f)]
    todo = []
    for f in files:
        s = open('/repo/include/HyperHDG/' + f).read()
        ms = mutants(s)
        kinds = {}
        for x in ms:
            kinds.setdefault(x[3], []).append(x)
        for i in range(n):
            k = rnd.choice(sorted(kinds))
            todo.append((f, s, rnd.choice(kinds[k])))
    rnd.shuffle(todo)
    for f, s, (a, b, t, k) in todo:
        p = w + '/include/HyperHDG/' + f
        subprocess.run(['git', '-C', w, 'checkout', '-q', '.'], check=True)
        open(p, 'w').write(s[:a] + t + s[b:])
        diff = subprocess.run(['git', '-C', w, 'diff', '-U0'], capture_output=True, text=True).stdout
        diff = '\n'.join(l for l in diff.split('\n') if re.match(r'[-+@](?![-+])', l))
        verdict = 'SURVIVED'
        info = ''
        for prop in MAP[f].split():
            try:
                r = subprocess.run(['python3-vt', V + '/engine/check.py', prop], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VP_REPO=w, VP_EVID='/tmp/mut/ev%d' % seed))
            except subprocess.TimeoutExpired:
                info += ' %s:timeout' % prop
                continue
            if 'does not compile' in r.stdout + r.stderr:
                verdict = 'nocompile'
                break
            if r.returncode == 1:
                nf = all('no-failing-input-found' in l for l in r.stdout.split('\n') if l.startswith('VIOLATION'))
                verdict = 'caught%s %s' % ('-noinput' if nf else '', prop)
                break
            if 'UNDECIDED' in r.stdout or r.returncode:
                info += ' %s:rc%d:%s' % (prop, r.returncode, [l[:150] for l in r.stdout.split('\n') if 'UNDECIDED' in l][:2])
        with open(outp, 'a') as o:
            o.write('=== %s %s %s%s\n%s\n' % (verdict, f, k, info, diff))


main()
