"""Configuration: which file, which folder, which values."""

import os
import shutil
import sys

from wmv import gen, pipeline, raster
from wmv.common import REPO
from wmv.pipeline import same, values

RULE = '''Two kinds of cases. Sequences of random configuration files are
set, and all options read after each. all_multipliers.py is run as a command
from different folders, with absolute and relative paths in the command line
and in the configuration, in folders with unusual names, through a link to
the program, with the configuration file of the program, with and without the log folder, repeatedly; its output must be
that of a run with absolute paths, at the place that is configured. Several
runs by one process with different configurations, that share some inputs,
give what each gives alone. Non-trivial: a run with relative paths or an unusual name, or several
configuration files.'''
ASSUMPTIONS = ['options that a configuration file leaves out are not '
               'checked']
MIN_COUNTS = {'processes': 12, 'options': 2000, 'compared_files': 300, 'default': 1, 'sequences': 2}
MIN_NONTRIVIAL = 10
preload = pipeline.preload
NAMES = ['case', 'a b', 'wm[1]', 'e1_s2', 'x.nc', "it's", 'z-{0}', 'm*',
         'mul_mz_n', '100%s', 'terrain', 'out#1', 'M3;x', '$HOME', 'a #1',
         'b ; c', '~', '${PATH}', 'h\u00e9', "'q'"]


def cases(rng, tier):
    n = 42 if tier == 'quick' else 600
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30),
               'kind': ['run', 'options'][i % 2], 'k': i // 2}
    for i in range(6 if tier == 'quick' else 80):
        yield {'seed': rng.randrange(1 << 30), 'kind': 'sequence', 'k': i}


def options(r, mon):
    from utilities.config import configparser as config
    import utilities.nctools as nctools
    import terrain.terrain_mult as tm
    import shielding.shield_mult as sm
    import all_multipliers as am
    users = [nctools.config, tm.config, sm.config, am.config]
    secs = {'inputValues': ['root', 'upwind_length', 'terrain_data',
                            'terrain_table', 'dem_data'],
            'Output': ['output_dir'],
            'Logging': ['LogFile', 'LogLevel', 'Verbose'],
            'Preprocessing': ['settlement_data', 'crop_mask', 'input_topo']}
    last = None
    for k in range(int(r.integers(2, 6))):
        # often the same file, with other contents
        fn = '%s/c%d.cfg' % (mon.tmp, k if r.random() < .6 else 0)
        val = {}
        with open(fn, 'w') as f:
            for s in secs:
                f.write('[%s]\n' % s)
                for o in secs[s]:
                    v = str(r.choice(['%d' % r.integers(1e9), '/a b/c%d.tif' %
                                      r.integers(99), '%(x)s', 'True',
                                      '1e-%d' % r.integers(9), 'x=y', '', '~/d',
                                      '$HOME/e', 'f #g', 'h ;i', '"j"',
                                      "'k'", '/l/../m/', 'n: o']))
                    val[s, o] = v.strip()
                    f.write('%s%s%s%s\n' % (
                        o if r.random() < .7 else o.upper(),
                        str(r.choice([' = ', '=', ': '])), v,
                        str(r.choice(['', '  ']))))
        mon.code(config.set_config_file, fn)
        last = val
        if r.random() < .5:
            try:
                config.set_config_file(mon.tmp + '/absent.cfg')
            except OSError:
                mon.count('refused')
            else:
                mon.fail('an absent configuration file is accepted')
        for (s, o), v in last.items():
            for c in users + [config]:
                mon.count('options')
                g = c.get(s, o)
                mon.check(g == v, 'option %s of %s is %r, the configuration '
                          'file set last says %r', o, s, g, v)
    mon.nontrivial = True


def sequence(r, mon, k):
    """Several runs by one process, each with its own configuration, as by a
    program that imports this one: each gives what it gives alone."""
    cases = [pipeline.small(r, mon.tmp, maxtiles=2, sub='case%d' % n,
                            px=1 / 12., empty=False) for n in range(2)]
    # the second only differs in some of its inputs, often
    a, b = cases
    if k % 3:
        b.up, b.tab = (a.up, gen.table(r, urban=.7)) if k % 2 else (
            a.up + .1, a.tab)
        shutil.copy(a.demfile, b.demfile)
        shutil.copy(a.lcfile, b.lcfile)
        gen.write_table(b.table, b.tab, 0)
        if k % 3 == 2:
            # and even the values are at the same paths
            b.demfile, b.lcfile = a.demfile, a.lcfile
        if k % 3 == 1:
            # or another elevation for the same output
            raster.write(b.demfile, a.dem[::-1, ::-1].copy(), a.x0, a.y0,
                         a.px, a.py, 'f4')
            b.out = a.out
        b.cfg = pipeline.write_cfg(
            b.root + '/run.cfg', root=b.root, up=b.up, lc=b.lcfile,
            table=b.table, dem=b.demfile, out=b.out,
            log=b.root + '/log/m.log')
    want = []
    for c in cases:
        pipeline.run(mon, c)
        want.append(values(c.out))
        mon.check(len(want[-1]) > 16, 'no output')
        shutil.rmtree(c.out)
    order = [(0, 1), (1, 0), (0, 1, 0), (1, 0, 1)][int(r.integers(4))]

    def child():
        import all_multipliers as am
        for n in order:
            sys.argv = ['all_multipliers.py', '-c', cases[n].cfg]
            am.run()
            shutil.rmtree(cases[n].root + '/result', ignore_errors=True)
            os.rename(cases[n].out, cases[n].root + '/result')
    log = os.path.join(mon.tmp, 'seq.log')
    rc = pipeline.forked(mon, child, mon.tmp, log=log)
    mon.check(rc == 0, 'runs with several configurations in one process: '
              'status %s:\n%s', rc, pipeline.tail(log))
    for c, w in zip(cases, want):
        same(mon, values(c.root + '/result'), w, 'runs with the configurations %s in one '
             'process' % (order,))
    mon.count('sequences')
    mon.state('sequence', k % 3, order)
    mon.nontrivial = True


def run_case(spec, mon):
    r = gen.nprng(spec['seed'])
    if spec['kind'] == 'sequence':
        sequence(r, mon, spec['k'])
        return
    if spec['kind'] == 'options':
        options(r, mon)
        return
    k = spec['k']
    name = NAMES[k % len(NAMES)]
    rel = k % 3 != 0
    case = pipeline.small(r, mon.tmp, maxtiles=2, relative=rel, sub=name,
                          px=1 / 12., empty=False)
    # the reference: absolute paths, a plain name
    plain = os.path.join(mon.tmp, 'plain')
    shutil.copytree(case.root + '/in', plain + '/in')
    cfg = pipeline.write_cfg(
        plain + '/run.cfg', root=plain, up=case.up, lc=plain + '/in/lc.tif',
        table=plain + '/in/table.csv', dem=plain + '/in/dem.tif',
        out=plain + '/out', log=plain + '/log/m.log')
    pipeline.run(mon, case, cwd=plain, cfg=cfg)
    want = values(plain + '/out')
    mon.check(len(want) > 16, 'no output')
    prog = os.path.join(REPO, 'all_multipliers.py')
    how = k % 4
    cwd = case.root
    conf = case.cfg
    if how == 1:
        conf = 'run.cfg'
    elif how == 2:
        # program by a relative path
        prog = os.path.relpath(prog, cwd)
        conf = './run.cfg'
    elif how == 3:
        os.symlink(prog, mon.tmp + '/wm.py')
        prog = mon.tmp + '/wm.py'
    elif not rel:
        cwd = mon.tmp + '/elsewhere'
        os.mkdir(cwd)
    argv = [prog, '-c', conf]
    if k % 5 == 4:
        # the configuration that comes with the program
        argv = [pipeline.copy_program(mon.tmp + '/program', case.cfg)]
        mon.count('default')
    if r.random() < .3:
        argv.insert(1, '-v')
    if r.random() < .4:
        os.makedirs(case.root + '/log')
    before = set(os.listdir(cwd))
    for n in range(1 + (r.random() < .2)):
        rc, text = pipeline.command(mon, argv, cwd)
        what = 'run of %s in %r (%s paths)' % (argv, cwd, 'relative' if rel
                                               else 'absolute')
        mon.check(rc == 0, '%s ended with status %s:\n%s', what, rc,
                  text[-2000:])
        same(mon, values(case.out), want, what)
    log = os.path.join(case.root, 'log/m.log')
    mon.check(os.path.exists(log), '%s: no log file at %s', what, log)
    with open(log) as f:
        text = f.read()
    mon.check('Successfully converted' in text, '%s: the log does not tell '
              'the end of the run', what)
    extra = set(os.listdir(cwd)) - before - {'log', 'out'}
    mon.check(not extra, '%s: left %s behind', what, sorted(extra))
    mon.state(name, rel, how)
    mon.nontrivial = True
