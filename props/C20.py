"""C20 - command lines of the simulators: documented switches, order, netlist, no state shared between runs."""
import os
import stat
import sys
import types
from pathlib import Path
from pyvc.api import *

ASSUMPTIONS = [
    "str.split is an uninterpreted sequence of words; str.strip is an uninterpreted function: its result is a part of the text without blanks at either end, and a text "
    "that starts and ends with a printable character is its own result; int() of a text succeeds or raises ValueError",
    "pathlib.Path, open and the process started by subprocess.run are trusted in the deductive part (ghost path: "
    "as_posix, absolute, with_suffix and suffix are functions of the path); the bounded part runs real processes",
]

LT = {k: (lambda p, k=k: [k]) for k in ('-alt', '-ascii', '-big', '-encrypt', '-FixUpSchematicFonts', '-FixUpSymbolFonts',
                                        '-max', '-netlist', '-norm', '-PCBnetlist', '-SOI', '-sync')}
LT['-fastaccess'] = lambda p: ['-FastAccess']
LT['-normal'] = lambda p: ['-norm']
LT['-ini'] = lambda p: ['-ini', p]
LT['-I'] = lambda p: ['-I' + p]
QS = {k: (lambda p, k=k: [k]) for k in ('-ASCII', '-binary', '-BSIM1', '-Meyer')}
QS['-ascii'] = lambda p: ['-ASCII']
for _k in ('-ProtectSelections', '-ProtectSubcircuits', '-r'):
    QS[_k] = lambda p, k=_k: [k, p]


def _if(cond):
    return lambda k: (lambda p: [k, p] if bool(cond(p)) else [])


def _lower_in(*vals):
    return lambda p: Or([p.lower() == v for v in vals])


XY = {k: (lambda p, k=k: [k]) for k in ('-capabilities', '-license', '-count', '-syntax', '-norun', '-quiet',
                                        '-jacobian_test', '-per-processor', '-a')}
for _k in ('-namesfile', '-noise_names_file', '-hspice-ext', '-delim', '-o', '-remeasure', '-linsolv', '-prf', '-rsf',
           '-plugin'):
    XY[_k] = lambda p, k=_k: [k, p]
XY['-redefined_params'] = _if(lambda p: Or([p == v for v in ('ignore', 'uselast', 'usefirst', 'warn', 'error')]))(
    '-redefined_params')
XY['-subckt_multiplier'] = _if(_lower_in('true', 'false'))('-subckt_multiplier')
XY['-local_variation'] = _if(_lower_in('true', 'false'))('-local_variation')
XY['-nox'] = _if(_lower_in('on', 'off'))('-nox')
for _k in ('-maxord', '-max-warnings', '-randseed'):
    XY[_k] = _if(int_text)(_k)
XY_OPTS = ('-param', '-doc', '-doc_cat')     # up to three words: device level inst|mod

NG = {k: (lambda p, k=k: [k]) for k in ('-i', '--interactive', '-n', '--no-spiceinit', '-q', '--completion', '-s',
                                        '--server')}
for _k in ('-c', '--circuitfile', '--soa-log', '-t', '--term'):
    NG[_k] = lambda p, k=_k: [k, p]

SIMS = {
    'LTspice': ('simulators.ltspice_simulator', 'LTspice', LT, ('-Run', '-b')),
    'Qspice': ('simulators.qspice_simulator', 'Qspice', QS, ('-o',)),
    'Xyce': ('simulators.xyce_simulator', 'XyceSimulator', XY, ('-l', '-r')),
    'NGspice': ('simulators.ngspice_simulator', 'NGspiceSimulator', NG,
                ('-b', '-o', '-r', '-a', '--batch', '--output', '--rawfile', '--autorun')),
}


def same_list(got, want):
    return And([isinstance(got, list), len(got) == len(want)] + [a == b for a, b in zip(got, want)])


def switch_contract(sim):
    mod, cname, table, filled = SIMS[sim]

    @prove('C20', f'{sim}: every switch is translated as documented', [f'{mod}:{cname}.valid_switch'], conc=60)
    def valid(vc):
        S = vc.mod(mod)
        cls = getattr(S, cname)
        names = sorted(table) + sorted(filled) + (sorted(XY_OPTS) if sim == 'Xyce' else []) + \
            (['-D', '--define'] if sim == 'NGspice' else [])
        sw = vc.str('switch', samples=names + [n[1:] for n in names] + [' ' + n + ' ' for n in names] +
                    ['', ' ', '-', '-nope', 'nope', '-D x', 'Run', '-b '])
        par = vc.str('parameter', samples=['', 'file.txt', 'a b', '/etc/a b/', 'C:\\x\\', '"q"', '<path>', 'True', 'off', 'ON', '3', 'x', 'warn', 'a=b',
                                           'ngbehavior=x'])
        if sim == 'NGspice':
            base, mode = cls, vc.choice('compatibility', ['kiltpsa', None])

            class cls(base):
                pass
            cls.set_compatibility_mode(mode)
        got, err = vc.raises(lambda: cls.valid_switch(sw, par), ValueError)
        s = sw.strip()
        if not bool(vc.len(s) > 0):
            return vc.check('an empty switch adds nothing', err is None and same_list(got, []))
        if bool(s[0] != '-'):
            s = '-' + s
        for n in names:
            if bool(s == n):
                break
        else:
            return vc.check('an unknown switch is rejected', err is not None)
        vc.check('a documented switch is accepted', err is None)
        if err is not None:
            return
        if n in filled:
            vc.check('a switch that is filled in anyway adds nothing', same_list(got, []))
        elif n in XY_OPTS and sim == 'Xyce':
            words = par.split()
            vc.check('the switch and its options, one by one',
                     And(vc.len(got) == 1 + vc.len(words), item(got, 0) == n,
                         Forall(0, vc.len(words), lambda j: item(got, j + 1) == at(words, j))))
        elif n in ('-D', '--define') and sim == 'NGspice':
            if mode and bool(par.strip().lower().startswith('ngbehavior')):
                vc.check('the compatibility mode is not set by a switch', same_list(got, []))
            elif bool(vc.len(par.strip()) > 0):
                vc.check('variable and value are defined', same_list(got, [n, par.strip()]))
        else:
            p = par.strip() if sim == 'NGspice' else par
            vc.check('the documented arguments', same_list(got, table[n](p)))


for _s in SIMS:
    switch_contract(_s)


# --- command lines --------------------------------------------------------------------------------------------------

import z3
from pyvc import core
_ABS = z3.Function('path.absolute', z3.StringSort(), z3.StringSort())
_SUF = z3.Function('path.with_suffix', z3.StringSort(), z3.StringSort(), z3.StringSort())
_EXT = z3.Function('path.suffix', z3.StringSort(), z3.StringSort())


class GhostPath:
    """a path known by its POSIX text only"""

    def __init__(self, text):
        self.text = text.text if isinstance(text, GhostPath) else text

    def as_posix(self):
        return self.text

    def absolute(self):
        return GhostPath(SStr(_ABS(to_z3(self.text))))

    def with_suffix(self, s):
        return GhostPath(SStr(_SUF(to_z3(self.text), to_z3(s))))

    @property
    def suffix(self):
        return SStr(_EXT(to_z3(self.text)))


class GhostFile:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def item(cmd, i):
    return at(cmd, i) if isinstance(cmd, SSeq) else cmd[i]


def command_contract(sim):
    mod, cname, table, filled = SIMS[sim]

    @prove('C20', f'{sim}: the command line of a run', [f'{mod}:{cname}.run'], internal=True, conc=0)
    def run(vc):
        if not vc.symbolic:
            return vc.assume(False)
        S = vc.mod(mod)
        E = vc.E
        exe = [vc.str('exe0'), vc.str('exe1')]
        available = vc.bool('available')
        platform = vc.choice('platform', ['linux', 'darwin', 'win32'] if sim == 'LTspice' else ['linux'])

        class Sim(getattr(S, cname)):
            spice_exe = list(exe)

            @classmethod
            def is_available(cls):
                return available
        mode = None
        if sim == 'NGspice':
            mode = vc.choice('compatibility', [None, 'kiltpsa', 'hs'])
            Sim.set_compatibility_mode(mode)
        native = False
        if sim == 'LTspice':
            S.sys = types.SimpleNamespace(platform=platform)
            native = platform == 'darwin' and not bool('wine' in exe[0].lower())
        calls, files = [], []
        code = vc.int('code')

        def run_function(command, timeout=None, stdout=None, stderr=None, cwd=None):
            calls.append((command, timeout, stdout, stderr, cwd))
            return code

        def opened(path, mode='r', *a, **k):
            f = GhostFile(path)
            files.append(f)
            return f
        vc.stub(S.run_function, 'run_function starts the command', run_function)
        vc.stub(S.Path, 'pathlib.Path', GhostPath)
        vc.stub(open, 'open', opened)
        kind = vc.choice('switches', ['none', 'text', 'list'])
        netlist = vc.str('netlist')
        if kind == 'none':
            sw, want = None, []
        elif kind == 'text':
            sw = vc.str('one')
            want = [sw]
        else:
            sw = vc.seq('switches', StrK)
            want = sw.copy()
        timeout, out, er, cwd = object(), object(), object(), object()
        log = vc.bool('exe_log')
        try:
            got, err = vc.raises(lambda: Sim.run(netlist, sw, timeout, out, er, cwd, log),
                                 S.SpiceSimulatorError, NotImplementedError)
        finally:
            if sim == 'LTspice':
                S.sys = sys
        if not bool(available):
            vc.check('without a simulator nothing is started and an error is raised',
                     err is not None and isinstance(err, S.SpiceSimulatorError) and not calls)
            return
        if err is not None:
            vc.check('only the native macOS LTspice refuses, and only schematics',
                     And(native, isinstance(err, NotImplementedError), not calls,
                         GhostPath(netlist).suffix.lower().endswith('.asc')))
            return
        vc.check('one command is started', len(calls) == 1)
        cmd, t, o, e, c = calls[0]
        vc.check('timeout and working directory are passed on', t is timeout and c is cwd)
        if bool(log):
            vc.check('the console goes to the .exe.log file', len(files) == 1 and o is files[0] and
                     e is S.subprocess.STDOUT)
        else:
            vc.check('the console is redirected as asked', not files and o is out and e is er)
        p = GhostPath(netlist)
        if sim == 'LTspice':
            pre = exe + (['-b', netlist] if native else
                         ['-Run', '-b', 'Z:' + netlist if platform != 'win32' else netlist])
            post = []
        elif sim == 'Qspice':
            a = p.absolute()
            pre, post = exe + ['-o', a.with_suffix('.log').as_posix(), a.as_posix()], []
        elif sim == 'Xyce':
            pre, post = exe, ['-l', p.with_suffix('.log').as_posix(), '-r', p.with_suffix('.raw').as_posix(), netlist]
        else:
            pre = exe
            post = (['-D', 'ngbehavior=' + mode] if mode is not None else []) + \
                ['-b', '-o', p.with_suffix('.log').as_posix(), '-r', p.with_suffix('.raw').as_posix(), netlist]
        n = vc.len(want)
        vc.check('nothing else is on the command line', vc.len(cmd) == len(pre) + n + len(post))
        vc.check('executable and batch options come as documented',
                 And([item(cmd, i) == x for i, x in enumerate(pre)]))
        vc.check('the requested switches, in their order',
                 Forall(0, n, lambda j: item(cmd, j + len(pre)) == at(want, j)) if isinstance(want, SSeq) else
                 And([item(cmd, len(pre) + j) == x for j, x in enumerate(want)]))
        vc.check('results and netlist come as documented',
                 And([item(cmd, len(pre) + n + i) == x for i, x in enumerate(post)]))
        vc.check('the exit code is returned', got is code or got == code)
        vc.check('the executable of the class is left alone', same_list(Sim.spice_exe, exe))
        if kind == 'list':
            vc.check('the switches of the caller are left alone',
                     And(vc.len(sw) == n, Forall(0, n, lambda j: at(sw, j) == at(want, j))))


for _s in SIMS:
    command_contract(_s)


@prove('C20', 'LTspice: the command line and the outcome of a netlist extraction',
       ['simulators.ltspice_simulator:LTspice.create_netlist'], internal=True, conc=0)
def create_netlist(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S = vc.mod('simulators.ltspice_simulator')
    exe = [vc.str('exe0'), vc.str('exe1')]
    available, there, code, log = vc.bool('available'), vc.bool('netlist exists'), vc.int('code'), vc.bool('exe_log')

    class Sim(S.LTspice):
        spice_exe = list(exe)

        @classmethod
        def is_available(cls):
            return available

    class Made(GhostPath):
        def with_suffix(self, s):
            return Made(super().with_suffix(s))

        def exists(self):
            asked.append(self.text)
            return there
    calls, files, asked = [], [], []

    def run_function(command, timeout=None, stdout=None, stderr=None, cwd=None):
        calls.append((command, timeout, stdout, stderr, cwd, len(asked)))
        return code

    def opened(path, mode='r', *a, **k):
        files.append(GhostFile(path))
        return files[-1]
    vc.stub(S.run_function, 'run_function starts the command', run_function)
    vc.stub(S.Path, 'pathlib.Path', Made)
    vc.stub(open, 'open', opened)
    ckt = vc.str('circuit')
    kind = vc.choice('switches', ['none', 'list'])
    sw = None if kind == 'none' else vc.seq('switches', StrK)
    want = [] if kind == 'none' else sw.copy()
    timeout, out, er, cwd = object(), object(), object(), object()
    got, err = vc.raises(lambda: Sim.create_netlist(ckt, sw, timeout, out, er, cwd, log), S.SpiceSimulatorError,
                         RuntimeError)
    if not bool(available):
        return vc.check('without a simulator nothing is started and an error is raised',
                        err is not None and isinstance(err, S.SpiceSimulatorError) and not calls)
    vc.check('one command is started', len(calls) == 1)
    cmd, t, o, e, c, early = calls[0]
    n = vc.len(want)
    vc.check('the command', And([vc.len(cmd) == 4 + n] + [item(cmd, i) == x for i, x in
                                                          enumerate(exe + ['-netlist', ckt])]))
    if kind == 'list':
        vc.check('the requested switches, in their order', Forall(0, n, lambda j: item(cmd, j + 4) == at(want, j)))
        vc.check('the switches of the caller are left alone',
                 And(vc.len(sw) == n, Forall(0, n, lambda j: at(sw, j) == at(want, j))))
    vc.check('timeout, directory and console are passed on', t is timeout and c is cwd and
             ((len(files) == 1 and o is files[0]) if bool(log) else (o is out and e is er and not files)))
    if err is None:
        vc.check('a netlist is reported only when it was made', And(code == 0, there, early == 0))
        vc.check('the netlist of the circuit', got.text == Made(ckt).with_suffix('.net').text)
    else:
        vc.check('it only fails when none was made', Or(code != 0, Not(there)))
    vc.check('the executable of the class is left alone', same_list(Sim.spice_exe, exe))


# --- bounded: real processes ----------------------------------------------------------------------------------------

SCRIPT = '''#!/bin/sh
d="$(dirname "$0")"
n=$(cat "$d/count"); n=$((n+1)); echo $n > "$d/count"
pwd > "$d/cwd.$n"
for a in "$@"; do printf '%s\\n' "$a"; done > "$d/args.$n"
echo console
echo trouble >&2
exit $(cat "$d/code")
'''


class Recorder:
    """an executable that writes down how it was called"""

    def __init__(self, d, name):
        self.dir = Path(d)
        self.dir.mkdir(parents=True, exist_ok=True)
        self.exe = self.dir / name
        self.exe.write_text(SCRIPT)
        self.exe.chmod(self.exe.stat().st_mode | stat.S_IXUSR)
        (self.dir / 'count').write_text('0')
        self.code(0)

    def code(self, c):
        (self.dir / 'code').write_text(str(c))

    def count(self):
        return int((self.dir / 'count').read_text())

    def last(self):
        n = self.count()
        return ((self.dir / f'args.{n}').read_text().split('\n')[:-1], (self.dir / f'cwd.{n}').read_text().strip())


def expected(sim, exe_extra, netlist, switches, mode):
    p = Path(netlist)
    if sim == 'LTspice':
        return exe_extra + ['-Run', '-b', 'Z:' + p.as_posix()] + switches
    if sim == 'Qspice':
        a = p.absolute()
        return exe_extra + ['-o', a.with_suffix('.log').as_posix(), a.as_posix()] + switches
    out = ['-r', p.with_suffix('.raw').as_posix(), p.as_posix()]
    if sim == 'Xyce':
        return exe_extra + switches + ['-l', p.with_suffix('.log').as_posix()] + out
    return exe_extra + switches + (['-D', f'ngbehavior={mode}'] if mode else []) + \
        ['-b', '-o', p.with_suffix('.log').as_posix()] + out


PARAMS = ['', 'file.txt', 'dir/my lib', 'x.ini', 'all', 'true', 'False', 'on', 'OFF', '3', '-1', '4.5', 'warn', 'ignore',
          'TAB', 'a,b,c', 'filetype=ascii', 'NGBEHAVIOR=ps', 'D 2  inst', '+7', '1e3', ' x=1 ', '/opt/my lib/', 'C:\\lib\\', '"a b"', './x//y',
          '<path>', '-alt']
UNKNOWN = ['-nope', 'nope', '-asciii', '--alt', '-', '-r2', '--', '-Z', 'alt2']


def want_switch(sim, sw, par, mode=None):
    """documented translation, or None when the switch is not known, or ... when the documentation leaves it open"""
    mod, cname, table, filled = SIMS[sim]
    if sw is None or not sw.strip():
        return []
    s = sw.strip()
    s = s if s[0] == '-' else '-' + s
    if s in filled:
        return []
    if sim == 'NGspice':
        par = par.strip()
        if s in ('-D', '--define'):
            if mode and par.lower().startswith('ngbehavior'):
                return []
            return [s, par] if par else ...
    if sim == 'Xyce' and s in XY_OPTS:
        return [s] + par.split()
    if s in table:
        return table[s](par)
    return None


@bounded('C20', 'every switch with every kind of parameter, asked for twice',
         [f'{m}:{c}.valid_switch' for m, c, _, _ in SIMS.values()])
def switch_sweep(bx):
    base = {s: bx.mod(SIMS[s][0]) for s in SIMS}
    for rng in bx.each(1, 3):
        for s in SIMS:
            cls = type('Sim' + s, (getattr(base[s], SIMS[s][1]),), {})
            names = sorted(SIMS[s][2]) + list(SIMS[s][3]) + (['-D', '--define'] if s == 'NGspice' else []) + \
                (list(XY_OPTS) if s == 'Xyce' else [])
            todo = [(f, par) for n in names for f in (n, f' {n} ', n[1:]) for par in PARAMS] + \
                [(n, '') for n in UNKNOWN] + [(None, 'x'), ('', 'x'), ('  ', '')]
            rng.shuffle(todo)
            for sw, par in todo:
                if sw and sw.startswith('-') and not sw[1:].strip('-'):
                    continue
                for again in (False, True):
                    case = dict(sim=s, switch=sw, parameter=par, again=again)
                    want = want_switch(s, sw, par, 'kiltpsa' if s == 'NGspice' else None)
                    try:
                        got = cls.valid_switch(sw, par)
                    except ValueError:
                        bx.check(want is None, 'a documented switch is accepted', case)
                        continue
                    if want is not ...:
                        bx.check(want is not None and got == want, 'the documented arguments',
                                 lambda: dict(case, got=got, want=want))
                    if got:
                        got[0] = '-changed'       # the list belongs to the caller
                        got.append('-mine')
        bx.done(dict(switches='all'))


@bounded('C20', 'sequences of switches and runs of all simulators started for real',
         [f'{m}:{c}.{f}' for m, c, _, _ in SIMS.values() for f in ('run', 'valid_switch')] +
         ['simulators.ltspice_simulator:LTspice.create_netlist', 'sim.simulator:run_function',
          'sim.simulator:Simulator.create_from', 'sim.simulator:Simulator.is_available',
          'simulators.ngspice_simulator:NGspiceSimulator.set_compatibility_mode',
          'sim.sim_runner:SimRunner.add_command_line_switch', 'sim.sim_runner:SimRunner.clear_command_line_switches'])
def sequences(bx):
    base = {s: bx.mod(SIMS[s][0]) for s in SIMS}
    SM = bx.mod('sim.simulator')
    SR = bx.mod('sim.sim_runner')
    import subprocess
    import time
    if hasattr(SR, 'sleep'):
        SR.sleep = lambda t: time.sleep(min(t, .004))
    for rng in bx.each(40, 400):
        d = Path(bx.dir())
        log = []
        rec = Recorder(d / rng.choice(['bin', 'my bin']), rng.choice(['sim.exe', 'my sim']))
        sims = {}
        for s in SIMS:
            sims[s] = type('Sim' + s, (getattr(base[s], SIMS[s][1]),), {})     # state of its own
            sims[s].spice_exe = []
        extra = {s: None for s in SIMS}
        mode = {'NGspice': 'kiltpsa'}
        own = {}
        old_cwd = os.getcwd()
        os.chdir(d)
        for s in SIMS:
            if rng.random() < .6:
                sims[s].create_from(rec.exe)
                extra[s] = []
            elif rng.random() < .3:
                sims[s].spice_exe = [str(d / 'no' / 'loader'), str(rec.exe)]      # the loader is not installed
        try:
            for step in range(rng.randint(4, 14)):
                s = rng.choice(list(SIMS))
                cls = sims[s]
                op = rng.choice(['switch', 'switch', 'switch', 'run', 'run', 'run', 'create', 'create', 'netlist', 'mode',
                                 'runner'])
                case = lambda: dict(sim=s, ops=log)
                before = rec.count()
                if op == 'create':
                    form = rng.choice(['path', 'text', 'loader', 'missing', 'missing text', 'loader text'])
                    log.append((s, 'create_from', form))
                    exe0 = list(cls.spice_exe)
                    try:
                        if form == 'path':
                            cls.create_from(rec.exe)
                            extra[s] = []
                        elif form == 'text':
                            cls.create_from(str(rec.exe))
                            extra[s] = []
                        elif form == 'loader':
                            cls.create_from(f"'{rec.exe}' '/z dir/{s}.exe'")
                            extra[s] = [f'/z dir/{s}.exe']
                        elif form == 'loader text':
                            cls.create_from(f'"{rec.exe}" --prefix "drive c/x.exe"')
                            extra[s] = ['--prefix', 'drive c/x.exe']
                        else:
                            cls.create_from(d / 'no' / 'sim' if form == 'missing' else 'nosuchprogram_zz -x')
                            bx.fail('a missing executable is refused', case())
                    except FileNotFoundError:
                        bx.check(form.startswith('missing') and cls.spice_exe == exe0,
                                 'an executable that exists is accepted, a missing one changes nothing', case())
                elif op == 'switch':
                    par = rng.choice(PARAMS)
                    names = sorted(SIMS[s][2]) + list(SIMS[s][3]) + (['-D', '--define'] if s == 'NGspice' else []) + \
                        (list(XY_OPTS) if s == 'Xyce' else [])
                    sw = rng.choice([rng.choice(names)] * 8 + [rng.choice(UNKNOWN), '', None])
                    if sw and rng.random() < .3:
                        sw = rng.choice([sw.lstrip('-') if not sw.startswith('--') else sw, f' {sw} '])
                    log.append((s, 'valid_switch', sw, par))
                    want = want_switch(s, sw, par, mode.get(s))
                    try:
                        got = cls.valid_switch(sw, par)
                    except ValueError:
                        bx.check(want is None, 'a documented switch is accepted', case())
                        continue
                    if want is ...:
                        bx.check(isinstance(got, list), 'a list of arguments', case())
                    else:
                        bx.check(want is not None and got == want, 'the documented arguments', lambda: dict(
                            case(), got=got, want=want))
                    own.setdefault(s, []).extend(got)
                    if got and rng.random() < .5:
                        got.append('-mine')       # the list belongs to the caller
                        got[0] = '-changed'
                elif op == 'mode' and s == 'NGspice':
                    mode[s] = rng.choice([None, 'ps', 'kiltpsa', 'hs'])
                    log.append((s, 'mode', mode[s]))
                    cls.set_compatibility_mode(mode[s])
                elif op in ('run', 'netlist'):
                    if op == 'netlist' and s != 'LTspice':
                        continue
                    sub = rng.choice(['', 'sub dir/', 'a/'])
                    (d / sub).mkdir(exist_ok=True)
                    name = sub + rng.choice(['ckt', 'my ckt', 'v1.2', 'x_1']) + rng.choice(
                        ['.asc'] if op == 'netlist' else ['.net', '.cir', '.asc', '.qsch', '.sp'])
                    nl = rng.choice([name, d / name, str(d / name), Path(name)])
                    sw = rng.choice([None, [], list(own.get(s, [])), ['-z', 'y y'], '-single', [
                        rng.choice(['-I/x y', '-I/a', '-alt', '-ini', 'x', '-D', 'a=1', '-A', '0', '']) for _ in range(rng.randint(2, 6))]])
                    sw0 = list(sw) if isinstance(sw, list) else sw
                    code = rng.choice([0, 0, 1, 3])
                    rec.code(code)
                    exe_log = rng.random() < .4
                    cwd = rng.choice([None, d / 'wd', str(d / 'wd')])
                    (d / 'wd').mkdir(exist_ok=True)
                    kw = dict(cwd=cwd, exe_log=exe_log)
                    log.append((s, op, str(nl), sw0, code, str(cwd), exe_log))
                    target = Path(nl)
                    if exe_log and cwd is not None and not target.is_absolute():
                        target = Path(nl)
                    conlog = Path(nl).with_suffix('.exe.log')
                    if conlog.exists():
                        conlog.unlink()
                    if not exe_log:
                        kw.update(stdout=subprocess.PIPE if rng.random() < .3 else subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL)
                    net = Path(nl).with_suffix('.net')
                    if op == 'netlist':
                        if net.exists():
                            net.unlink()
                        if rng.random() < .6:
                            net.write_text('* net\n')
                    try:
                        got = (cls.run if op == 'run' else cls.create_netlist)(nl, sw, **kw)
                        err = None
                    except (SM.SpiceSimulatorError, RuntimeError) as e:
                        got, err = None, e
                    if extra[s] is None:
                        bx.check(isinstance(err, SM.SpiceSimulatorError) and rec.count() == before,
                                 'without a simulator nothing is started', case())
                        continue
                    bx.check(rec.count() == before + 1, 'one process is started', case())
                    args, wd = rec.last()
                    sl = sw0 if isinstance(sw0, list) else [] if sw0 is None else [sw0]
                    want = expected(s, extra[s], nl, sl, mode.get(s)) if op == 'run' else \
                        extra[s] + ['-netlist', Path(nl).as_posix()] + sl
                    bx.check(args == want, 'the command line', lambda: dict(case(), got=args, want=want))
                    bx.check(wd == str(d / 'wd' if cwd else d), 'the working directory', lambda: dict(case(), got=wd))
                    bx.check(sw == sw0, 'the switches of the caller are left alone', case())
                    if op == 'run':
                        bx.check(err is None and got == code, 'the exit code', lambda: dict(case(), got=got))
                    elif code == 0 and net.exists():
                        bx.check(got == net, 'the netlist made', lambda: dict(case(), got=str(got)))
                    else:
                        bx.check(isinstance(err, RuntimeError), 'a netlist that was not made is an error', case())
                    bx.check(conlog.exists() == exe_log and (not exe_log or conlog.read_text() == 'console\ntrouble\n'),
                             'the console log', case())
                elif op == 'runner':
                    r = SR.SimRunner(simulator=cls, output_folder=d / 'out', parallel_sims=1, timeout=20)
                    want, switches = [], []
                    for _ in range(rng.randint(0, 3)):
                        a = rng.choice(['-alt', '-I/x', '-q'])
                        b = rng.choice([None, 'par', 'a b'])
                        r.add_command_line_switch(a, path=b)
                        switches += [a] + ([b] if b is not None else [])
                    if rng.random() < .3:
                        r.clear_command_line_switches()
                        switches = []
                    r.add_command_line_switch('-last')
                    switches.append('-last')
                    (d / 'src.net').write_text('* t\n.end\n')
                    rec.code(0)
                    over = rng.choice([None, None, [], ['-over']])
                    how = rng.choice(['run', 'run_now'])
                    log.append((s, how, switches, over))
                    if how == 'run':
                        t = r.run(str(d / 'src.net'), switches=over)
                        if rng.random() < .5:
                            r.add_command_line_switch('-later')     # belongs to later runs only
                        bx.check(r.wait_completion(20) == (extra[s] is not None), 'completion tells success',
                                 case())
                    else:
                        r.run_now(str(d / 'src.net'), switches=over)
                    nl = d / 'out' / 'src_1.net'
                    if extra[s] is None:
                        bx.check(rec.count() == before and r.failSim == 1 and r.okSim == 0,
                                 'no netlist is reported as run without a simulator', case())
                        continue
                    bx.check(r.okSim == 1 and rec.count() == before + 1, 'one process per run', case())
                    args, wd = rec.last()
                    want = expected(s, extra[s], nl, over or switches, mode.get(s))
                    bx.check(args == want, 'the command line of the runner', lambda: dict(case(), got=args, want=want))
        finally:
            os.chdir(old_cwd)
        bx.done(dict(ops=log))


@bounded('C20', 'LTspice found through the environment', ['simulators.ltspice_simulator:LTspice'])
def environment(bx):
    import subprocess
    bx.mod('simulators.ltspice_simulator')
    for rng in bx.each(2, 6):
        d = Path(bx.dir())
        folder, exe, wine = rng.choice([(None, 'X.exe'), ('f', 'X.exe'), ('f', None), ('my f', 'a b.exe')]) + \
            (rng.choice([None, 'mywine']),)
        env = {k: v for k, v in os.environ.items() if k not in ('LTSPICEFOLDER', 'LTSPICEEXECUTABLE', 'WINEFOLDER',
                                                               'WINEEXECUTABLE')}
        env.update({k: v for k, v in (('LTSPICEFOLDER', folder and str(d / folder)), ('LTSPICEEXECUTABLE', exe),
                                      ('WINEEXECUTABLE', wine)) if v})
        env['PYTHONPATH'] = os.environ.get('VP_REPO', '/repo')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        out = subprocess.run([sys.executable, '-c', 'from spicelib.simulators.ltspice_simulator import LTspice as L;'
                              'import json; print(json.dumps(L.spice_exe))'], env=env, capture_output=True, text=True)
        case = dict(folder=folder, exe=exe, wine=wine, out=out.stdout, err=out.stderr[-400:])
        import json
        base = str(d / folder) if folder else os.path.expanduser('~/.wine/drive_c/Program Files/LTC/LTspiceXVII')
        want = [wine or 'wine', base + '/' + (exe or 'XVIIx64.exe')]
        bx.check(out.returncode == 0 and json.loads(out.stdout) == want, 'the executable named by the environment',
                 lambda: dict(case, want=want))
        bx.done(case)


# --- the class of simulators in general

SM = 'sim.simulator'


@prove('C20', 'the process is started with the command, and its exit code is the outcome', [f'{SM}:run_function'], internal=True, conc=0)
def started(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S = vc.mod(SM)
    code = vc.int('exit code')
    calls = []
    ends = vc.choice('the process', ['ends', 'takes too long', 'cannot be started'])
    errs = {'takes too long': S.subprocess.TimeoutExpired('x', 1), 'cannot be started': FileNotFoundError('x')}

    def process(*a, **k):
        calls.append((a, k))
        if ends in errs:
            raise errs[ends]
        return types.SimpleNamespace(returncode=code)
    vc.stub(S.subprocess.run, 'subprocess.run: runs a process (trusted)', process)
    cmd, out, err = ['/x/sim', '-b', 'a b.net'], object(), object()
    given = {'timeout': vc.choice('timeout', [None, 7.5]), 'stdout': vc.choice('stdout', [None, out]), 'stderr': vc.choice('stderr', [None, err]),
             'cwd': vc.choice('cwd', [None, '/w'])}
    used = {k: v for k, v in given.items() if v is not None}
    got, e = vc.raises(lambda: S.run_function(cmd, **used), type(errs.get(ends, OSError())))
    if not calls:
        raise core.Unsupported('a process started in another way')
    vc.check('one process', len(calls) == 1)
    a, k = calls[0]
    vc.check('the command as it is, without a shell', And(list(a) + [k.get('args')] * ('args' in k) == [cmd], not k.get('shell'), cmd == ['/x/sim', '-b', 'a b.net']))
    vc.check('its time, its outputs and its folder', all(k.get(n) is v for n, v in given.items()))
    if ends == 'ends':
        vc.check('its exit code', And(e is None, got == code))
    else:
        vc.check('the failure is told', e is errs[ends])


@prove('C20', 'a simulator is available exactly if its executable is there or on the path', [f'{SM}:Simulator.is_available'], internal=True, conc=0)
def available(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S = vc.mod(SM)
    exe = vc.choice('executable', [[], ['/x/sim'], ['wine', '/x/sim.exe']])
    there, which = vc.choice('there', [True, False]), vc.choice('on the path', [None, '/usr/bin/wine'])
    asked = []
    vc.stub(Path.exists, 'Path.exists', lambda self: asked.append(str(self)) or there)
    vc.stub(S.shutil.which, 'shutil.which', lambda x, *a, **k: asked.append(str(x)) or which)
    C = type('Sim', (S.Simulator,), {'spice_exe': exe})
    got = C.is_available()
    vc.check('it is asked for the program that is started', all(a == exe[0] for a in asked))
    vc.check('the answer', bool(got) == bool(exe and (there or which)))


@prove('C20', 'a simulator made from a path is that executable, and is refused when there is none', [f'{SM}:Simulator.create_from'], internal=True, conc=0)
def made(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S = vc.mod(SM)
    form = vc.choice('given as', [(Path('/x/my sim'), ['/x/my sim']), ('/x/my sim', ['/x/my', 'sim']), ('wine "/x/a b/sim.exe" -q', ['wine', '/x/a b/sim.exe', '-q']),
                                  ('wine /x/sim.exe', ['wine', '/x/sim.exe']), ('C:\\Program Files\\sim.exe', ['C:/Program Files/sim.exe']), ('', [])])
    given, parts = form
    files = vc.choice('files that there are', [set(), {'first'}, {'whole'}])
    which = vc.choice('on the path', [False, True])
    name = vc.choice('process name', [None, 'the-process'])
    first = parts[0] if parts else None
    world = {first} if 'first' in files else {str(given)} - {''} if 'whole' in files else set()
    vc.stub(os.path.exists, 'os.path.exists', lambda p: str(p) in world)
    vc.stub(Path.exists, 'Path.exists', lambda self: str(self) in world or self.as_posix() in world)
    vc.stub(S.shutil.which, 'shutil.which', lambda p, *a, **k: '/usr/bin/x' if which and Path(p).as_posix() == first else None)
    C = type('Sim', (S.Simulator,), {'spice_exe': ['before'], 'process_name': 'before'})
    got, e = vc.raises(lambda: C.create_from(given, name), FileNotFoundError)
    if str(given) in world or isinstance(given, Path):       # the whole text is a file
        parts = [Path(given).as_posix()]
    found = bool(parts) and (parts[0] in world or str(given) in world and parts[0] == Path(given).as_posix() or which and parts[0] == first)
    if not found:
        vc.check('refused, and nothing changes', And(e is not None, C.spice_exe == ['before'], C.process_name == 'before'))
        return
    vc.check('accepted', And(e is None, got is C))
    vc.check('the command is what was given, word by word', C.spice_exe == parts)
    vc.check('the name of its process', C.process_name == (name or Path(parts[0]).name))
    vc.check('no other simulator changes', S.Simulator.spice_exe == [])
