"""C17: a simulation server keeps clients apart and delivers each result once."""
import io
import io
import os
import tempfile
import threading
import time as _time
import types
import xmlrpc.client
import zipfile
from pathlib import Path

import z3
from pyvc.api import *
from pyvc import core
from pyvc.core import SRef
from props.C15 import Board, fake, contain, START

SV, RN, CL, SR = 'client_server.sim_server', 'client_server.srv_sim_runner', 'client_server.sim_client', 'sim.sim_runner'
ASSUMPTIONS = ["uuid4 gives a new identifier every time",
               "in the deductive part the run numbers of the finished runs are distinct (C15: every run gets its own)",
               "requests are handled one after the other (SimpleXMLRPCServer without threads), concurrently with the thread that collects finished runs"]


# --- histories of real servers and clients ----------------------------------------------------------------------------

class Wire:
    """a connection: what xmlrpc would send and receive, handed to the instance the server registered"""

    def __init__(self, target):
        self.target = target

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def call(*a):
            (b), _ = xmlrpc.client.loads(xmlrpc.client.dumps(a, name))
            try:
                r = getattr(self.target, name)(*b)
            except Exception as e:
                raise xmlrpc.client.Fault(1, f'{type(e)}:{e}')
            (v,), _ = xmlrpc.client.loads(xmlrpc.client.dumps((r,), methodresponse=True))
            return v
        return call


class Loop:
    """stands for the XML-RPC server: keeps the registered instance, serves until it is told to stop"""

    def __init__(self, addr, **kw):
        self.inst, self.ended = None, threading.Event()

    def register_introspection_functions(self):
        pass

    def register_instance(self, inst, **kw):
        self.inst = inst

    def serve_forever(self, *a):
        self.ended.wait(60)

    def shutdown(self):
        self.ended.set()

    def server_close(self):
        pass


class Bench(Board):
    """simulations whose output holds the text of their netlist"""

    def run(self, netlist, switches=None, timeout=None, *, cwd=None, exe_log=False):
        text = Path(netlist).read_text()
        try:
            return Board.run(self, netlist, switches, timeout, cwd=cwd, exe_log=exe_log)
        finally:
            for s in ('.raw', '.log'):
                f = Path(netlist).with_suffix(s)
                if f.exists():
                    f.write_text(s + text)


def until(cond, limit=10):
    end = _time.time() + limit
    while not cond():
        if _time.time() > end:
            return False
        _time.sleep(.0005)
    return True


class Nap:
    """the time module as the servers thread sees it: it only naps"""

    def __init__(self):
        self.sleep = lambda s: _time.sleep(.0003)

    def __getattr__(self, name):
        return getattr(_time, name)


@bounded('C17', 'histories of several clients', [f'{SV}:SimServer.run', f'{SV}:SimServer.status', f'{SV}:SimServer.get_files',
                                                 f'{SV}:SimServer.close_session', f'{SV}:SimServer.stop_server',
                                                 f'{RN}:ServerSimRunner.run', f'{RN}:zip_files', f'{CL}:SimClient.run',
                                                 f'{CL}:SimClient.__next__', f'{CL}:SimClient.get_runno_data'], scratch=True, budget=100)
def histories(bx):
    S, R, C, Q, RT = bx.mod(SV), bx.mod(RN), bx.mod(CL), bx.mod(SR), bx.mod('sim.run_task')
    contain(Q)
    saved = S.SimpleXMLRPCServer, R.time, Q.sleep, RT.sleep, C.xmlrpc.client.ServerProxy
    C.SimClient.__del__ = lambda self: None
    alive = RT.RunTask.__dict__.get('is_alive', threading.Thread.is_alive)

    def slowly(self):
        """what is seen of a simulation may be old when it is used"""
        v = alive(self)
        _time.sleep(.0002)
        return v
    for r in bx.each(150, 1500):
        d = bx.dir()
        os.chdir(d)
        codes, log = {}, []

        def plan(stem):
            k = stem.rsplit('_', 1)[1]
            return codes.setdefault(int(k), (r.choice([0, 0, 0, 0, 1, -1, 'raise']), r.choice([('.raw', '.log')] * 4 + [('.log',), ('.raw',), ()])))
        for k in range(1, 40):
            plan(f'x_{k}')
        board = Bench(plan)
        real = r.random() < .12
        par = r.choice([1, 2, 3, 8])
        stopped = []

        def end_one(stem=None):
            with board.lock:
                stems = sorted(board.gates)
            if stem is None:
                if not stems:
                    return False
                stem = r.choice(stems)
            log.append(('ends', stem))
            board.release(stem)
            until(lambda: stem not in board.running)
            return True
        main = threading.get_ident()

        def nap(x=0):
            if threading.get_ident() == main and x > .05:
                end_one()       # the server waits for a free place: a simulation ends
            _time.sleep(.0003)
        R.time, Q.sleep, RT.sleep = Nap(), nap, lambda x=0: None
        RT.RunTask.is_alive = slowly if r.random() < .5 else alive
        try:
            if not real:
                S.SimpleXMLRPCServer = Loop
            srv = S.SimServer(fake(bx.mod, board), parallel_sims=99 if real else par, output_folder=r.choice(['out', os.path.join(d, 'out')]), port=0)
            if real:
                port = srv.server.server_address[1]
                connect = lambda: C.SimClient('http://localhost', port)
            else:
                C.xmlrpc.client.ServerProxy = lambda *a, **k: Wire(srv.server.inst)
                connect = lambda: C.SimClient('http://host', 9000)
            clients, gone, texts, numbers = [], [], {}, set()

            def open_one():
                c = connect()
                c.minimum_time_between_server_calls = .0005
                c.runs, c.told, c.fetched = [], [], []
                c.dir = os.path.join(d, f'client{len(clients) + len(gone)}')
                os.mkdir(c.dir)
                bx.check(c.session_id not in [o.session_id for o in clients + gone], 'a session gets an identifier of its own', log)
                clients.append(c)
                log.append(('open', len(clients) - 1))
                return c

            def finished(n):
                return n in ended()

            def ended():
                with board.lock:
                    return {int(s.rsplit('_', 1)[1]) for s in board.order}

            def status(c):
                return list(c.server.status(c.session_id))

            def settle(c):
                """every finished simulation of the client is offered, and only those"""
                want = sorted(n for n in c.runs if n in ended() and n not in c.fetched)
                ok = until(lambda: sorted(status(c)) == want)
                bx.check(ok, 'a client sees the finished simulations it started, each once', (log, clients.index(c), status(c), want))

            def fetch(c, n):
                got = c.get_runno_data(n)
                c.fetched.append(n)
                code, exts = codes[n]
                log.append(('fetch', clients.index(c) if c in clients else 'gone', n, str(got)))
                want = {'.raw': '.raw', '.log': '.log'} if code == 0 else {'.log': '.fail'}     # of a failed run only the log
                want = {f'{texts[n][0]}_{n}{want[e]}': e + texts[n][1] for e in exts if e in want}
                if got is None:
                    return bx.check(not want, 'the files of a run are received', (log, n, codes[n]))
                with zipfile.ZipFile(got) as z:
                    members = {Path(m).name: z.read(m).decode() for m in z.namelist()}
                bx.check(members == want, 'the files of a run are its own', (log, n, members, want))
                bx.check(Path(got).parent == Path(c.dir), 'they are stored beside the netlist', (log, n, got))
                os.remove(got)

            def tell(c):
                n = next(c, None)
                log.append(('told', clients.index(c), n))
                bx.check(n in c.runs, 'a client is told about simulations it started', (log, n, c.runs))
                bx.check(n not in c.told, 'a client is told about each simulation once', (log, n, c.told))
                bx.check(n in ended(), 'and after it has finished', (log, n))
                c.told.append(n)
                return n
            open_one()
            for _ in range(r.randint(4, 22)):
                k = r.choice(['open', 'run', 'run', 'run', 'run', 'end', 'end', 'end', 'tell', 'tell', 'fetch', 'fetch', 'fetch', 'close', 'foreign', 'status',
                              'missing', 'again'])
                if not clients:
                    open_one()
                c = r.choice(clients)
                if k == 'open' and len(clients) < 4:
                    open_one()
                elif k == 'run':
                    stem = r.choice(['a', 'b', 'a b', 'c.d'])
                    f = os.path.join(c.dir, stem + r.choice(['.net', '.cir']))
                    text = f'* {r.random()}\n.end\n' + (f'* {r.getrandbits(999)}\n' * r.choice([1, 40, 900]) if r.random() < .1 else '')
                    if r.random() < .2:
                        text += ''.join(f'* {r.getrandbits(256):x}\n' for _ in range(2200))
                    Path(f).write_text(text)
                    dep = os.path.join(c.dir, 'dep.lib')
                    Path(dep).write_text('x')
                    sub = os.path.join(c.dir, 'deep', 'er')
                    os.makedirs(sub, exist_ok=True)
                    Path(sub, f'{stem}_src.lib').write_text(text)
                    if r.random() < .2:
                        bx.check(c.add_sources([r.choice([str, Path])(os.path.join(sub, f'{stem}_src.lib')), os.path.join(sub, 'none.lib')]) is True, 'sources are accepted', log)
                        got = os.path.join(d, 'out', f'{stem}_src.lib')
                        bx.check(os.path.exists(got) and Path(got).read_text() == text, 'sources are in the folder of the simulations', (log, os.listdir(os.path.join(d, 'out'))))
                    n = c.run(f if r.random() < .5 else Path(f), **({'dependencies': [dep, 'none.lib']} if r.random() < .3 else {}))
                    log.append(('run', clients.index(c), stem, n))
                    bx.check(isinstance(n, int) and n > 0 and n not in numbers, 'every simulation has a number of its own', (log, n))
                    numbers.add(n)
                    c.runs.append(n)
                    texts[n] = (stem, text)
                    bx.check(until(lambda: f'{stem}_{n}' in board.running or n in ended()), 'a simulation that was accepted is started', log)
                elif k == 'missing':
                    bx.check(c.run(os.path.join(c.dir, 'nothing.net')) == -1, 'a netlist that does not exist is not run', log)
                elif k == 'end':
                    end_one()
                elif k == 'tell':
                    settle(c)
                    if any(n in ended() and n not in c.told for n in c.runs):
                        tell(c)
                    elif all(n in c.told for n in c.runs):
                        bx.check(next(c, None) is None, 'no more simulations: iteration ends', log)
                elif k == 'fetch':
                    left = [n for n in c.told if n not in c.fetched]
                    early = [n for n in c.runs if n not in c.told]
                    if early and r.random() < .3:
                        n = r.choice(early)
                        log.append(('too early', clients.index(c), n))
                        try:
                            bx.fail('a run that was not told about is not fetched', (log, n, c.get_runno_data(n)))
                        except C.SimClientInvalidRunId:
                            pass
                        settle(c)
                    if left:
                        n = r.choice(left)
                        fetch(c, n)
                        bx.check(n not in status(c), 'a result that was collected is not offered again', (log, n))
                elif k == 'again':
                    if c.fetched:
                        n = r.choice(c.fetched)
                        name, data = c.server.get_files(c.session_id, n)
                        bx.check(name == '' and data.data == b'', 'a result is delivered once', (log, n, name))
                elif k == 'foreign':
                    others = [n for o in clients + gone if o is not c for n in o.runs]
                    if others:
                        n = r.choice(others)
                        log.append(('foreign', clients.index(c), n))
                        name, data = c.server.get_files(c.session_id, n)
                        bx.check(name == '' and data.data == b'', 'the results of another session are not given', (log, n, name))
                        for o in clients:
                            settle(o)
                elif k == 'status':
                    for o in clients:
                        settle(o)
                elif k == 'close' and len(clients) > 1:
                    log.append(('close', clients.index(c)))
                    c.close_session()
                    clients.remove(c)
                    gone.append(c)
                    bx.check(c.server.close_session(c.session_id) is False, 'a session is closed once', log)
                    if r.random() < .5:
                        f, jobs = os.path.join(c.dir, 'late.net'), list(c.started_jobs)
                        Path(f).write_text('* late\n')
                        bx.check(c.run(f) == -1 and c.add_sources([f]) is False, 'nothing is run in a session that was closed', log)
                        bx.check(list(c.started_jobs) == jobs, 'a run that was refused is not waited for', (log, list(c.started_jobs)))
                    for o in clients:
                        settle(o)
            # every client collects what is left
            while end_one():
                pass
            for c in r.sample(clients, len(clients)):
                settle(c)
                for n in c:
                    log.append(('told', clients.index(c), n))
                    bx.check(n in c.runs and n not in c.told, 'a client is told about each of its simulations once', (log, n, c.told))
                    c.told.append(n)
                    if r.random() < .8:
                        fetch(c, n)
                bx.check(sorted(c.told) == sorted(c.runs), 'a client is told about all its simulations', (log, c.told, c.runs))
                for n in [n for n in c.told if n not in c.fetched]:
                    fetch(c, n)
                bx.check(status(c) == [], 'what was collected is not offered again', (log, status(c)))
            if r.random() < .3:
                # a simulation that still runs when the server is told to stop
                c = clients[0]
                f = os.path.join(c.dir, 'last.net')
                Path(f).write_text('* last\n')
                n = c.run(f)
                until(lambda: f'last_{n}' in board.running)
                threading.Timer(.01, lambda: board.release(f'last_{n}')).start()
            bx.check(srv.running() is True, 'the server runs', log)
            stopped.append(1)
            if r.random() < .5:
                done = []
                th = threading.Thread(target=lambda: done.append(clients[0].server.stop_server()), daemon=True)
                th.start()
                th.join(15)
                bx.check(done == [True], 'a client can stop the server', (log, real))
            else:
                srv.stop_server()
            bx.check(until(lambda: not srv.running()), 'the server has stopped', log)
            srv.simulation_manager.join(15)
            srv.server_thread.join(15)
            bx.check(not srv.simulation_manager.is_alive() and not srv.server_thread.is_alive(), 'its threads end', log)
            if real:
                srv.server.server_close()
        finally:
            with board.lock:
                for g in board.gates.values():
                    g.set()
            if not stopped:
                try:
                    srv.simulation_manager.stop()
                    srv.server.shutdown()
                except Exception:
                    pass
            S.SimpleXMLRPCServer, R.time, Q.sleep, RT.sleep, C.xmlrpc.client.ServerProxy = saved
            RT.RunTask.is_alive = alive
        bx.done(log, nontrivial=len(numbers) > 1)


@finding('C17', 'shared-folder')
def shared_folder(bx):
    """two sessions send different files under one name while a simulation of the first is waiting to read its own"""
    import tempfile
    S, R, Q = bx.mod(SV), bx.mod(RN), bx.mod(SR)
    contain(Q)
    saved = S.SimpleXMLRPCServer, R.time
    S.SimpleXMLRPCServer, R.time = Loop, Nap()
    read, gate = [], threading.Event()

    def run(netlist, *a, **k):
        gate.wait(10)
        read.append((Path(netlist).parent / 'dep.lib').read_text())
        return 0

    def zipped(**files):
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            for n, t in files.items():
                z.writestr(n.replace('_', '.'), t)
        return xmlrpc.client.Binary(b.getvalue())
    with tempfile.TemporaryDirectory() as d:
        srv = S.SimServer(fake(bx.mod, types.SimpleNamespace(run=run)), output_folder=os.path.join(d, 'out'))
        try:
            one, two = srv.start_session(), srv.start_session()
            srv.run(one, 'a.net', zipped(a_net='* one', dep_lib='of one'))
            srv.add_sources(two, zipped(dep_lib='of two'))
            gate.set()
            until(lambda: read)
        finally:
            gate.set()
            srv.stop_server()
            srv.simulation_manager.join(10)
            S.SimpleXMLRPCServer, R.time = saved
    if read == ['of two']:
        return "a file sent by one session replaces the file of the same name that a pending simulation of another session uses"
    return None


# --- proofs -----------------------------------------------------------------------------------------------------------

class _File(core.Kind):
    """a path of a file of a finished run: none, or a file known by a number"""

    def __init__(self, log):
        super().__init__('file', z3.IntSort())
        self.log = log

    def wrap(self, e):
        if bool(wrap(e == -1)):
            return None
        return _Path(e, self.log)

    def unwrap(self, v):
        return z3.IntVal(-1) if v is None else v.e


class _Path:
    """a file: its content is known by its number, whether it exists is the world's choice"""

    def __init__(self, e, log):
        self.e, self.log = e, log

    @property
    def name(self):
        return ('name', self.e)

    def exists(self):
        r = bool(core.eng().fresh_bool('exists'))
        self.log.append(('exists', self.e, r))
        return r

    def unlink(self, missing_ok=False):
        self.log.append(('unlink', self.e))

    def open(self, mode='r'):
        assert mode == 'rb'
        return _Open(self)

    def read_bytes(self):
        return ('bytes of', self.e)


class _Open:
    def __init__(self, p):
        self.p = p

    def read(self):
        return ('bytes of', self.p.e)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


KEYS = ('circuit', 'raw', 'log', 'zipfile')


class _InfoK(RecordType):
    """the entry of a finished run: a dictionary with these keys"""

    def unwrap(self, v):
        if isinstance(v, dict):
            E = core.eng()
            if 'runno' not in v or any(k not in v for k in KEYS):
                raise core.Unsupported("the entry of a finished run has other keys")
            ref = SRef(self, self.next.e)      # a new object: every older one has a smaller number
            self.next = self.next + 1
            for k in ('runno',) + KEYS:
                setattr(ref, k, v[k])
            return ref._id
        return RecordType.unwrap(self, v)


def info_type(log):
    def get(self, k):
        if k not in self._rt.fields:
            raise core.Unsupported(f"key {k} of a finished run")
        return getattr(self, k)
    F = _File(log)
    T = _InfoK('Info', {'runno': IntK, 'circuit': F, 'raw': F, 'log': F, 'zipfile': F},
                  {'__getitem__': get, '__contains__': lambda self, k: k in self._rt.fields,
                   'get': lambda self, k, d=None: get(self, k) if k in self._rt.fields else d})
    T.next = core.eng().fresh_int('next')
    return T


class _Manager:
    """the collector of finished runs, by its contract: a list of finished runs, and the requests to erase one"""

    def __init__(self, *a, **k):
        self.erased, self.added, self.completed_tasks = [], [], []

    def start(self):
        pass

    def erase_files_of_runno(self, runno):
        self.erased.append(runno)


def server(vc, log):
    """a server with two open sessions of any number of runs, and any finished runs with distinct numbers"""
    E = vc.E
    S = vc.mod(SV)
    vc.stub(S.SimpleXMLRPCServer, 'SimpleXMLRPCServer: hands requests to the registered instance', lambda *a, **k: Loop(*a))
    vc.stub(S.ServerSimRunner, 'ServerSimRunner (its own contracts)', lambda *a, **k: man)
    vc.stub(S.threading.Thread, 'threading.Thread', lambda *a, **k: types.SimpleNamespace(start=lambda: None))
    vc.stub(S.Binary, 'Binary: the bytes it is made of', lambda b: ('binary', b))
    man = _Manager()
    srv = S.SimServer(object, output_folder='/x')
    vc.rep(srv, sessions={}, simulation_manager=man)
    a, b = srv.start_session(), srv.start_session()
    vc.check('two sessions have different identifiers', a != b and type(a) is str)
    seqs = {a: vc.seq('runs of a', IntK), b: vc.seq('runs of b', IntK)}
    for k in seqs:
        if not (k in srv.sessions and len(srv.sessions[k]) == 0):
            raise core.Unsupported('the sessions are kept in another way')
        srv.sessions[k] = seqs[k].copy()
    T = info_type(log)
    done = vc.seq('finished', T)
    pos = z3.Function('pos', z3.IntSort(), z3.IntSort())
    no = lambda i: to_z3(at(done, i).runno)
    q = z3.Int('q!d')
    E.define(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < to_z3(done.n)), pos(no(wrap(q))) == q), patterns=[z3.Select(done.arr, q)]))
    man.completed_tasks = done.copy()
    return S, srv, man, a, b, seqs, done, pos


def same(seq, was):
    return And(length(seq) == was.n, Forall(0, was.n, lambda j: at(seq, j) == at(was, j)))


@prove('C17', 'a session is offered exactly its own finished runs', [f'{SV}:SimServer.status', f'{SV}:SimServer.start_session'],
       internal=True, conc=0, timeout=60)
def offered(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    S, srv, man, a, b, seqs, done, pos = server(vc, [])
    mine = seqs[a]
    no = lambda i: at(done, i).runno
    cnt = z3.Function('of the session', z3.IntSort(), z3.IntSort())
    C = lambda m: wrap(cnt(to_z3(m)))
    ofme = lambda i: mine.member(no(i))

    def inv(L, i):
        ret = L.ret if not (isinstance(L.ret, list) and not L.ret) else E.fresh_seq(IntK, 'empty', n=0)
        E.assume(And(C(0) == 0, Implies(i >= 0, C(i + 1) == C(i) + Ite(ofme(i), 1, 0))))
        return [length(ret) == C(i), C(i) >= 0,
                Forall(0, i, lambda j: Implies(ofme(j), And(0 <= C(j), C(j) < C(i), at(ret, C(j)) == no(j)))),
                Forall(0, length(ret), lambda k: And(mine.member(at(ret, k)), 0 <= wrap(pos(to_z3(at(ret, k)))), wrap(pos(to_z3(at(ret, k)))) < i,
                                                     no(wrap(pos(to_z3(at(ret, k))))) == at(ret, k))),
                Forall(0, length(ret) - 1, lambda k: wrap(pos(to_z3(at(ret, k)))) < wrap(pos(to_z3(at(ret, k + 1)))))]
    vc.loop(f'{SV}:SimServer.status#0', inv, havoc_vals={'ret': lambda E, old, L: E.fresh_seq(IntK, 'ret')})
    ret = srv.status(a)
    P = lambda k: wrap(pos(to_z3(at(ret, k))))
    K, J = vc.int('K', 0), vc.int('J', 0)
    vc.assume(K < done.n, J < length(ret))
    vc.check('a finished run of the session is offered', Implies(ofme(K), ret.member(no(K))))
    vc.check('what is offered was started by the session', mine.member(at(ret, J)))
    vc.check('and has finished', And(0 <= P(J), P(J) < done.n, no(P(J)) == at(ret, J)))
    vc.check('in the order in which they finished, none twice', Implies(J + 1 < length(ret), P(J) < P(J + 1)))
    vc.check('nothing is erased', len(man.erased) == 0)
    vc.check('nothing is removed', same(man.completed_tasks, done))
    vc.check('the sessions stay', And(same(srv.sessions[a], seqs[a]), same(srv.sessions[b], seqs[b])))


@prove('C17', 'the files handed out are those of the run asked for', [f'{SV}:SimServer.get_files'], internal=True, conc=0, timeout=60)
def files(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S, srv, man, a, b, seqs, done, pos = server(vc, [])
    mine = seqs[a]
    R = vc.int('run')
    no = lambda i: at(done, i).runno
    vc.loop(f'{SV}:SimServer.get_files#0', lambda L, i: [Forall(0, i, lambda j: no(j) != R), len(man.erased) == 0])
    name, data = srv.get_files(a, R)
    K = wrap(pos(R.e))
    known = And(mine.member(R), 0 <= K, K < done.n, no(K) == R)
    if name == '':
        vc.check('without name there is no data', data == ('binary', b''))
        vc.check('a finished run of the session with files is handed out', Implies(known, wrap(z3.Select(vc.E.heap(done.kind, 'zipfile'), at(done, K)._id) == -1)))
        vc.check('a run of another session is not erased', Implies(Not(mine.member(R)), len(man.erased) == 0))
        vc.check('a run without files is not offered again', Implies(known, len(man.erased) == 1))
    else:
        vc.check('only runs of the session', mine.member(R))
        z = wrap(z3.Select(vc.E.heap(done.kind, 'zipfile'), at(done, K)._id))
        vc.check('it has finished', known)
        vc.check('the name is that of its file', name[0] == 'name' and wrap(name[1]) == z)
        vc.check('the data are those of its file', data[0] == 'binary' and data[1][0] == 'bytes of' and wrap(data[1][1]) == z)
        vc.check('and it is not offered again', len(man.erased) == 1)
    vc.check('nothing else is erased', And(True, *[e == R for e in man.erased]))
    vc.check('the sessions stay', And(same(srv.sessions[a], seqs[a]), same(srv.sessions[b], seqs[b])))


@prove('C17', 'closing a session erases its runs and no others', [f'{SV}:SimServer.close_session'], internal=True, conc=0, timeout=60)
def closing(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    S, srv, man, a, b, seqs, done, pos = server(vc, [])
    man.erased = vc.fresh_seq(IntK, 'erased', n=0)
    n0 = man.erased
    fails = vc.choice('erasing fails', [False, True])

    def erase(runno):
        man.erased.append(runno)
        if fails and bool(E.fresh_bool('fails')):
            raise OSError('in use')
    man.erase_files_of_runno = erase

    def inv(L, i):
        return [man.erased.n == i, Forall(0, i, lambda j: at(man.erased, j) == at(seqs[a], j))]

    def havoc(E, L):
        man.erased.n, man.erased.arr = E.fresh_int('n'), E.fresh('arr', man.erased.arr.sort())
        return [man.erased]
    vc.loop(f'{SV}:SimServer.close_session#0', inv, havoc=havoc)
    sid = vc.choice('session', ['a', 'unknown'])
    got = srv.close_session(a if sid == 'a' else 'no session')
    vc.check('the other session stays', And(b in srv.sessions, same(srv.sessions[b], seqs[b])))
    if sid == 'a':
        vc.check('closed', got is True and a not in srv.sessions)
        vc.check('each of its runs is erased', Forall(0, seqs[a].n, lambda j: man.erased.member(at(seqs[a], j))))
        vc.check('no other run is erased', Forall(0, man.erased.n, lambda j: seqs[a].member(at(man.erased, j))))
    else:
        vc.check('an unknown session is not closed', got is False)
        vc.check('and nothing is erased', man.erased.n == 0)
        vc.check('no session is gone', And(a in srv.sessions, same(srv.sessions[a], seqs[a])))


@prove('C17', 'a run that is accepted belongs to the session that asked for it', [f'{SV}:SimServer.run', f'{SV}:SimServer.add_sources'],
       internal=True, conc=0)
def accepted(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S, srv, man, a, b, seqs, done, pos = server(vc, [])
    sid = vc.choice('session', ['a', 'unknown'])
    R = vc.int('number', -1)
    asked, written = [], []
    man.add_simulation = lambda f, **k: asked.append(str(f)) or R

    class Zip:
        def __init__(self, buf, mode='r'):
            self.buf = buf

        def __enter__(self):
            return self

        def __exit__(self, *x):
            return False

        def namelist(self):
            return ['n.net']

        def extractall(self, where):
            written.append((self.buf, str(where)))
    vc.stub(S.zipfile.ZipFile, 'zipfile.ZipFile', Zip)
    vc.stub(S.io.BytesIO, 'io.BytesIO', lambda b: ('buffer', b))
    got = srv.run(a if sid == 'a' else 'no session', 'n.net', types.SimpleNamespace(data=b'zip'))
    if sid == 'unknown':
        vc.check('no session, no run', got == -1)
        vc.check('nothing is written or run', not asked and not written)
        vc.check('sessions stay', same(srv.sessions[a], seqs[a]))
    else:
        vc.check('the sources that were sent are written', len(written) == 1 and written[0][0] == ('buffer', b'zip'))
        vc.check('the netlist among them is run, once', len(asked) == 1 and asked[0] == os.path.join(written[0][1], 'n.net'))
        vc.check('the number is the one of the run', got == R)
        now = srv.sessions[a]
        vc.check('it belongs to the session', Implies(R != -1, And(length(now) == seqs[a].n + 1, at(now, seqs[a].n) == R)))
        vc.check('a run that did not start does not', Implies(R == -1, length(now) == seqs[a].n))
        vc.check('its other runs stay', Forall(0, seqs[a].n, lambda j: at(now, j) == at(seqs[a], j)))
    vc.check('the other session stays', same(srv.sessions[b], seqs[b]))


def collector(vc):
    """the collector of finished runs; its runner is a fake with the contract of SimRunner"""
    R = vc.mod(RN)
    runner = types.SimpleNamespace(completed_tasks=[], update_completed=lambda: None, wait_completion=lambda: True, cleanup_files=lambda: None)
    vc.stub(R.SimRunner, 'SimRunner (C15)', lambda *a, **k: runner)
    return R, R.ServerSimRunner(simulator=object, output_folder='/x'), runner


@prove('C17', 'erasing a run removes its entry and its files only', [f'{RN}:ServerSimRunner.erase_files_of_runno', f'{RN}:ServerSimRunner._erase_files_and_info'],
       internal=True, conc=0, timeout=60)
def erased(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    log = []
    R, man, _ = collector(vc)
    T = info_type(log)
    done = vc.seq('finished', T)
    now = done.copy()
    vc.rep(man, completed_tasks=now)
    n = vc.int('run')
    no = lambda i: at(done, i).runno
    vc.loop(f'{RN}:ServerSimRunner.erase_files_of_runno#0', lambda L, i: [Forall(0, i, lambda j: no(j) != n), len(log) == 0])
    man.erase_files_of_runno(n)
    now = man.completed_tasks
    P = vc.int('P', 0)
    vc.assume(P < done.n, no(P) == n, Forall(0, P, lambda j: no(j) != n))     # where it is, if it is there
    vc.check('one entry is gone', length(now) == done.n - 1)
    vc.check('those before it stay', Forall(0, P, lambda j: at(now, j) == at(done, j)))
    vc.check('those after it stay', Forall(P, done.n - 1, lambda j: at(now, j) == at(done, j + 1)))
    own = [wrap(z3.Select(E.heap(T, k), at(done, P)._id)) for k in KEYS]
    for i, (what, e, *x) in enumerate(log):
        if what == 'unlink':
            vc.check('only files of the run are removed', Or(*[wrap(e) == f for f in own]))
            vc.check('and only those that exist', log[i - 1] == ('exists', e, True))
        elif x[0]:
            vc.check('files that exist are removed', i + 1 < len(log) and log[i + 1] == ('unlink', e))
    for k, f in zip(KEYS, own):
        vc.check(f'the {k} is looked for', Or(f == -1, *[wrap(e[1]) == f for e in log]))


@prove('C17', 'erasing a run that is not there changes nothing', [f'{RN}:ServerSimRunner.erase_files_of_runno'], internal=True, conc=0)
def erased_none(vc):
    if not vc.symbolic:
        return vc.assume(False)
    log = []
    R, man, _ = collector(vc)
    done = vc.seq('finished', info_type(log))
    vc.rep(man, completed_tasks=done.copy())
    n = vc.int('run')
    vc.assume(Forall(0, done.n, lambda j: at(done, j).runno != n))
    vc.loop(f'{RN}:ServerSimRunner.erase_files_of_runno#0', lambda L, i: [len(log) == 0])
    man.erase_files_of_runno(n)
    vc.check('every entry stays', same(man.completed_tasks, done))
    vc.check('no file is touched', len(log) == 0)


@prove('C17', 'every finished run is taken over once, in order', [f'{RN}:ServerSimRunner.run'], internal=True, conc=0, timeout=60)
def taken(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    R, man, runner = collector(vc)
    T = info_type([])
    F = T.fields['zipfile']
    K = RecordType('Task', {'runno': IntK, 'retcode': IntK, 'netlist_file': F, 'raw_file': F, 'log_file': F, 'callback_return': F,
                            'start_time': RealK, 'stop_time': RealK})
    queue, have = vc.seq('finished in the runner', K), vc.seq('taken over', T)
    q0, h0 = queue.copy(), have.copy()
    runner.completed_tasks = queue
    vc.rep(man, completed_tasks=have)
    naps = []

    def sleep(t):
        naps.append(t)
        if len(naps) == 2:
            man.stop()
    vc.stub(R.time.sleep, 'time.sleep', sleep)
    vc.stub(R.ServerSimRunner.cleanup_completed, 'ServerSimRunner.cleanup_completed', lambda self: None)
    tf = {k: E.heap(K, k) for k in ('runno', 'callback_return', 'raw_file', 'log_file', 'netlist_file')}
    of = {'runno': 'runno', 'zipfile': 'callback_return', 'raw': 'raw_file', 'log': 'log_file', 'circuit': 'netlist_file'}
    was = {k: E.heap(T, k) for k in of}
    E.assume(Forall(0, h0.n, lambda j: wrap(at(h0, j)._id < T.next.e)))

    def state():
        p = q0.n - queue.n
        id_ = lambda s, j: z3.Select(s.arr, to_z3(j))
        return [0 <= queue.n, queue.n <= q0.n, have.n == h0.n + p,
                Forall(0, queue.n, lambda j: at(queue, j) == at(q0, j + p)),
                Forall(0, h0.n, lambda j: at(have, j) == at(h0, j)),
                Forall(0, have.n, lambda j: wrap(id_(have, j) < T.next.e))] + [
            Forall(0, p, lambda j, k=k, t=t: wrap(z3.Select(E.heap(T, k), id_(have, h0.n + j)) == z3.Select(tf[t], id_(q0, j))))
            for k, t in of.items()] + [
            Forall(0, h0.n, lambda j, k=k: wrap(z3.Select(E.heap(T, k), id_(h0, j)) == z3.Select(was[k], id_(h0, j)))) for k in of]

    def havoc(E, L):
        for s in (queue, have):
            s.n, s.arr = E.fresh_int('n'), E.fresh('arr', s.arr.sort())
            s.version += 1
        T.next = E.fresh_int('next')
        return [queue, have, man, runner, T]
    vc.loop(f'{RN}:ServerSimRunner.run#1', lambda L, i: state(), havoc=havoc, variant=lambda L, i: queue.n, heaps=[(T, k) for k in of])
    man.run()
    vc.check('everything that finished is taken over', queue.n == 0)
    vc.check('each once', have.n == h0.n + q0.n)
    for (k, t), c in zip(of.items(), state()[6:]):
        vc.check(f'in order, with its own {k}', c)
    for c in state()[6 + len(of):] + state()[4:5]:
        vc.check('what was taken over before stays as it is', c)


class GhostMap:
    """a dictionary whose keys are an arbitrary finite set of numbers"""

    def __init__(self, E, name):
        self.E = E
        self.has = E.fresh(name, z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        self.n = E.fresh_int('len ' + name)
        E.assume(self.n >= 0)
        x = z3.Int('x!key')
        E.assume_z3(z3.ForAll([x], z3.Implies(z3.Select(self.has, x), to_z3(self.n) > 0)))
        self.log = []

    def __len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def vc_member(self, k):
        return wrap(z3.Select(self.has, to_z3(k)))

    def _take(self, k):
        if not bool(self.vc_member(k)):
            raise KeyError(k)
        self.has = z3.Store(self.has, to_z3(k), False)
        self.n = self.n - 1

    def pop(self, k, *d):
        if d and not bool(self.vc_member(k)):
            return d[0]
        self._take(k)
        return ('job', k)

    def __getitem__(self, k):
        if not bool(self.vc_member(k)):
            raise KeyError(k)
        return ('job', k)

    def __delitem__(self, k):
        self._take(k)

    def __setitem__(self, k, v):
        self.log.append((k, v))
        self.n = self.n + Ite(self.vc_member(k), 0, 1)
        self.has = z3.Store(self.has, to_z3(k), True)


@prove('C17', 'a client is told about the next of its finished jobs', [f'{CL}:SimClient.__next__'], internal=True, conc=0)
def told(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    C = vc.mod(CL)
    C.SimClient.__del__ = lambda self: None
    seen = []

    class Proxy:
        def start_session(self):
            return 'session'

        def status(self, session):
            vc.check('its own session is asked for', session == 'session')
            seen.append(vc.fresh_seq(IntK, 'status'))
            return seen[-1].copy()
    vc.stub(C.xmlrpc.client.ServerProxy, 'ServerProxy: the requests reach the server (its contracts)', lambda *a, **k: Proxy())
    clock = lambda: E.fresh_real('now')
    vc.stub(C.time.time, 'time.time', clock)
    vc.stub(C.time.sleep, 'time.sleep', lambda t: None)
    c = C.SimClient('http://host', 9000)
    started, stored = GhostMap(E, 'started'), GhostMap(E, 'stored')
    s0, t0, n0 = started.has, stored.has, started.n
    vc.rep(c, started_jobs=started, stored_jobs=stored)
    x = z3.Int('x!job')
    keys = lambda m, h: wrap(z3.ForAll([x], z3.Select(m.has, x) == z3.Select(h, x)))
    vc.loop(f'{CL}:SimClient.__next__#0', lambda L, i: [keys(started, s0), keys(stored, t0), started.n == n0, len(started.log) + len(stored.log) == 0],
            havoc=lambda E, L: [started, stored, seen, c])
    got, exc = vc.raises(lambda: next(c), StopIteration)
    if exc is not None:
        vc.check('the end comes when no job is left', n0 == 0)
        vc.check('nothing changes', And(keys(started, s0), keys(stored, t0)))
        return
    j = E.fresh_int('job')
    vc.check('it is a job that was started and not yet told', wrap(z3.Select(s0, to_z3(got))))
    vc.check('the server said that it has finished', seen[-1].member(got))
    vc.check('it is not told again', wrap(z3.Select(started.has, j.e) == z3.And(z3.Select(s0, j.e), j.e != to_z3(got))))
    vc.check('its data can be fetched', wrap(z3.Select(stored.has, j.e) == z3.Or(z3.Select(t0, j.e), j.e == to_z3(got))))
    vc.check('with what was kept about it', len(stored.log) == 1 and stored.log[0][1][0] == 'job' and stored.log[0][1][1] == got)


@prove('C17', 'a job that the server started is waited for, one that it refused is not', [f'{CL}:SimClient.run', f'{CL}:SimClient.add_sources'], internal=True, conc=0)
def asked(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    C = vc.mod(CL)
    C.SimClient.__del__ = lambda self: None
    answer = vc.int('answer of the server', -1)
    sent = []

    class Proxy:
        def start_session(self):
            return 'session'

        def run(self, session, name, data):
            sent.append((session, name, zipfile.ZipFile(io.BytesIO(data))))
            return answer
    vc.stub(C.xmlrpc.client.ServerProxy, 'ServerProxy: the requests reach the server (its contracts)', lambda *a, **k: Proxy())
    c = C.SimClient('http://host', 9000)
    started, stored = GhostMap(E, 'started'), GhostMap(E, 'stored')
    s0, t0 = started.has, stored.has
    vc.assume(Not(wrap(z3.Select(s0, answer.e))), Not(wrap(z3.Select(t0, answer.e))))   # the server gives a number of its own
    vc.rep(c, started_jobs=started, stored_jobs=stored)
    with tempfile.TemporaryDirectory() as d:
        Path(d, 'in').mkdir()
        Path(d, 'in', 'a b.net').write_text('* netlist')
        Path(d, 'x.lib').write_text('library')
        there = vc.choice('the netlist is there', [True, False])
        deps = vc.choice('dependencies', [None, [], ['x.lib'], ['none.lib', 'x.lib']])
        path = vc.choice('path', [str, Path])(os.path.join(d, 'in', 'a b.net' if there else 'c.net'))
        got = c.run(path, None if deps is None else [os.path.join(d, x) for x in deps])
        vc.check('nothing is asked for without a netlist', len(sent) == there)
        x = z3.Int('x!job')
        same_keys = lambda m, h: wrap(z3.ForAll([x], z3.Select(m.has, x) == z3.Select(h, x)))
        vc.check('nothing is there to be fetched', same_keys(stored, t0))
        if not there:
            return vc.check('it is not run', And(got == -1, same_keys(started, s0)))
        (session, name, z), = sent
        vc.check('asked for in its session, by its name', session == 'session' and name == 'a b.net')
        want = {'a b.net': b'* netlist', **({'x.lib': b'library'} if deps and 'x.lib' in deps else {})}
        vc.check('with the netlist and what it depends on', {n: z.read(n) for n in z.namelist()} == want)
        vc.check('the number is that of the server', got == answer)
        j = E.fresh_int('job')
        vc.check('waited for exactly when it was started', wrap(z3.Select(started.has, j.e) == z3.Or(z3.Select(s0, j.e), z3.And(j.e == answer.e, answer.e != -1))))
        for k, v in started.log:
            vc.check('with its number and the folder of its netlist', And(k == answer, v.run_number == answer, str(v.file_dir) == os.path.join(d, 'in')))


@prove('C17', 'the data of a job are stored once, beside its netlist', [f'{CL}:SimClient.get_runno_data'], internal=True, conc=0)
def fetched(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    C = vc.mod(CL)
    C.SimClient.__del__ = lambda self: None
    asked, written = [], []
    empty = vc.choice('no files', [False, True])

    class Proxy:
        def start_session(self):
            return 'session'

        def get_files(self, session, runno):
            asked.append((session, runno))
            return ('', types.SimpleNamespace(data=b'')) if empty else ('a_1.zip', types.SimpleNamespace(data=b'content'))

    class Opened:
        def __init__(self, f, mode='r', **k):
            self.f = f
            if 'w' not in mode or 'b' not in mode:
                raise core.Unsupported('another way to write the data')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write(self, data):
            written.append((str(self.f), data))

        def close(self):
            pass
    vc.stub(C.xmlrpc.client.ServerProxy, 'ServerProxy: the requests reach the server (its contracts)', lambda *a, **k: Proxy())
    vc.stub(open, 'open', Opened)
    c = C.SimClient('http://host', 9000)
    stored = GhostMap(E, 'stored')
    t0 = stored.has

    def pop(k, *d):
        stored._take(k)
        return C.JobInformation(run_number=k, file_dir=Path('/dir/of/netlist'))
    stored.pop = pop
    vc.rep(c, stored_jobs=stored)
    R = vc.int('run')
    got, exc = vc.raises(lambda: c.get_runno_data(R), C.SimClientInvalidRunId)
    j = E.fresh_int('job')
    if exc is not None:
        vc.check('only a job that is not known is rejected', Not(wrap(z3.Select(t0, R.e))))
        vc.check('and nothing is asked or written', not asked and not written)
        return
    vc.check('the job is known', wrap(z3.Select(t0, R.e)))
    vc.check('its files are asked for, once', len(asked) == 1 and asked[0][0] == 'session' and asked[0][1] == R)
    vc.check('it cannot be fetched again, the others can', wrap(z3.Select(stored.has, j.e) == z3.And(z3.Select(t0, j.e), j.e != R.e)))
    if empty:
        vc.check('no data, no file', got is None and not written)
    else:
        vc.check('what was sent is stored beside the netlist', str(got) == '/dir/of/netlist/a_1.zip' and written == [(str(got), b'content')])


@prove('C17', 'a netlist is simulated once, and its files are put together however the simulation ends', [f'{RN}:ServerSimRunner.add_simulation'],
       internal=True, conc=0)
def simulated(vc):
    if not vc.symbolic:
        return vc.assume(False)
    R, man, runner = collector(vc)
    given, timeout, calls = object(), vc.choice('timeout', [None, 5.0]), []
    runno, started = vc.int('runno', 1), vc.choice('started', [True, False])

    class Task:
        pass
    task = Task()
    task.runno = runno

    class Runner:
        def run(self, netlist, **kw):
            calls.append((netlist, kw))
            return task if started else None
    man.runner = Runner()
    got = man.add_simulation(given, timeout=timeout)
    vc.check('started once, with the netlist and the time that were asked for',
             len(calls) == 1 and calls[0][0] is given and calls[0][1].get('timeout') == timeout)
    kw = calls[0][1]
    if kw.get('callback') is not R.zip_files:
        raise core.Unsupported('the files are put together in another way')
    vc.check('its files are put together, also when the simulation fails', kw.get('callback_on_error') is True)
    vc.check('the run that was started is the one that is told', got == runno if started else got == -1)


@prove('C17', 'the files put together are those of the run, all that there are', [f'{RN}:zip_files'], internal=True, conc=0)
def zipped(vc):
    if not vc.symbolic:
        return vc.assume(False)
    R = vc.mod(RN)
    raw = vc.choice('raw file', [None, Path('/x/run_1.raw')])
    log = vc.choice('log file', [None, Path('/x/run_1.log')])
    there = {p: vc.choice(f'{p} is there', [True, False]) for p in (raw, log) if p is not None}
    made, open_ = [], []

    class Zip:
        def __init__(self, name, mode='r', *a, **k):
            self.name, self.mode, self.files = name, mode, []
            made.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            open_.append(self)

        close = __exit__

        def write(self, f, *a, **k):
            self.files.append(f)

    def exists(p):
        if p not in there:
            raise core.Unsupported('whether another file is there')
        return there[p]
    vc.stub(Path.exists, 'Path.exists', exists)
    vc.stub(zipfile.ZipFile, 'zipfile.ZipFile', Zip)
    got = R.zip_files(raw, log)
    want = [p for p in (raw, log) if p is not None and there[p]]
    if not want:
        vc.check('nothing is written when there is nothing to put together', And(got is None, made == []))
        return
    vc.check('one archive is written and closed', len(made) == 1 and made[0].mode in ('w', 'x') and open_ == made)
    vc.check('it holds each file of the run once and no other', sorted(map(str, made[0].files)) == sorted(map(str, want)))
    vc.check('it is the one that is handed over, named after the run', And(str(got) == str(made[0].name), str(got) == '/x/run_1.zip'))
