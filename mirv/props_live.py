"""C22 the threads of a connection do not wait in a circle, hold nothing back and end when they should"""
from spec import *
from props_server import Pump, JoinMon, CTORS, opened, parts, run_task, reader_end, writer_end
import props_io

S = 'bsp_server'
OWN = {'reader': {('Sender', 'rx')}, 'writer': {('Receiver', 'tx')}, 'connection': {('Sender', 'tx'), ('Receiver', 'rx')}, 'threads': set()}


def ends(e, v, out=None):
    """the channel ends held by a value: {(kind, channel)}"""
    out = set() if out is None else out
    if isinstance(v, G):
        if v.kind in ('Sender', 'Receiver', 'rxiter'):
            out.add(('Sender' if v.kind == 'Sender' else 'Receiver', v.ch))
        elif v.kind != 'JoinHandle':
            for x in v.a.values():
                ends(e, x, out)
    elif isinstance(v, Agg):
        for x in v.fields:
            ends(e, x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            ends(e, x, out)
    elif isinstance(v, (Ref, PRef)):
        raise Unsupported('a channel end may be held through a reference')
    return out


class Watch:
    """what a function may wait for besides channels and the connection's stream"""

    def __init__(self, e, std=False):
        self.e, self.role, self.std, self.tasks, self.waits = e, 'user', std, [], set()
        over = lambda rx, h, doc: props_io.over(e, rx, h, doc)
        over(r'^(std|core)::mem::forget$|ManuallyDrop::<.*>::new$|^(std|alloc)::(boxed::Box|sync::Arc|rc::Rc)::<.*>::(leak|into_raw)$', self.leak, 'a value that is leaked is never dropped')
        over(r'^std::thread::(Builder::)?spawn$', self.spawn, 'thread::spawn runs the closure in a new thread; the handle joins that thread')
        over(r'^std::io::(Stdin|Stdout|Stderr)::lock$', self.lock, 'waits until no other thread has the stream locked, and locks it')
        over(r'^std::net::TcpStream::(set_read_timeout|set_write_timeout|set_nonblocking)$', self.limit, 'with a timeout (not None) or non-blocking, reading and writing may fail just because the peer is slow')
        over(r'^std::io::_e?print$', self.print, 'print! locks the standard output, eprint! the standard error, for the duration of the call')

    def limit(self, e, st, c):
        v = c.args[1]
        e.oblige(st, 'the stream waits for the peer however long it takes', z3.Not(v) if isz(v) else e.vidx(v) == 0)
        return K.io_step(e, st, c, e.unit())

    def leak(self, e, st, c):
        if ends(e, c.args[0]):
            e.oblige(st, 'no channel end is leaked', z3.BoolVal(False))
        if c.name != 'forget':
            raise Unsupported('leaked value')
        return [(st, e.unit())]

    def spawn(self, e, st, c):
        if self.role != 'user':
            raise Unsupported('a thread started by a thread of the connection')
        h = G('JoinHandle', id=next(e.cnt), task=c.args[-1])
        self.tasks.append(h)
        return [(st, h if len(c.args) == 1 else e.ok(c.destty, h))]

    def lock(self, e, st, c):
        v = e.deref(st, c.args[0])
        which = v.which if isinstance(v, G) and v.kind == 'Std' else None
        ok = {'reader': ('stdin', 'stderr'), 'writer': ('stdout', 'stderr')}.get(self.role, ('stderr',))
        e.oblige(st, f'the {self.role} waits for no lock that another thread may hold', z3.BoolVal(which in ok))
        return [(st, v)]

    def print(self, e, st, c):
        if c.name == '_print':
            self.waits.add('output lock')
            if self.role == 'reader' and self.std or self.role == 'api':
                e.oblige(st, 'nothing is printed to the standard output, which the writer thread has locked', z3.BoolVal(False))
        return [(st, e.unit())]


class Live(Pump):
    """Pump with every obligation stated; records what is waited for"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.waits = set()

    def read(self, e, st, c):
        self.waits.add('input')
        return super().read(e, st, c)

    def write(self, e, st, c):
        self.waits.add('output')
        return super().write(e, st, c)

    def send(self, e, st, s, c):
        self.waits.add('hand over' if s.ch == self.rx else 'send elsewhere')
        return super().send(e, st, s, c)

    def take(self, e, st, ch, block):
        self.waits.add('take' if ch == self.tx else 'receive elsewhere')
        return super().take(e, st, ch, block)

    def join(self, e, st, h, c):
        e.oblige(st, f'the {self.role} waits for no thread', z3.BoolVal(False))
        raise Unsupported('join within a thread')


def circle(e, wr, ww, wu):
    """from the sets of what each thread may wait for: someone can always go on (as long as the peer reads and writes)"""
    R = ['ended'] + sorted(wr)
    W = ['ended'] + sorted(ww)
    U = ['ended'] + sorted(wu)
    r, w, u = z3.Ints('r w u')
    dropped = z3.Bool('the connection was dropped')
    is_ = lambda x, l, n: x == l.index(n) if n in l else z3.BoolVal(False)
    inr = lambda x, l: z3.And(x >= 0, x < len(l))
    can_r = z3.Or(is_(r, R, 'input'), z3.And(is_(r, R, 'hand over'), z3.Or(is_(u, U, 'receive'), dropped)))
    can_w = z3.Or(is_(w, W, 'output'), z3.And(is_(w, W, 'take'), z3.Or(is_(u, U, 'send'), dropped)))
    rend, wend = r == 0, w == 0
    can_u = z3.Or(z3.And(is_(u, U, 'receive'), z3.Or(is_(r, R, 'hand over'), rend)), z3.And(is_(u, U, 'send'), z3.Or(is_(w, W, 'take'), wend)),
                  z3.And(is_(u, U, 'join reader'), rend), z3.And(is_(u, U, 'join writer'), wend), z3.And(is_(u, U, 'output lock'), wend))
    st = start()
    pre = z3.And(inr(r, R), inr(w, W), inr(u, U), z3.Implies(dropped, z3.Not(z3.Or(is_(u, U, 'receive'), is_(u, U, 'send')))),
                 z3.Implies(z3.Or(is_(u, U, 'join reader'), is_(u, U, 'join writer'), is_(u, U, 'output lock'), u == 0), dropped))
    e.oblige(st, 'the threads cannot all wait for each other', z3.Implies(pre, z3.Or(can_r, can_w, can_u, z3.And(rend, wend, u == 0))))


def threads(v, name):
    def body(e):
        M = Msg(e)
        w = Watch(e, std=name == 'stdio')
        good, _, _ = opened(v, e, name)
        tasks = list(w.tasks)
        for st, conn, io in good:
            snd, rcv, rd, wr = parts(e, conn, io)
            chans = {'rx': rcv.ch, 'tx': snd.ch}
            held = {'reader': ends(e, rd.task), 'writer': ends(e, wr.task), 'connection': ends(e, conn), 'threads': ends(e, io)}
            for who, h in held.items():
                e.oblige(st, f'the {who} hold{"" if who == "threads" else "s"} only the channel ends it uses, so that every other end sees it end', z3.BoolVal(h <= {(k, chans[c]) for k, c in OWN[who]}))
            for h in tasks:
                if h.id not in (rd.id, wr.id):
                    e.oblige(st, 'no other thread holds a channel end', z3.BoolVal(not ends(e, h.task)))
            waits = {}
            for role, h in (('reader', rd), ('writer', wr)):
                mon = Live(e, M, 'C22', role, rx=rcv.ch, tx=snd.ch, stream='std' if name == 'stdio' else st.store.get(('g', 'stream')))
                e.mon = mon
                w.role = role
                s = st.fork()
                mon.init(s)
                seen = set()
                for o in run_task(e, s, h):
                    if no_panic(e, o):
                        (reader_end if role == 'reader' else writer_end)(e, o, seen)
                del e.contracts.over[-2:]
                waits[role] = mon.waits
                e.oblige(start(), f'the {role} can end', z3.BoolVal(seen == {True, False}))
            w.role = 'user'
            circle(e, waits['reader'], waits['writer'], {'receive', 'send', 'join reader', 'join writer', 'output lock'})
    v.unit(f'the threads of Connection::{name}', S, body)


class Api(Mon):
    """a function of the user's thread: waits only on the connection's own channels, and goes on only while it gets messages"""

    def __init__(self, e, M):
        self.M = M

    def recv(self, e, st, r, c):
        e.oblige(st, 'waits for messages only on the incoming side', z3.BoolVal(r.ch == 'in'))
        e.oblige(st, 'does not wait again for a thread that has ended', z3.Not(st.g('gone')))
        s2 = st.fork()
        s2.setg('gone', z3.BoolVal(True))
        idle = chan_idle(e, st.fork(), c)
        return [(st, e.ok(c.destty, self.M.fresh('received'))), (s2, chan_closed(e, s2, c))] + idle

    def send(self, e, st, s, c):
        e.oblige(st, 'sends only on the outgoing side', z3.BoolVal(s.ch == 'out'))
        s2 = st.fork()
        return [(st, e.ok(c.destty, e.unit())), (s2, chan_err(e, s2, c.destty, 'Disconnected'))] + chan_refused(e, st.fork(), c)

    def join(self, e, st, h, c):
        e.oblige(st, 'waits for no thread', z3.BoolVal(False))
        raise Unsupported('join')


def api(v, name):
    def body(e):
        M = Msg(e)
        w = Watch(e)
        w.role = 'api'
        e.mon = Api(e, M)
        e.contracts.opaque_calls = lambda e, st, f, args, destty: [(st, e.fresh_val('result', destty))]
        key = v.find(S, 'Connection', name)
        locs = e.p.fns[key]['locals']
        st = start()
        st.setg('gone', z3.BoolVal(False))
        args = [PRef(connection(e))]
        for i in range(2, e.p.fns[key]['argc'] + 1):
            t = e.p.types[locs[i]]
            args.append(PRef(Sym(t['inner'], z3.Const(f'x{i}', U))) if t['k'] == 'ref' and 'inner' in t else e.wrap(locs[i], z3.Const(f'x{i}', e.sort_of(locs[i]))))
        n = 0
        for o in call(e, st, key, args):
            n += o.kind != 'panic'
        e.oblige(start(), 'returns', z3.BoolVal(n > 0))
    v.unit(f'Connection::{name}', S, body)


def C22(v):
    for n in CTORS:
        threads(v, n)

    def mem(e):
        w = Watch(e)
        cty = tyof(e, 'Connection')
        n = 0
        for o in call(e, start(), v.find(S, 'Connection', 'memory'), []):
            if not no_panic(e, o):
                continue
            n += 1
            a, b = o.val.fields
            for c, d in ((a, b), (b, a)):
                g = lambda c, f: c.fields[field_index(e, cty, f)]
                e.oblige(o.st, 'each side holds only its own ends, so that the other sees it end', z3.BoolVal(ends(e, c) == {('Sender', g(c, 'sender').ch), ('Receiver', g(c, 'receiver').ch)} and not ends(e, c) & ends(e, d)))
                e.oblige(o.st, 'sending on a connection in memory never waits', z3.BoolVal(g(c, 'sender').a.get('cap', 0) is None))
        e.oblige(start(), 'no thread is started', z3.BoolVal(not w.tasks))
        e.oblige(start(), 'returns', z3.BoolVal(n > 0))
    v.unit('Connection::memory', S, mem)

    def join(e):
        ity = tyof(e, 'io_thread::IoThreads')
        fs = [None] * len(e.p.types[ity]['variants'][0]['fields'])
        for x in ('reader', 'writer'):
            fs[field_index(e, ity, x)] = G('JoinHandle', who=x)
        w = Watch(e)
        e.mon = JoinMon()
        n = 0
        for o in call(e, start(), v.find(S, 'io_thread::IoThreads', 'join'), [Agg(ity, 0, fs)]):
            n += 1
            if o.kind != 'panic':
                for s, ok, p in results(e, o):
                    if ok:
                        e.oblige(s, 'joining succeeds only after both threads have ended', z3.And([s.g('joined:' + x) if ('g', 'joined:' + x) in s.store else z3.BoolVal(False) for x in ('reader', 'writer')]))
        e.oblige(start(), 'joining waits for the two threads and nothing else', z3.BoolVal(n > 0 and w.waits <= {'output lock'}))
    v.unit('IoThreads::join', S, join)

    for n in ('initialize', 'handle_shutdown', 'send', 'try_send', 'send_timeout', 'send_deadline'):
        api(v, n)

    def read(e):
        props_io.install_read_waiting(e)
        st = props_io.read_state(e)
        src = e.new_cell(st, G('source'))
        seen = set()
        for o in call(e, st, v.find(S, 'message::Message', 'read'), [src]):
            if no_panic(e, o):
                for s, ok, p in results(e, o):
                    seen.add(ok)
        e.oblige(start(), 'returns', z3.BoolVal(seen == {True, False}))
    v.unit('Message::read', S, read)

    def write(e):
        M, msg, outs = props_io.run_write(v, e)
        for o in outs:
            if no_panic(e, o):
                for s, ok, p in results(e, o):
                    if ok:
                        e.oblige(s, 'everything written was flushed, nothing is held back', s.g('flushed') == z3.Length(s.g('out')))
    v.unit('Message::write', S, write)
