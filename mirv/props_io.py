"""C01-C04: framing of messages on a byte stream."""
from spec import *
from contracts import S as bytes_of, wr, fmt_string, T, jterm, ret, bytesval

CR = 'bsp_server'
CRLF = bytesval(b'\r\n')
NL = bytesval(b'\n')
SEP = bytesval(b': ')
EMPTY = z3.StringVal('')
CL = z3.StringVal('Content-Length')


def follow(e, st, r):
    """a reference chain down to the place that holds a non-reference"""
    while isinstance(e.load(st, r), (Ref, PRef)):
        r = e.load(st, r)
    return r


def over(e, rx, h, doc):
    rx = re.compile(rx)
    e.contracts.over.append((lambda e, c: bool(rx.search(c.path)), h, doc))


# ------------------------------------------------------------ texts
def dec(e, n):
    """decimal text of n, with the facts about it that matter"""
    d = e.fn('dec', INT, STR)(n)
    return d


def dec_facts(e, n):
    d = dec(e, n)
    K.sknow(e, d, no=[b'\n', b':', b'\r', b' '], nonempty=True)
    e.fact(z3.And(z3.Length(d) >= 1, z3.Length(d) <= 20, z3.Not(z3.Contains(d, NL)), z3.Not(z3.Contains(d, z3.StringVal(':'))),
                  z3.Not(z3.Contains(d, bytesval(b'\r'))), uint(e, d), uval(e, d) == n))


def uint(e, s):
    return e.fn('is_decimal', STR, BOOL)(s)


def uval(e, s):
    v = e.fn('decimal_value', STR, INT)(s)
    e.fact(v >= 0)
    return v


def parse_int(e, st, c):
    """parse::<uN>(s) is Ok(decimal value of s) exactly if s is a decimal number within N bits; a signed type also takes a minus sign"""
    s = bytes_of(e, st, c.args[0])
    ty = e.arg(c.destty, 0)
    t = e.p.types[ty]
    if t['k'] != 'int':
        raise Unsupported('parse')
    lo, hi = e.int_range(ty)
    if lo == 0:
        okp, val = z3.And(uint(e, s), uval(e, s) <= hi), uval(e, s)
    else:
        sok = e.fn('is_signed_decimal', STR, BOOL)(s)
        val = e.fn('signed_value', STR, INT)(s)
        e.fact(z3.Implies(uint(e, s), z3.And(sok, val == uval(e, s))))
        e.fact(z3.Implies(z3.And(sok, val > 0), uint(e, s)))
        okp = z3.And(sok, val >= lo, val <= hi)
    a, b = e.split(st, okp)
    out = []
    if a is not None:
        out.append((a, e.ok(c.destty, val)))
    if b is not None:
        out.append((b, e.err(c.destty, e.fresh_val('parseerr', e.arg(c.destty, 1)))))
    return out


def utf8(e, s):
    return e.fn('utf8', STR, BOOL)(s)


def json_text(e, s):
    """(is JSON text, its value)"""
    okp = e.fn('is_json_text', STR, BOOL)(s)
    e.fact(z3.Implies(okp, utf8(e, s)))
    return okp, e.fn('json_value', STR, U)(s)


def from_text(e, st, c):
    """from_str / from_slice: Ok(de_T(j)) if the text is JSON (hence UTF-8) with a value j that ok_T(j), else Err"""
    s = bytes_of(e, st, c.args[0])
    ty = e.arg(c.destty, 0)
    okp, j = json_text(e, s)
    st.setg('parsed', s)
    st.setg('didparse', z3.BoolVal(True))
    a, b = e.split(st, z3.And(okp, de_ok(e, ty, j)))
    out = []
    if a is not None:
        out.append((a, e.ok(c.destty, de_val(e, ty, j))))
    if b is not None:
        out.append((b, e.err(c.destty, e.fresh_val('jsonerr', e.arg(c.destty, 1)))))
    return out


# ------------------------------------------------------------ writing
class Texts:
    """JSON texts made so far: [(text term, entries)]"""

    def __init__(self):
        self.l = []


def to_text(e, st, c, fin):
    """to_string and the like: Ok(a JSON text of the value, in UTF-8), or Err; the value's own Serialize impl is followed"""
    ty = e.p.strip(c.targs[-1])
    vi = len(c.args) - 1
    its = [it for it in e.p.impls('Serialize', 'serialize') if e.p.name(it['self']) == e.p.name(ty)]
    v = e.deref(st, c.args[vi])

    def done(s, jout):
        t = e.fresh('text', STR)
        e.fact(z3.And(z3.Length(t) >= 1, z3.Length(t) < (1 << 62), utf8(e, t)))
        dec_facts(e, z3.Length(t))
        e.texts.l.append((t, jout))
        return fin(s, t)

    def after(s, r):
        out = []
        if not isinstance(r, Agg):
            raise Unsupported('serialisation result')
        if r.variant == 0:
            return done(s, r.fields[0])
        serfail_(s)
        return [(s, e.err(c.destty, e.fresh_val('jsonerr', e.arg(c.destty, 1))))]
    if len(its) == 1 and e.p.types[ty]['local'] and not e.p.name(ty).endswith('Message'):
        e.push(st, its[0]['key'], [PRef(v), G('ser')], None, None, after)
        return [(st, PUSHED)]
    j = json_of(e, st, c.targs[-1], v)
    s2 = st.fork()
    serfail_(s2)
    return done(st, G('jout', what='val', term=j)) + [(s2, e.err(c.destty, e.fresh_val('jsonerr', e.arg(c.destty, 1))))]


def serfail_(st):
    st.setg('serfail', z3.BoolVal(True))


def install_write(e):
    e.texts = Texts()

    def emit(e, st, c, text, okv):
        """appends the bytes to the stream, or fails"""
        snk = e.deref(st, c.args[0])
        if not (isinstance(snk, G) and snk.kind == 'sink'):
            raise Unsupported('write to ' + str(snk))
        s2 = st.fork()
        s2.setg('failed', z3.BoolVal(True))
        s2.setg('out', e.fresh('partial', STR))
        st.setg('out', z3.Concat(st.g('out'), text))
        return [(st, e.ok(c.destty, okv)), (s2, e.err(c.destty, e.fresh_val('ioerr', e.arg(c.destty, 1))))]

    def h_fmt(e, st, c):
        return emit(e, st, c, fmt_string(e, st, c.args[1]), e.unit())

    def h_all(e, st, c):
        return emit(e, st, c, bytes_of(e, st, c.args[1]), e.unit())

    def h_write(e, st, c):
        b = bytes_of(e, st, c.args[1])
        n = e.fresh('written', INT)
        st.pc.append(z3.And(n >= 0, n <= z3.Length(b)))
        return emit(e, st, c, z3.SubString(b, 0, n), n)

    def h_flush(e, st, c):
        s2 = st.fork()
        s2.setg('failed', z3.BoolVal(True))
        st.setg('flushed', z3.Length(st.g('out')))
        return [(st, e.ok(c.destty, e.unit())), (s2, e.err(c.destty, e.fresh_val('ioerr', e.arg(c.destty, 1))))]

    over(e, r'^std::io::Write::write_fmt$', h_fmt, 'Write::write_fmt appends the formatted text, or fails')
    over(e, r'^std::io::Write::write_all$', h_all, 'Write::write_all appends all the bytes, or fails')
    over(e, r'^std::io::Write::write$', h_write, 'Write::write appends some leading bytes and says how many, or fails')
    over(e, r'^std::io::Write::flush$', h_flush, 'Write::flush flushes what was written so far, or fails')
    over(e, r'^std::io::Write::by_ref$', lambda e, st, c: ret(st, c.args[0]), 'Write::by_ref is the same stream')
    over(e, r'^serde_json::(ser::)?(to_string|to_vec|to_string_pretty|to_vec_pretty)$', lambda e, st, c: to_text(e, st, c, lambda s, t: [(s, e.ok(c.destty, t))]), 'serde_json::to_string gives a JSON text (UTF-8) of the value, or fails if its Serialize does')

    def h_writer(e, st, c):
        s2 = st.fork()
        s2.setg('failed', z3.BoolVal(True))
        s2.setg('out', e.fresh('partial', STR))
        bad = [(s2, e.err(c.destty, e.fresh_val('jsonerr', e.arg(c.destty, 1))))]
        w = e.deref(st, c.args[0])

        def fin(s, t):
            if isinstance(w, G) and w.kind == 'sink':
                s.setg('out', z3.Concat(s.g('out'), t))
            elif isz(w) and w.sort() == STR:
                wr(e, s, c.args[0], z3.Concat(w, t))
            else:
                raise Unsupported('to_writer')
            return [(s, e.ok(c.destty, e.unit()))]
        rs = to_text(e, st, c, fin)
        return rs + (bad if isinstance(w, G) else [])
    over(e, r'^serde_json::(ser::)?to_writer(_pretty)?$', h_writer, 'serde_json::to_writer appends a JSON text of the value to the stream, or fails')
    # a Vec<u8> as a byte sink never fails
    wfm = lambda e, c: c.path in ('std::io::Write::write_fmt', 'std::io::Write::write_all', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_str') and e.is_str(e.p.strip(c.argtys[0]))

    def h_vec(e, st, c):
        t = fmt_string(e, st, c.args[1]) if c.name == 'write_fmt' else bytes_of(e, st, c.args[1])
        wr(e, st, c.args[0], z3.Concat(bytes_of(e, st, c.args[0]), t))
        return ret(st, e.ok(c.destty, e.unit()))
    e.contracts.over.insert(0, (wfm, h_vec, 'writing to a String or Vec<u8> appends'))


def write_state(e):
    st = start()
    st.setg('out', EMPTY)
    st.setg('flushed', z3.IntVal(-1))
    st.setg('failed', z3.BoolVal(False))
    return st


def run_write(v, e):
    M = Msg(e)
    install_write(e)
    msg = Sym(M.ty, z3.Const('msg', U))
    st = write_state(e)
    snk = e.new_cell(st, G('sink'))
    key = v.find(CR, 'message::Message', 'write')
    return M, msg, call(e, st, key, [msg, snk])


def C01(v):
    write_unit(v)
    # what Message::write assumes of the encoders below it: they return
    coders_total(v, 'Serialize')


def write_unit(v):
    def body(e):
        M, msg, outs = run_write(v, e)
        seen = set()
        for o in outs:
            if not no_panic(e, o):
                continue
            for s, ok, p in results(e, o):
                seen.add(ok)
                if not ok:
                    e.oblige(s, 'fails only if serialising, writing or flushing fails', z3.Or(s.g('failed'), s.g('serfail')))
                    continue
                e.oblige(s, 'succeeds only if serialising, writing and flushing all did', z3.Not(z3.Or(s.g('failed'), s.g('serfail'))))
                e.oblige(s, 'everything written was flushed', s.g('flushed') == z3.Length(s.g('out')))
                want = {'jsonrpc': jstr(e, '2.0'), '*': json_of(e, s, M.ty, msg)}
                frames = []
                for t, jout in e.texts.l:
                    if jout.what == 'obj' and sorted(k for k, _ in jout.entries) == sorted(want):
                        good = z3.And([j == want[k] for k, j in jout.entries])
                        frame = z3.Concat(z3.StringVal('Content-Length: '), dec(e, z3.Length(t)), CRLF, CRLF, t)
                        frames.append(z3.And(good, s.g('out') == frame))
                e.oblige(s, 'the bytes written are Content-Length: N, an empty line and N bytes of JSON with the message\'s members and jsonrpc "2.0"', z3.Or(frames) if frames else z3.BoolVal(False))
        e.oblige(start(), 'success and failure are reachable', z3.BoolVal(seen == {True, False}))
    v.unit('Message::write', CR, body)


# ------------------------------------------------------------ reading
def install_parse(e):
    e.contracts.over.append((lambda e, c: c.name == 'parse' and c.path.endswith('str>::parse') or c.path.endswith('FromStr::from_str') and e.p.types[e.arg(c.destty, 0)]['k'] == 'int', parse_int,
                             'str::parse::<integer>: Ok(value) exactly for a decimal number in range'))
    over(e, r'^serde_json::(de::)?(from_str|from_slice)$', from_text, 'serde_json::from_str/from_slice: the value of a JSON text decoded as T, or an error')
    over(e, r'^std::io::Read::by_ref$', lambda e, st, c: ret(st, c.args[0]), 'Read::by_ref is the same stream')

    def h_take(e, st, c):
        src = follow(e, st, c.args[0])
        return ret(st, G('take', src=src, left=c.args[1]))
    over(e, r'^std::io::Read::take$', h_take, 'Read::take limits the stream to the next n bytes')


def source(e, st, r):
    """-> (source G, limit term or None, reference to the take or None)"""
    r = follow(e, st, r)
    g = e.load(st, r)
    if isinstance(g, G) and g.kind == 'source':
        return g, None, None
    if isinstance(g, G) and g.kind == 'take' and isinstance(e.load(st, follow(e, st, g.src)), G) and e.load(st, follow(e, st, g.src)).kind == 'source':
        return e.load(st, follow(e, st, g.src)), g, r
    raise Unsupported('stream ' + str(g))


def install_read(e):
    """an arbitrary input stream, seen through a header automaton (ghosts) and the bytes taken after the headers"""
    install_parse(e)
    wait = getattr(e, 'onwait', lambda e, st, most, least: None)   # before the input is asked for at most / at least so much

    def io_err(e, st, c):
        st.setg('ioerr', z3.BoolVal(True))
        return (st, e.err(c.destty, e.fresh_val('ioerr', e.arg(c.destty, 1))))

    MID = 9   # ghost phase: a header line was taken in part

    def within(e, st):
        if getattr(e, 'cutlines', False) and e.check(st.pc + [st.g('phase') == MID]) != z3.unsat:
            raise Unsupported('a header line taken in several parts')

    def line(e, st, c, buf):
        src, lim, tref = source(e, st, c.args[0])
        within(e, st)
        e.oblige(st, 'a header line is read only where one begins', st.g('phase') == 0)
        s2 = st.fork()
        # after an error the buffer may hold anything
        wr(e, s2, buf, e.fresh('junk', STR))
        out = [io_err(e, s2, c)]
        ended = z3.Or(st.g('ended'), st.g('eof'))
        old = bytes_of(e, st, buf)

        no = lambda x, p: z3.Not(z3.Contains(x, p))

        def case(s, L, n, **gs):
            for k, x in gs.items():
                s.setg(k, x)
            if lim is not None:
                s.pc.append(n <= lim.left)
                e.store_ref(s, tref, lim.upd(left=lim.left - n))
            wr(e, s, buf, L if z3.is_true(z3.simplify(old == EMPTY)) else z3.Concat(old, L))
            out.append((s, e.ok(c.destty, n)))
        small = lambda x: z3.Length(x) < (1 << 61)
        if lim is not None:
            # the limit falls within a line, here a well-formed one with a name of no importance (the others cannot be told from it): its first bytes only
            cut = st.fork()
            b = e.fresh('cut', STR)
            cut.pc.append(z3.And(z3.Or(lim.left == 0, z3.Not(ended)), lim.left >= 0, (b == EMPTY) == (lim.left == 0), no(b, NL)))
            K.sknow(e, b, no=[b'\n'])
            cut.setg('phase', z3.If(lim.left == 0, cut.g('phase'), z3.IntVal(MID)))
            e.cutlines = True
            wr(e, cut, buf, b if z3.is_true(z3.simplify(old == EMPTY)) else z3.Concat(old, b))
            e.store_ref(cut, tref, lim.upd(left=z3.IntVal(0)))
            out.append((cut, e.ok(c.destty, lim.left)))
        # the end of the stream
        case(st.fork(), EMPTY, z3.IntVal(0), ended=z3.BoolVal(True), eof=z3.BoolVal(True))
        st.pc.append(z3.Not(ended))
        if not e.feasible(st):
            return out
        tick(st)
        # an empty line
        case(st.fork(), CRLF, z3.IntVal(2), phase=z3.IntVal(1))
        # name: value
        s = st.fork()
        name, val = e.fresh('name', STR), e.fresh('value', STR)
        # the first ": " is the one after the name
        s.pc.append(z3.And(small(name), small(val), no(name, NL), no(val, NL), no(name, SEP)))
        K.sknow(e, name, no=[b'\n', b': '])
        K.sknow(e, val, no=[b'\n'])
        good = z3.And(uint(e, val), uval(e, val) <= (1 << 64) - 1)
        iscl = name == CL
        g2 = z3.And(iscl, good)
        case(s, z3.Concat(name, SEP, val, CRLF), z3.Length(name) + z3.Length(val) + 4, size=z3.If(g2, uval(e, val), s.g('size')), has=z3.Or(s.g('has'), g2),
             bad=z3.Or(s.g('bad'), z3.And(iscl, z3.Not(good))))
        # no separator
        s = st.fork()
        x = e.fresh('text', STR)
        s.pc.append(z3.And(small(x), no(x, NL), no(x, SEP), x != EMPTY))
        K.sknow(e, x, no=[b'\n', b': '], nonempty=True)
        case(s, z3.Concat(x, CRLF), z3.Length(x) + 2, bad=z3.BoolVal(True))
        # a line feed alone
        s = st.fork()
        x = e.fresh('text', STR)
        s.pc.append(z3.And(small(x), no(x, NL), z3.Not(z3.SuffixOf(bytesval(b'\r'), x))))
        K.sknow(e, x, no=[b'\n'], nosuf=[b'\r'])
        case(s, z3.Concat(x, NL), z3.Length(x) + 1, bad=z3.BoolVal(True))
        # no line end: the stream ends here
        x = e.fresh('text', STR)
        st.pc.append(z3.And(small(x), no(x, NL), x != EMPTY))
        K.sknow(e, x, no=[b'\n'], nonempty=True)
        case(st, x, z3.Length(x), bad=z3.BoolVal(True), eof=z3.BoolVal(True))
        return out

    def h_line(e, st, c):
        return line(e, st, c, c.args[1])

    def h_until(e, st, c):
        d = z3.simplify(c.args[1])
        if not (z3.is_int_value(d) and d.as_long() == 10):
            raise Unsupported('read_until another byte')
        return line(e, st, c, c.args[2])
    over(e, r'^std::io::BufRead::read_line$', h_line, 'BufRead::read_line appends the bytes up to and including the next newline or the end of the stream (0 bytes at the end), or fails')
    over(e, r'^std::io::BufRead::read_until$', h_until, 'BufRead::read_until(newline) does the same for bytes')

    def took(e, st, c, b, n, limit, tref, short):
        """n bytes b were taken from the body"""
        st.setg('body', b if z3.is_true(z3.simplify(st.g('body') == EMPTY)) else z3.Concat(st.g('body'), b))
        st.setg('taken', st.g('taken') + n)
        st.setg('short', z3.Or(st.g('short'), short))
        if tref is not None:
            e.store_ref(st, tref, limit.upd(left=limit.left - n))

    def phase1(e, st):
        within(e, st)
        e.oblige(st, 'body bytes are taken only after the empty line', st.g('phase') == 1)

    def h_to_end(e, st, c):
        src, lim, tref = source(e, st, c.args[0])
        phase1(e, st)
        if lim is None:
            e.oblige(st, 'bytes are taken only up to the announced length', z3.BoolVal(False))
            raise Unsupported('read to the end of the stream')
        s2 = st.fork()
        wr(e, s2, c.args[1], e.fresh('junk', STR))
        b = e.fresh('bytes', STR)
        n = z3.Length(b)
        wait(e, st, lim.left, lim.left)
        st.pc.append(z3.And(n <= lim.left, z3.Implies(z3.Or(st.g('eof'), st.g('short')), n == 0), n < (1 << 62)))
        old = bytes_of(e, st, c.args[1])
        full = b if z3.is_true(z3.simplify(old == EMPTY)) else z3.Concat(old, b)
        took(e, st, c, b, n, lim, tref, n < lim.left)
        out = [io_err(e, s2, c)]
        if c.name == 'read_to_string':
            # not UTF-8: an error, the bytes are consumed
            a, bad = e.split(st, utf8(e, b))
            if bad is not None:
                bad.setg('notutf8', z3.BoolVal(True))
                out.append((bad, e.err(c.destty, e.fresh_val('utf8err', e.arg(c.destty, 1)))))
            st = a
        if st is not None:
            wr(e, st, c.args[1], full)
            out.append((st, e.ok(c.destty, n)))
        return out
    over(e, r'^std::io::Read::(read_to_end|read_to_string)$', h_to_end, 'Read::read_to_end / read_to_string on a limited stream appends the bytes up to the limit or the end of the stream, or fails (read_to_string also if they are not UTF-8)')

    def h_exact(e, st, c):
        src, lim, tref = source(e, st, c.args[0])
        phase1(e, st)
        if lim is not None:
            raise Unsupported('read_exact on a limited stream')
        want = z3.Length(bytes_of(e, st, c.args[1]))
        wait(e, st, want, want)
        s2, s3 = st.fork(), st.fork()
        wr(e, s2, c.args[1], e.fresh('junk', STR))
        wr(e, s3, c.args[1], e.fresh('junk', STR))
        b = e.fresh('bytes', STR)
        st.pc.append(z3.And(z3.Length(b) == want, z3.Implies(z3.Or(st.g('eof'), st.g('short')), want == 0)))
        took(e, st, c, b, want, None, None, z3.BoolVal(False))
        wr(e, st, c.args[1], b)
        s3.pc.append(want > 0)
        s3.setg('short', z3.BoolVal(True))
        # what was taken before the end is unknown, but less than asked for
        k = e.fresh('got', INT)
        s3.pc.append(z3.And(k >= 0, k < want))
        s3.setg('taken', s3.g('taken') + k)
        s3.setg('body', e.fresh('partial', STR))
        return [(st, e.ok(c.destty, e.unit())), io_err(e, s2, c), (s3, e.err(c.destty, e.fresh_val('eof', e.arg(c.destty, 1))))]
    over(e, r'^std::io::Read::read_exact$', h_exact, 'Read::read_exact fills the buffer, or fails (also if the stream ends before)')

    def h_read(e, st, c):
        src, lim, tref = source(e, st, c.args[0])
        phase1(e, st)
        want = z3.Length(bytes_of(e, st, c.args[1]))
        wait(e, st, want if lim is None else z3.If(lim.left < want, lim.left, want), 1)
        s2 = st.fork()
        b = e.fresh('bytes', STR)
        n = z3.Length(b)
        top = want if lim is None else z3.If(lim.left < want, lim.left, want)
        st.pc.append(z3.And(n <= top, z3.Implies(z3.Or(st.g('eof'), st.g('short')), n == 0)))
        took(e, st, c, b, n, lim, tref, z3.And(n == 0, top > 0))
        old = bytes_of(e, st, c.args[1])
        wr(e, st, c.args[1], z3.Concat(b, z3.SubString(old, n, z3.Length(old) - n)))
        return [(st, e.ok(c.destty, n)), io_err(e, s2, c)]
    over(e, r'^std::io::Read::read$', h_read, 'Read::read puts some next bytes at the front of the buffer and says how many (0 only at the end), or fails')

    def templates(e, entry, template, ev, nm):
        out = []
        for k in template:
            o = ev[k]
            if e.is_option(o) and e.p.types[e.arg(o.ty, 0)]['k'] == 'int':
                def f(v, st, k=k):
                    x = v[k]
                    if x is None:
                        return None
                    c = [(e.vidx(x) == 1) == st.g('has')]
                    if not (isinstance(x, Agg) and x.variant == 0):
                        c.append(z3.Implies(st.g('has'), e.field(x, 1, 0) == st.g('size')))
                    return z3.And(c)
                out.append((f'{nm(k)} is the announced length', f))
            elif isz(o) and o.sort() == INT:
                out.append((f'{nm(k)} is the announced length if any', lambda v, st, k=k: None if v[k] is None else z3.Implies(st.g('has'), v[k] == st.g('size'))))
        out.append(('the phase is 0 or 1', lambda v, st: z3.Or(st.g('phase') == 0, st.g('phase') == 1)))
        out.append(('the announced length is in range', lambda v, st: z3.And(st.g('size') >= 0, st.g('size') < (1 << 64))))
        out.append(('all bytes taken are in the body', lambda v, st: z3.And(st.g('taken') == z3.Length(st.g('body')), st.g('taken') >= 0)))
        return out
    e.inv_templates = templates


def read_state(e):
    st = start()
    for n in ('has', 'bad', 'ended', 'eof', 'ioerr', 'short', 'notutf8', 'didparse'):
        st.setg(n, z3.BoolVal(False))
    st.setg('phase', z3.IntVal(0))
    st.setg('size', z3.IntVal(0))
    st.setg('taken', z3.IntVal(0))
    st.setg('body', EMPTY)
    st.setg('parsed', EMPTY)
    return st


def read_run(v, which):
    def body(e):
        M = Msg(e)
        install_read(e)
        st = read_state(e)
        src = e.new_cell(st, G('source'))
        seen = set()
        for o in call(e, st, v.find(CR, 'message::Message', 'read'), [src]):
            if o.kind == 'panic':
                if which != 'C02':
                    no_panic(e, o)
                continue
            for s, ok, p in results(e, o):
                g = s.g
                whole = z3.And(g('phase') == 1, g('taken') == g('size'), z3.Length(g('body')) == g('size'))
                jok, j = json_text(e, g('body'))
                valid = z3.And(utf8(e, g('body')), jok, de_ok(e, M.ty, j))
                if not ok:
                    seen.add('err')
                    if which != 'C03':
                        e.oblige(s, 'fails only for a malformed or truncated frame, an invalid message or a failure of the stream',
                                 z3.Or(g('ioerr'), g('bad'), z3.And(g('phase') == 1, z3.Not(g('has'))), g('short'), g('notutf8'), z3.And(whole, z3.Not(valid))))
                    continue
                for some in (0, 1):
                    a, _ = e.split(s.fork(), e.vidx(p) == some)
                    if a is None:
                        continue
                    seen.add(some)
                    g = a.g
                    if some == 0:
                        if which != 'C03':
                            e.oblige(a, 'end of stream is reported only where a header line would begin', g('ended'))
                        if which != 'C02':
                            e.oblige(a, 'end of stream is not reported for a malformed frame or a failure', z3.Not(z3.Or(g('bad'), g('ioerr'), g('short'), g('phase') == 1)))
                        continue
                    m = e.field(p, 1, 0)
                    if which != 'C03':
                        e.oblige(a, 'the headers up to the first empty line were consumed', g('phase') == 1)
                        e.oblige(a, 'exactly the announced number of bytes was consumed after them', z3.And(g('taken') == g('size'), z3.Length(g('body')) == g('size')))
                        e.oblige(a, 'the message is the decoding of exactly these bytes', e.reify(a, m) == e.reify(a, de_val(e, M.ty, j)))
                    if which != 'C02':
                        e.oblige(a, 'no message from malformed headers', z3.Not(g('bad')))
                        e.oblige(a, 'no message without a Content-Length', g('has'))
                        e.oblige(a, 'no message after a failure or from a short body', z3.Not(z3.Or(g('ioerr'), g('short'))))
                        e.oblige(a, 'no message from bytes that are not a valid message in UTF-8', valid)
        e.oblige(start(), 'a message, the end of the stream and an error are reachable', z3.BoolVal(seen == {0, 1, 'err'}))
    v.unit('Message::read', CR, body)


def C02(v):
    read_run(v, 'C02')


def C03(v):
    read_run(v, 'C03')
    # what Message::read assumes of the decoders below it: they return
    coders_total(v, 'Deserialize')


# ------------------------------------------------------------ write then read
def flat(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for i in range(t.num_args()) for x in flat(t.arg(i))]
    return [t]


def cat(ps):
    ps = [p for p in ps if not (z3.is_string_value(p) and p.as_string() == '')]
    return EMPTY if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)


def C04(v):
    def body(e):
        M, msg, outs = run_write(v, e)
        n_ok = 0
        install_parse(e)
        e.unroll = 12
        rest = z3.Const('rest', STR)

        def pieces(st):
            return list(st.g('in').ps)

        def setp(st, ps):
            st.setg('in', G('stream', ps=tuple(ps)))

        def is_src(e, st, r):
            src, lim, tref = source(e, st, r)
            return lim, tref

        def h_line(e, st, c):
            lim, _ = is_src(e, st, c.args[0])
            if lim is not None:
                raise Unsupported('lines of a limited stream')
            buf = c.args[2] if c.name == 'read_until' else c.args[1]
            if c.name == 'read_until' and not (z3.is_int_value(z3.simplify(c.args[1])) and z3.simplify(c.args[1]).as_long() == 10):
                raise Unsupported('read_until another byte')
            ps, got = pieces(st), []
            while ps:
                p = ps.pop(0)
                if z3.is_string_value(p):
                    b = K.z3_bytes(p)
                    if 10 in b:
                        i = b.index(10) + 1
                        got.append(bytesval(bytes(b[:i])))
                        if b[i:]:
                            ps.insert(0, bytesval(bytes(b[i:])))
                        break
                    got.append(p)
                elif e.check(st.pc + [z3.Contains(p, NL)]) == z3.unsat:
                    got.append(p)
                else:
                    # the line may end anywhere within unknown bytes: the frame boundary is lost
                    e.oblige(st, 'header lines are read only from the header that was written', z3.BoolVal(False))
                    raise Unsupported('line within unknown bytes')
            L = cat(got)
            setp(st, ps)
            old = bytes_of(e, st, buf)
            wr(e, st, buf, L if z3.is_true(z3.simplify(old == EMPTY)) else z3.Concat(old, L))
            return [(st, e.ok(c.destty, z3.Length(L)))]

        def cut(e, st, n):
            """the first n bytes of the stream, as pieces; (got, rest) or None"""
            ps, got = pieces(st), []
            need = n
            while ps:
                if e.check(st.pc + [need != 0]) == z3.unsat:
                    return got, ps
                p = ps.pop(0)
                lp = z3.Length(p)
                if e.check(st.pc + [lp > need]) == z3.unsat:
                    got.append(p)
                    need = need - lp
                    continue
                if z3.is_string_value(p):
                    k = z3.simplify(need)
                    b = K.z3_bytes(p)
                    for k in range(len(b) + 1):
                        if e.check(st.pc + [need != k]) == z3.unsat:
                            got.append(bytesval(bytes(b[:k])))
                            return got, [bytesval(bytes(b[k:]))] + ps
                return None
            return (got, ps) if e.check(st.pc + [need != 0]) == z3.unsat else None

        def lost(e, st, c):
            e.oblige(st, 'the bytes taken as the body are the text that was written', z3.BoolVal(False))
            raise Unsupported('cut within unknown bytes')

        def h_to_end(e, st, c):
            lim, tref = is_src(e, st, c.args[0])
            if lim is None:
                lost(e, st, c)
            r = cut(e, st, lim.left)
            if r is None:
                lost(e, st, c)
            got, ps = r
            b = cat(got)
            setp(st, ps)
            e.store_ref(st, tref, lim.upd(left=z3.IntVal(0)))
            out = []
            if c.name == 'read_to_string':
                st, bad = e.split(st, utf8(e, b))
                if bad is not None:
                    out.append((bad, e.err(c.destty, e.fresh_val('utf8err', e.arg(c.destty, 1)))))
            if st is not None:
                old = bytes_of(e, st, c.args[1])
                wr(e, st, c.args[1], b if z3.is_true(z3.simplify(old == EMPTY)) else z3.Concat(old, b))
                out.append((st, e.ok(c.destty, z3.Length(b))))
            return out

        def h_exact(e, st, c):
            lim, tref = is_src(e, st, c.args[0])
            if lim is not None:
                raise Unsupported('read_exact on a limited stream')
            r = cut(e, st, z3.Length(bytes_of(e, st, c.args[1])))
            if r is None:
                lost(e, st, c)
            got, ps = r
            setp(st, ps)
            wr(e, st, c.args[1], cat(got))
            return [(st, e.ok(c.destty, e.unit()))]
        over(e, r'^std::io::BufRead::(read_line|read_until)$', h_line, 'BufRead::read_line / read_until(newline) takes the bytes up to and including the next newline')
        over(e, r'^std::io::Read::(read_to_end|read_to_string)$', h_to_end, 'Read::read_to_end / read_to_string takes the bytes up to the limit')
        over(e, r'^std::io::Read::read_exact$', h_exact, 'Read::read_exact fills the buffer with the next bytes')
        key = v.find(CR, 'message::Message', 'read')
        for o in outs:
            if o.kind == 'panic':
                continue
            for s, ok, p in results(e, o):
                if not ok:
                    continue
                n_ok += 1
                out = z3.simplify(s.g('out'))
                texts = [(t, j) for t, j in e.texts.l if any(x.eq(t) for x in flat(out))]
                e.oblige(s, 'one JSON text is written', z3.BoolVal(len(texts) == 1))
                if len(texts) != 1:
                    continue
                text = texts[0][0]
                s.frames = []
                for n in ('didparse',):
                    s.setg(n, z3.BoolVal(False))
                s.setg('parsed', EMPTY)
                setp(s, flat(out) + [rest])
                src = e.new_cell(s, G('source'))
                seen = set()
                for o2 in call(e, s, key, [src]):
                    if not no_panic(e, o2, ' when reading back'):
                        continue
                    for s2, ok2, p2 in results(e, o2):
                        e.oblige(s2, 'the text read back is the text written', z3.And(s2.g('didparse'), s2.g('parsed') == text))
                        e.oblige(s2, 'exactly the bytes after the frame are left unread', cat(pieces(s2)) == rest)
                        if ok2:
                            seen.add(True)
                            e.oblige(s2, 'the end of the stream is not reported', e.vidx(p2) == 1)
                e.oblige(s, 'reading back can succeed', z3.BoolVal(seen == {True}))
        e.oblige(start(), 'writing can succeed', z3.BoolVal(n_ok > 0))
    v.unit('Message::read after Message::write', CR, body)


def install_read_waiting(e):
    """the input stream, with the obligation that it is not waited for beyond the frame"""
    def wait(e, st, most, least):
        e.oblige(st, 'input is waited for only while the message is incomplete', z3.Or(most == 0, st.g('phase') == 0, st.g('taken') + least <= st.g('size')))
    e.onwait = wait
    install_read(e)
