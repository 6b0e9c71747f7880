"""The common oracle: one random schema and record, run through the repository's
compiler and VM and through the reference model, compared event by event and byte by byte."""
import math
import gen, model, schema as S
from drv import Driver, Crash, Timeout, FLAG, parse_event
from model import Machine, RC, OK


class Violation(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Skip(Exception):
    """The case turned out not to be usable (resource limits of the model)."""


def flags_text(fl):
    return ', '.join(t for b, t in FLAG.items() if fl & b)


def describe(s, style=None):
    return S.render(s, style)


class Case:
    """A compiled schema loaded in a driver slot."""

    def __init__(self, drv, s, text, slot=0):
        self.drv, self.s, self.text, self.slot = drv, s, text, slot
        rc, diag, il = drv.compile(text)
        if rc != 0 or not il:
            raise Violation('compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:400], schema=text)
        self.il = il
        self.ld = drv.load(slot, il)
        if self.ld.rc != 0:
            raise Violation('load-refused', 'the compiled image does not load: %s' % RC[self.ld.rc], schema=text)
        if self.ld.verify != 0:
            raise Violation('verify-refused', 'the verifier refuses the compiled program: %d' % self.ld.verify, schema=text)
        self.names = [n.decode() if n is not None else None for n in self.ld.names]

    # model runs
    def enc_model(self, prov, fill=0):
        try:
            return Machine(self.s, 'enc', prov, fill=fill).run()
        except OverflowError:
            raise Skip

    def dec_model(self, data):
        try:
            return Machine(self.s, 'dec', data=data).run()
        except OverflowError:
            raise Skip

    def info(self, **kw):
        d = dict(schema=self.text)
        d.update({k: (v.hex() if isinstance(v, (bytes, bytearray)) else v) for k, v in kw.items()})
        return d

    def compare_events(self, res, m, what, rawmode, info):
        exp = list(m.events)
        got = res.events
        for i in range(max(len(exp), len(got))):
            if i >= len(got):
                raise Violation(what + '-events', '%s: missing event %d: %s' % (what, i, show(exp[i])), **self.info(**info))
            op, key, val = parse_event(got[i])
            name = self.names[key] if key < len(self.names) else '?%d' % key
            if i >= len(exp):
                raise Violation(what + '-events', '%s: extra event %d: %s %s=%s' % (what, i, op, name, val), **self.info(**info))
            eop, epath, etext = exp[i]
            if not same_event(op, name, val, eop, epath, etext, rawmode):
                raise Violation(what + '-events', '%s: event %d is %s %s=%s, expected %s' % (what, i, op, name, val, show(exp[i])),
                                **self.info(**info))
        return len(exp)

    def check_encode(self, m, cap, fill=0, raw=0, ctxfill=0, events=True):
        res = self.drv.encode(self.slot, cap, m.tape, fill, raw, 0, ctxfill)
        info = dict(tape=' '.join(m.tape), cap=cap, fill=fill, raw=raw)
        if res.flags & 8:
            raise Timeout('encode')
        bad = res.flags & (1 | 16 | 32 | 64 | 2)
        if res.rc != m.rc:
            raise Violation('enc-rc', 'encode returned %s, expected %s' % (rcname(res.rc), rcname(m.rc)), **self.info(**info))
        if events:
            self.compare_events(res, m, 'encode', raw, info)
        if bad:
            raise Violation('enc-flags', 'encode: ' + flags_text(bad), **self.info(**info))
        if m.rc == OK:
            n = res.cursor + (1 if res.bits else 0)
            if (res.cursor, res.bits) != (m.pos, m.bit):
                raise Violation('enc-length', 'encode ended at %d+%d bits, expected %d+%d' % (res.cursor, res.bits, m.pos, m.bit), **self.info(**info))
            if res.data != bytes(m.buf[:n]):
                i = next(i for i in range(n) if res.data[i:i + 1] != bytes(m.buf[i:i + 1]))
                raise Violation('enc-bytes', 'encoded byte %d is %02x, expected %02x' % (i, res.data[i], m.buf[i]),
                                **self.info(got=res.data, want=bytes(m.buf), **info))
        return res

    def check_decode(self, data, raw=0, ctxfill=0, m=None):
        m = m or self.dec_model(data)
        res = self.drv.decode(self.slot, data, raw, 0, ctxfill)
        info = dict(data=bytes(data), raw=raw)
        if res.flags & 8:
            raise Timeout('decode')
        if res.rc != m.rc:
            raise Violation('dec-rc', 'decode returned %s, expected %s' % (rcname(res.rc), rcname(m.rc)), **self.info(**info))
        self.compare_events(res, m, 'decode', raw, info)
        bad = res.flags & (1 | 4 | 16 | 32)
        if bad:
            raise Violation('dec-flags', 'decode: ' + flags_text(bad), **self.info(**info))
        if m.rc == OK and (res.cursor, res.bits) != (m.pos, m.bit):
            raise Violation('dec-length', 'decode ended at %d+%d bits, expected %d+%d' % (res.cursor, res.bits, m.pos, m.bit), **self.info(**info))
        return res, m


def rcname(rc):
    return RC[rc] if 0 <= rc < len(RC) else str(rc)


def show(e):
    return '%02x %s=%s' % e


def same_event(op, name, val, eop, epath, etext, raw):
    if epath is not None and name != epath:
        return False
    if op != '%02x' % eop:
        # bulk bytes are reported as r8 whatever the element's sign
        if not (raw and op == 'r8' and eop in (0x10, 0x14)):
            return False
        return int(val) == int(etext) & 255
    if etext.startswith('~'):
        a, b = model.bits_f64(int(val)), float(etext[1:])
        return a == b or a != a and b != b or (math.isfinite(a) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))
    if etext == 'nan':
        v = model.bits_f64(int(val))
        return v != v
    if etext == val:
        return True
    if eop == 0x78:   # a computed value may differ in the last bits of a library function
        return close_words(int(val), int(etext))
    return False


def close_words(a, b):
    return False


ASKED = set(range(0x10, 0x1B)) | {0x20, 0x21, 0x22, 0x30, 0x31, 0x32, 0x33, 0x35, 0x36, 0x37}


def events_tape(events, own):
    """The answers that reproduce a decoded record: what the host was told, except for the
    values the schema itself provides (constants, computed fields, fixed counts)."""
    out = []
    for i, e in enumerate(events):
        if i in own:
            continue
        op, key, val = parse_event(e)
        if op == 'r8':
            out.append('%x' % int(val))
        elif int(op, 16) in ASKED:
            out.append(('s' + (val[1:] or '-')) if val.startswith('s') else '%x' % (int(val) & model.M64))
    return out


def check_balance(events):
    """Struct and array events nest properly; returns the deepest nesting."""
    stack, deep = [], 0
    for i, e in enumerate(events):
        op, key, val = parse_event(e)
        if op == '03':
            stack.append('struct')
        elif op in ('34', '35', '36', '37', '3b'):
            if int(val) > 0:
                stack.append('array')
        elif op in ('04', '38'):
            want = 'struct' if op == '04' else 'array'
            # an until-end array has an end event but no start event
            if stack and stack[-1] == want:
                stack.pop()
            elif want == 'array':
                continue
            else:
                raise Violation('unbalanced', 'event %d (%s) ends nothing' % (i, op))
        deep = max(deep, len(stack))
    if stack:
        raise Violation('unbalanced', 'not ended: %s' % stack)
    return deep
