"""Clients that talk to a library provider in every way a peer can."""
from urllib.parse import urlencode

from .adversary import HostileWorld
from .kernel import SimCrash
from . import rawreq
from .world import Indirect, apply_edits, kv_decode, parse_query, sign_fields

LIFETIME = 14 * 24 * 3600


class ProviderWorld(HostileWorld):
    """Steps: raw_req (browser request without a relying party), verify
    (direct verification of an issued assertion), assoc (att_assoc)."""

    def __init__(self, sim, cfg):
        HostileWorld.__init__(self, sim, cfg)
        self.verifies = []
        self.answers = []          # browser answers of providers
        self.raws = []             # requests of s_raw with everything that came of them
        self.handles_seen = []     # every handle that ever appeared in an answer

    def handle_ref(self, ref):
        """Resolve a symbolic handle: ['loot', n] ['out', n] or a literal."""
        if isinstance(ref, (list, tuple)):
            kind, n = ref
            if kind == 'loot':
                return self.loot[n % len(self.loot)]['handle'] if self.loot else 'none'
            outs = [a for a in self.answers if a['msg'] is not None and 'openid.assoc_handle' in a['msg'].args]
            return outs[n % len(outs)]['msg'].args['openid.assoc_handle'] if outs else 'none'
        return ref

    def s_raw_req(self, st):
        """A checkid request made up by a client."""
        op = self.ops[st.get('op', 0) % len(self.ops)]
        args = dict(st['args'])
        if st.get('handle') is not None:
            args['openid.assoc_handle'] = self.handle_ref(st['handle'])
        m = Indirect('GET', op.url, args)
        apply_edits(m, st.get('edits'))
        known = op.shared_now(m.args.get('openid.assoc_handle'))
        before = set(op.shared_handles())
        try:
            out = op.browser(m, dict(st.get('dec') or {'allow': True}), w=st.get('w'), faults=st.get('faults'))
        except SimCrash:
            if self.sim.finished or (self.sim.task is not None and self.sim.aborting):
                raise
            out = dict(kind='crash', msg=None)
        out.update(req=m, op=op, known=known, before=before, t=self.sim.now, step=st,
                   faulty=bool(st.get('faults')))
        self.answers.append(out)
        self.sim.log('answer', out['kind'], out['msg'])
        return out

    def s_raw(self, st):
        """Any request at all, handled as the documentation of Server says."""
        from openid.server import server
        op = self.ops[st.get('op', 0) % len(self.ops)]
        args = rawreq.build(self, st['spec'])
        for k in ('put', 'drop'):
            if st['spec'].get(k):
                self.sim.count_fault('request-' + k, len(st['spec'][k]))
        if st.get('cut') is not None:         # the connection broke off inside the request
            self.sim.count_fault('request-cut')
            q = urlencode(args)
            args = parse_query(q[:int(len(q) * st['cut'])])
        rec = dict(op=op, args=args, step=st, stage='decode', escaped=None, error=None, req=None, resp=None, web=None, page=False, noreturn=False)
        self.raws.append(rec)
        dec = st.get('dec') or {'allow': True}
        node = op.pick(st.get('w'))
        rec['node'] = node.name
        inv = self.sim.seq
        with self.sim.as_node(node):
            self.sim.point('http', 'op ' + op.name)
            try:
                s = op.server(node)
                try:
                    rec['req'] = req = s.decodeRequest(dict(args))
                    rec['stage'] = 'handle'
                    if req is not None:
                        if req.mode in ('checkid_setup', 'checkid_immediate'):
                            kw = {}
                            if dec.get('allow') and req.idSelect():
                                kw['identity'] = dec.get('identity') or 'http://op0.example/u/me'
                            rec['resp'] = req.answer(bool(dec.get('allow')), **kw)
                        else:
                            rec['resp'] = s.handleRequest(req)
                        rec['stage'] = 'encode'
                        rec['web'] = s.encodeResponse(rec['resp'])
                except server.ProtocolError as why:
                    rec['error'] = why
                    rec['stage'] = 'encode-error'
                    rec['text'] = str(why)
                    self.wire.append(dict(op=op, inv=inv, ret=self.sim.seq, req=args, code=0, headers={}, body=str(why)))     # shown to the user
                    try:
                        rec['web'] = s.encodeResponse(why)
                    except server.EncodingError:
                        rec['page'] = True
                except server.NoReturnToError:
                    rec['noreturn'] = True
            except SimCrash:
                raise
            except Exception as why:
                rec['escaped'] = why
        web = rec['web']
        rec['msg'] = None
        rec['kv'] = None
        if web is not None:
            self.wire.append(dict(op=op, inv=inv, ret=self.sim.seq, req=args, code=web.code, headers=dict(web.headers), body=web.body))
            if web.code == 302:
                try:
                    rec['msg'] = Indirect.redirect(web.headers['location'])
                except ValueError:
                    rec['badloc'] = web.headers['location']
            elif web.code == 200 and '<form' in str(web.body):
                rec['msg'] = Indirect.form(web.body)
            else:
                rec['kv'] = kv_decode(web.body if isinstance(web.body, bytes) else web.body.encode('utf-8'))
        if rec['msg'] is not None:
            self.answers.append(dict(kind='raw', msg=rec['msg'], op=op, req=Indirect('GET', op.url, args), nt0=self.sim.now + node.offset, raw=True))
        self.sim.log('raw', rec['stage'], type(rec['escaped']).__name__, rec['msg'], web.code if web is not None else None)
        return rec

    def s_verify(self, st):
        outs = [a for a in self.answers if a['msg'] is not None and 'openid.sig' in a['msg'].args]
        if not outs:
            return
        src = outs[st.get('n', 0) % len(outs)]
        args = dict(src['msg'].args)
        m = Indirect('POST', src['op'].url, args)
        m.args['openid.mode'] = 'check_authentication'
        if st.get('handle') is not None:
            m.args['openid.assoc_handle'] = self.handle_ref(st['handle'])
        if st.get('inval') is not None:
            m.args['openid.invalidate_handle'] = self.handle_ref(st['inval'])
        if st.get('resign') and self.loot:
            k = self.loot[st['resign'] % len(self.loot)]
            m.args['openid.assoc_handle'] = k['handle']
            self.sign(m.args, k)
        apply_edits(m, st.get('edits'))
        op = self.ops[st['op'] % len(self.ops)] if st.get('op') is not None else src['op']
        known = op.shared_now(m.args.get('openid.invalidate_handle'))
        self.sim.log('verify-call')
        rec = dict(inv=self.sim.seq, t=self.sim.now, args=dict(m.args), src=src, op=op, valid=None, status=None, step=st, ret=None,
                   known=known, invalidate=None)
        self.verifies.append(rec)
        try:
            r = op.direct('POST', op.url, urlencode(m.args).encode('utf-8', 'surrogatepass'), {}, dict(w=st.get('w'), faults=st.get('faults')))
        except SimCrash:
            if self.sim.finished or (self.sim.task is not None and self.sim.aborting):
                raise
            rec['status'] = 'crash'
            rec['ret'] = self.sim.seq
            return
        rec['ret'] = self.sim.seq
        rec['t1'] = self.sim.now
        rec['status'] = r.status
        d = kv_decode(r.body)
        rec['valid'] = r.status == 200 and d.get('is_valid') == 'true'
        rec['invalidate'] = d.get('invalidate_handle')
        self.sim.log('verify', rec['status'], rec['valid'], rec['invalidate'])

    @staticmethod
    def sign(args, key):
        signed = args.get('openid.signed', '').split(',')
        a = dict(args, **{'openid.mode': 'id_res'})
        args['openid.sig'] = sign_fields(a, signed, key['secret'], key['type'])
