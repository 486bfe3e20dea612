# -*- coding: utf-8 -*-
"""WebSocket carriage: the real factories, protocols and carriages on a network inside the process."""
import itertools
from mini import tt, td
import net

RULE = ('a case is a configuration of connections with the beginning of a history; every history of connecting (to any path), '
        'sending, delayed sending, sending in the wrong direction, closing, losing and time passing up to the depth runs on '
        'the real factories and protocols over a simulated network; for short scripts every order in which the bytes of the '
        'connections arrive is explored; the state is what is connected and what each side has been given')
BOUNDS = {
    'quick': 'histories of 4 operations after none, of 3 after two subscribers of the same and of two sequences and after two publishers (6 kinds of data); all orders of '
             'delivery of 4 scripts of 3 operations on two connections; all sequence identifiers of 2 characters out of 19; messages of '
             '10 lengths in pieces of 4 sizes; 36 combinations of who listens and who connects',
    'thorough': 'histories of 5 operations after 0, 1, 2 and 3 subscribers and of 5 after two publishers; scripts of 5 operations; identifiers of 3 characters',
}
ASSUMPTIONS = ['bytes of one connection arrive in order', 'a connection that one end drops is seen by the other end later, not at once',
               'a document sent over a connection that is being closed may be lost']

A, B = u'A', u'B/\xe9'
PATH = {A: 'A', B: 'B%2F%C3%A9'}
BAD = ['A/publish', 'A/foo', 'A', 'A/subscribe/x', '']
URL = 'ws://localhost:9000/'


class Sender(object):
    """A node with a WebSocket output that works on text."""

    def __init__(self):
        from ebu_tt_live.carriage.websocket import WebsocketProducerCarriage
        from ebu_tt_live.twisted.websocket import TwistedWSPushProducer
        self.carriage = WebsocketProducerCarriage()
        self.twisted = TwistedWSPushProducer(custom_producer=self.carriage)

    def send(self, seq, text, delay=None):
        kwargs = {} if delay is None else {'delay': delay}
        self.carriage.emit_data(data=text, sequence_identifier=seq, **kwargs)


class Receiver(object):
    """A node with a WebSocket input that works on text (or, with documents, on EBU-TT documents)."""

    def __init__(self, documents=False):
        import six
        from ebu_tt_live.carriage.websocket import WebsocketConsumerCarriage
        from ebu_tt_live.twisted.websocket import TwistedWSConsumer
        from ebu_tt_live.node.interface import IConsumerNode
        from ebu_tt_live.documents import EBUTT3Document
        outer = self
        self.got = []

        class Node(IConsumerNode):
            consumer_carriage = None
            _expects = EBUTT3Document if documents else six.text_type

            def register_consumer_carriage(self, carriage):
                carriage.register_consumer_node(self)

            def process_document(self, document, **kwargs):
                if documents:
                    outer.got.append((document.sequence_identifier, getattr(document, 'sequence_number', 'msg')))
                else:
                    outer.got.append((kwargs.get('sequence_identifier'), text_of(document)))
        carriage = WebsocketConsumerCarriage()
        if documents:
            from ebu_tt_live.adapters.node_carriage import ConsumerNodeCarriageAdapter
            ConsumerNodeCarriageAdapter(consumer_node=Node(), consumer_carriage=carriage)
        else:
            carriage.register_consumer_node(Node())
        self.twisted = TwistedWSConsumer(custom_consumer=carriage)


def text_of(data):
    return data.decode('utf-8') if isinstance(data, bytes) else data


def server(producer=None, consumer=None, url='ws://localhost:9000'):
    from ebu_tt_live.twisted.websocket import BroadcastServerFactory, BroadcastServerProtocol
    f = BroadcastServerFactory(url, producer=producer and producer.twisted, consumer=consumer and consumer.twisted)
    f.protocol = BroadcastServerProtocol
    f.listen()
    return f


def client(path, producer=None, consumer=None, url=URL):
    from ebu_tt_live.twisted.websocket import BroadcastClientFactory, BroadcastClientProtocol
    f = BroadcastClientFactory(url=url + path, producer=producer and producer.twisted, consumer=consumer and consumer.twisted)
    f.protocol = BroadcastClientProtocol
    f.connect()
    return f


def cases(tier):
    quick = tier == 'quick'
    for start in (['', 'AA', 'AB'] if quick else ['', 'A', 'AA', 'AB', 'AAB']):
        n = len(start)
        for op in sub_ops(n):
            for op2 in sub_ops(n + (op[0] == 'open')):
                yield ['sub', start, [op, op2], (3 if start else 4) if quick else 5]
    for op in pub_ops():
        for op2 in pub_ops():
            yield ['pub', [op, op2], 3 if quick else 5]
    for i in range(len(SCRIPTS)):
        yield ['order', i, 0 if quick else 2]
    for i in range(len(ID_CHARS)):
        yield ['ids', i, 2 if quick else 3]
    for length in LENGTHS:
        yield ['size', length]
    for p in itertools.product((0, 1, 2), (0, 1, 2), (0, 1), (0, 1)):
        yield ['roles', list(p)]


# subscribers: one server that sends

def sub_ops(n):
    ops = [['open', 'A'], ['open', 'B'], ['bad'], ['send', 'A'], ['send', 'B'], ['later', 'A'], ['time']]
    for i in range(n):
        ops += [['close', i], ['lose', i], ['wrong', i], ['closed', i]]
    return ops


def sub_all(start, prefix, depth):
    def rec(hist, n):
        if len(hist) == depth:
            yield hist
            return
        for op in sub_ops(n):
            for h in rec(hist + [op], n + (op[0] == 'open')):
                yield h
    n = len(start) + sum(op[0] == 'open' for op in prefix)
    return rec(list(prefix), n)


def sub_useful(hist, n):
    """Closing twice, or waiting for nothing, adds nothing to the histories."""
    gone, waiting, opens = set(), False, n
    for op in hist:
        if op[0] == 'open':
            opens += 1
        elif op[0] == 'later':
            waiting = True
        elif op[0] == 'time':
            if not waiting:
                return False
            waiting = False
        elif op[0] in ('close', 'lose', 'wrong', 'closed'):
            if op[1] in gone:
                return False
            gone.add(op[1])
    return True


def sub_run(start, hist, ctx):
    n = net.Net()
    sender = Sender()
    server(producer=sender)
    clients = []       # [sequence, receiver, link, alive, expected]
    delayed = []
    texts = [0]
    bads = [0]

    def opening(which):
        seq = A if which == 'A' else B
        r = Receiver()
        client(PATH[seq] + '/subscribe', consumer=r)
        n.settle()
        clients.append([seq, r, n.links[-1], True, []])

    def deliver(seq, text):
        for c in clients:
            if c[3] and c[0] == seq:
                c[4].append((seq, text))

    def send(seq, delay=None):
        texts[0] += 1
        text = u'<t\xe9xt n="%d"/>' % texts[0]
        if delay is None:
            deliver(seq, text)
        else:
            delayed.append((seq, text))
        sender.send(seq, text, delay)
        n.settle()

    for which in start:
        opening(which)
    for op in hist:
        if op[0] == 'open':
            opening(op[1])
        elif op[0] == 'bad':
            r = Receiver()
            client(BAD[bads[0] % len(BAD)], consumer=r, producer=Sender())
            bads[0] += 1
            n.settle()
            ctx.check(not n.links[-1].open, 'bad:open', lambda: 'after %r: a connection to a path that means nothing here stays open' % (hist,))
        elif op[0] == 'send':
            send(A if op[1] == 'A' else B)
        elif op[0] == 'later':
            send(A, 2)
        elif op[0] == 'time':
            for seq, text in delayed:
                deliver(seq, text)
            del delayed[:]
            n.advance(3)
        else:
            c = clients[op[1]]
            c[3] = False
            if op[0] == 'close':
                c[2].client.protocol.sendClose()
            elif op[0] == 'closed':
                c[2].server.protocol.sendClose()
            elif op[0] == 'lose':
                c[2].client.abortConnection()
            else:
                c[2].client.protocol.sendMessage(b'<unexpected/>')
            n.settle()
        ctx.trans()
    n.advance(3)
    for seq, text in delayed:
        deliver(seq, text)
    send(A)
    send(B)
    for i, c in enumerate(clients):
        ctx.equal(c[1].got, c[4], 'sub:got', '%r after %r: subscriber %d of %r' % (start, hist, i, c[0]))
        ctx.check(c[2].open == c[3], 'sub:open', lambda: '%r after %r: connection %d is %s' % (start, hist, i, 'open' if c[2].open else 'closed'))
    ctx.check(not n.errors and not n.raised, 'sub:error', lambda: '%r after %r: %r %r' % (start, hist, n.errors, n.raised))
    ctx.state((start, repr(hist[:-1]), repr([(c[0], c[3], len(c[1].got)) for c in clients])))
    ctx.trace()
    ctx.outcome('subscribers %d' % len(clients))


# publishers: one server that receives documents

DATA = ['next', 'other', 'broken', 'foreign', 'message', 'othermessage']


def pub_ops():
    return [[k, 0] for k in DATA + ['wrong', 'close', 'lose']] + [['next', 1], ['broken', 1]]


_docs = {}


def document(seq, num):
    key = (seq, num)
    if key not in _docs:
        if num == 'msg':
            from ebu_tt_live.documents import EBUTTAuthorsGroupControlRequest
            x = EBUTTAuthorsGroupControlRequest(sequence_identifier=seq, sender='s', recipient=['r1'], payload='please').get_xml()
            _docs[key] = x.decode('utf-8') if isinstance(x, bytes) else x
        else:
            _docs[key] = tt(u'<tt:body><tt:div><tt:p xml:id="p">t\xe9xt</tt:p></tt:div></tt:body>', seq=seq, num=num)
    return _docs[key]


def pub_run(hist, ctx):
    n = net.Net()
    receiver = Receiver(documents=True)
    server(consumer=receiver)
    pubs = []
    for _ in range(2):
        s = Sender()
        client(PATH[A] + '/publish', producer=s)
        n.settle()
        pubs.append([s, n.links[-1], True])
    want, number = [], 0
    for op, i in hist:
        s, link, alive = pubs[i]
        before = len(n.raised)
        if op == 'next':
            number += 1
            if alive:
                want.append((A, number))
            s.send(A, document(A, number))
        elif op == 'message':
            if alive:
                want.append((A, 'msg'))
            s.send(A, document(A, 'msg'))
        elif op in DATA:
            text = {'other': document(B, 7), 'broken': document(A, 9)[:-5], 'foreign': u'<a xmlns="urn:x"/>',
                    'othermessage': document(B, 'msg')}[op]
            s.send(A, text)
            pubs[i][2] = False
        elif op == 'wrong':
            if alive:
                link.server.protocol.sendMessage(b'<unexpected/>')
            pubs[i][2] = False
        elif op == 'close':
            link.client.protocol.sendClose()
            pubs[i][2] = False
        else:
            link.client.abortConnection()
            pubs[i][2] = False
        n.settle()
        ctx.trans()
        for k, p in enumerate(pubs):
            if not ctx.check(p[1].open == p[2], 'pub:open:' + op, lambda: 'after %r: connection %d is %s' % (hist, k, 'open' if p[1].open else 'closed')):
                return
    # the other connection works as before
    for k in (0, 1):
        number += 1
        if pubs[k][2]:
            want.append((A, number))
        pubs[k][0].send(A, document(A, number))
        n.settle()
    ctx.equal(receiver.got, want, 'pub:got', 'after %r' % (hist,))
    ctx.check(not n.errors, 'pub:error', lambda: 'after %r: %r' % (hist, n.errors))
    ctx.state(repr((hist[:-1], receiver.got)))
    ctx.trace()
    ctx.outcome('published %d' % len(receiver.got))


# every order of delivery

SCRIPTS = [
    [('send',), ('send',), ('send',)],
    [('send',), ('close', 0), ('send',)],
    [('send',), ('wrong', 0), ('send',)],
    [('send',), ('lose', 0), ('send',)],
]


def order_run(index, more, ctx):
    """Explores every order of the operations of a script and of the arrivals on two connections, by replaying choices."""
    script = list(SCRIPTS[index]) + [('send',)] * more
    stack = [[]]
    while stack:
        choices = stack.pop()
        taken, options = order_once(script, choices, ctx)
        if taken is None:
            continue
        # options: for every step after the given choices, how many there were
        for k in range(len(taken) - 1, len(choices) - 1, -1):
            for alt in range(1, options[k]):
                stack.append(taken[:k] + [alt])


def order_once(script, choices, ctx):
    n = net.Net()
    sender = Sender()
    server(producer=sender)
    receivers = [Receiver(), Receiver()]
    for r in receivers:
        client('A/subscribe', consumer=r)
    n.run_tasks()
    links = n.links
    pos, sent = 0, 0
    first = [None, None]      # texts of this number and later are for this client
    killed = [False, False]
    taken, options = [], []
    handshake = [False, False]
    while True:
        enabled = []
        if pos < len(script):
            enabled.append(('script',))
        for i, link in enumerate(links):
            for to in 'sc':
                if link.pending(to) and not (i == 1 and to == 'c'):
                    enabled.append(('deliver', i, to))
        if n.tasks:
            enabled.append(('tasks',))
        if not enabled and links[1].pending('c'):
            # the second subscriber only listens: when it gets things makes no difference to anything else
            enabled.append(('deliver', 1, 'c'))
        if not enabled:
            break
        if len(taken) < len(choices):
            pick = choices[len(taken)]
            if pick >= len(enabled):
                return None, None
        else:
            pick = 0
        options.append(len(enabled))
        taken.append(pick)
        act = enabled[pick]
        ctx.trans()
        if act[0] == 'script':
            op = script[pos]
            pos += 1
            if op[0] == 'send':
                sender.send(A, u'<d%d/>' % sent)
                sent += 1
            else:
                if killed[op[1]]:
                    continue
                proto = links[op[1]].client.protocol
                if op[0] == 'lose':
                    killed[op[1]] = True
                    links[op[1]].client.abortConnection()
                elif handshake[op[1]] == 'open':
                    killed[op[1]] = True
                    if op[0] == 'close':
                        proto.sendClose()
                    else:
                        proto.sendMessage(b'<unexpected/>')
        elif act[0] == 'tasks':
            n.tasks.popleft()()
        else:
            i, to = act[1], act[2]
            if to == 's' and not handshake[i]:
                handshake[i] = True
                first[i] = sent
            elif to == 'c' and handshake[i] is True:
                handshake[i] = 'open'
            links[i].deliver(to)
    for i, r in enumerate(receivers):
        got = [t for _, t in r.got]
        want = [u'<d%d/>' % k for k in range(first[i] if first[i] is not None else sent, sent)]
        if killed[i]:
            ok = got == want[:len(got)]
        else:
            ok = got == want
        ctx.check(ok, 'order', lambda: 'script %r, choices %r: subscriber %d got %r of %r' % (script, taken, i, got, want))
    ctx.check(not n.errors and not n.raised, 'order:error', lambda: 'script %r, choices %r: %r %r' % (script, taken, n.errors, n.raised))
    ctx.check(links[1].open and links[0].open != killed[0], 'order:open', lambda: 'script %r, choices %r: open %r' % (script, taken, [x.open for x in links]))
    ctx.trace()
    ctx.count('schedules')
    ctx.state(repr((script, [len(r.got) for r in receivers], first)))
    return taken, options


# identifiers

ID_CHARS = u'aA1 %/?#:;@&=+,.~\xe9\u20ac'


def quote(text):
    import urllib
    return urllib.quote(text.encode('utf-8'), safe='')


def similar(ident):
    """Identifiers that a careless comparison takes for this one."""
    import unicodedata
    q = quote(ident).decode('ascii')
    yield q
    yield q.lower()
    yield urllib_unquote(ident)
    yield ident.swapcase()
    yield ident.upper()
    yield ident.lower()
    yield ident * 2
    yield ident[:-1]
    yield ident.strip() + u' '
    yield u' ' + ident
    yield ident.strip()
    yield unicodedata.normalize('NFD', ident)
    yield unicodedata.normalize('NFC', ident)
    yield ident.replace(u'/', u'')
    yield ident.encode('ascii', 'replace').decode('ascii')
    yield ident.encode('ascii', 'ignore').decode('ascii')
    yield ident[::-1]
    yield u'zz'


def urllib_unquote(ident):
    import re
    return re.sub(u'%([0-9a-fA-F]{2})', lambda m: unichr(int(m.group(1), 16)), ident)


def ids_run(i, length, ctx):
    c = ID_CHARS[i]
    for size in range(1, length + 1):
        for rest in itertools.product(ID_CHARS, repeat=size - 1):
            ident = c + u''.join(rest)
            if ident in (u'.', u'..'):
                continue
            n = net.Net()
            sender, up, down, inbox = Sender(), Sender(), Receiver(), Receiver()
            server(producer=sender, consumer=inbox)
            client(quote(ident) + '/subscribe', consumer=down)
            client(quote(ident) + '/publish', producer=up)
            n.settle()
            sender.send(ident, u'<one/>')
            sender.send(ident + u'x', u'<not/>')
            others = set(o for o in similar(ident) if o != ident)
            for other in sorted(others):
                sender.send(other, u'<not/>')
            up.send(ident, u'<two/>')
            up.send(ident[:-1] + u'y', u'<not/>')
            for other in sorted(others):
                up.send(other, u'<not/>')
            n.settle()
            ctx.equal(down.got, [(ident, u'<one/>')], 'ids:down', 'subscriber of %r' % ident)
            ctx.equal(inbox.got, [(ident, u'<two/>')], 'ids:up', 'publisher of %r' % ident)
            ctx.trans(4)
            ctx.trace()
            ctx.state(ident)


# sizes

LENGTHS = [0, 1, 124, 125, 126, 127, 65534, 65535, 65536, 70000]


def size_run(length, ctx):
    for tail in (u'x', u'\xe9', u'\U0001d11e'):
        text = u'a' * max(0, length - len(tail.encode('utf-8'))) + (tail if length else u'')
        for size in (None, 1, 2, 1000):
            if size in (1, 2) and length > 1000:
                continue
            n = net.Net()
            sender, r, up, inbox = Sender(), Receiver(), Sender(), Receiver()
            server(producer=sender, consumer=inbox)
            client('A/subscribe', consumer=r)
            client('A/publish', producer=up)
            n.settle(size)
            for t in (u'<first/>', text, u'<last/>'):
                sender.send(A, t)
                up.send(A, t)
            # what is on its way may also arrive in one piece
            if size is None:
                for link in n.links:
                    for end in (link.client, link.server):
                        joined = b''.join(end.out)
                        end.out.clear()
                        if joined:
                            end.out.append(joined)
            n.settle(size)
            want = [(A, t) for t in (u'<first/>', text, u'<last/>')]
            ctx.check(r.got == want, 'size:down', lambda: 'length %d in pieces of %r: got lengths %r' % (length, size, [len(t) for _, t in r.got]))
            ctx.check(inbox.got == want, 'size:up', lambda: 'length %d in pieces of %r: got lengths %r' % (length, size, [len(t) for _, t in inbox.got]))
            ctx.check(all(l.open for l in n.links), 'size:open', 'length %d: closed' % length)
            ctx.trans(6)
            ctx.trace()
            ctx.state((length, tail, size))


# who listens and who connects

def roles_run(case, ctx):
    """Two senders and two receivers, each listening and/or connecting as told, set up through the backend."""
    import urlparse
    from ebu_tt_live.config.backend import TwistedBackend
    from ebu_tt_live.config.common import ConfigurableComponent
    from ebu_tt_live.carriage.websocket import WebsocketProducerCarriage, WebsocketConsumerCarriage
    from ebu_tt_live.node.interface import IConsumerNode
    import six
    sender_mode, receiver_mode, shared, order = case
    ConfigurableComponent._backend = None
    n = net.Net()
    backend = TwistedBackend(None, None)
    ConfigurableComponent._backend = None
    url = urlparse.urlparse
    got = {}

    def receiver(name, listen, connect):
        class Node(IConsumerNode):
            consumer_carriage = None
            _expects = six.text_type

            def register_consumer_carriage(self, carriage):
                pass

            def process_document(self, document, **kwargs):
                got.setdefault(name, []).append((kwargs.get('sequence_identifier'), text_of(document)))
        c = WebsocketConsumerCarriage()
        c.register_consumer_node(Node())
        backend.ws_backend_consumer(custom_consumer=c, listen=listen and url(listen), connect=[url(x) for x in connect])

    def sender(listen, connect):
        c = WebsocketProducerCarriage()
        backend.ws_backend_producer(custom_producer=c, listen=listen and url(listen), connect=[url(x) for x in connect])
        return c
    # senders S1 (port 9001), S2 (9002), receivers R1 (9003, or the port of S1 if shared), R2 (9004)
    port = {'S1': 9001, 'S2': 9002, 'R1': 9001 if shared and sender_mode != 1 else 9003, 'R2': 9004}
    addr = lambda x: 'ws://localhost:%d' % port[x]
    s_listens, s_connects = sender_mode in (0, 2), sender_mode in (1, 2)
    r_listens, r_connects = receiver_mode in (0, 2), receiver_mode in (1, 2)
    flows = set()    # (sender, sequence, receiver), a connection each
    flows_list = []
    senders = {}

    def make_senders():
        for s in ('S1', 'S2'):
            connect = []
            if s_connects and r_listens:
                for r, seq in (('R1', A), ('R2', B)):
                    connect.append('%s/%s/publish' % (addr(r), PATH[seq]))
                    flows_list.append((s, seq, r))
            senders[s] = sender(addr(s) if s_listens else None, connect)

    def make_receivers():
        for r in ('R1', 'R2'):
            connect = []
            if r_connects and s_listens:
                for s, seq in (('S1', B), ('S2', A)):
                    connect.append('%s/%s/subscribe' % (addr(s), PATH[seq]))
                    flows_list.append((s, seq, r))
            receiver(r, addr(r) if r_listens else None, connect)
    for f in ((make_senders, make_receivers) if order == 0 else (make_receivers, make_senders)):
        f()
    n.settle()
    want = {}
    for s in ('S1', 'S2'):
        for seq in (A, B):
            text = u'<%s %s/>' % (s, seq)
            senders[s].emit_data(data=text, sequence_identifier=seq)
            n.settle()
            for s2, seq2, r in flows_list:
                if (s, seq) == (s2, seq2):
                    want.setdefault(r, []).append((seq, text))
    ctx.equal(dict((k, sorted(v)) for k, v in got.items()), dict((k, sorted(v)) for k, v in want.items()), 'roles', 'roles %r' % (case,))
    ctx.check(not n.errors and not n.raised and not n.failed, 'roles:error', lambda: 'roles %r: %r %r %r' % (case, n.errors, n.raised, n.failed))
    ctx.trans(4)
    ctx.trace()
    ctx.state(repr(case))
    # the address is taken: a second sender or receiver of the kind, or another protocol, is refused
    for kind, make in (('S1', sender), ('R1', lambda l, c: receiver('other', l, c))):
        if (kind == 'S1' and s_listens) or (kind == 'R1' and r_listens):
            try:
                make(addr(kind), [])
                ok = False
            except Exception as exc:
                ok = True
            ctx.check(ok, 'roles:taken', lambda: 'roles %r: a second one on the address of %s is accepted' % (case, kind))


def run(case, ctx):
    if case[0] == 'sub':
        _, start, prefix, depth = case
        for hist in sub_all(start, prefix, depth):
            if sub_useful(hist, len(start)):
                sub_run(start, hist, ctx)
    elif case[0] == 'pub':
        for rest in itertools.product(pub_ops(), repeat=case[2] - 2):
            hist = case[1] + list(rest)
            done = [False, False]
            useful = True
            for op, i in hist:
                if done[i] and op != 'next':
                    useful = False
                if op not in ('next', 'message'):
                    done[i] = True
            if useful:
                pub_run(hist, ctx)
    elif case[0] == 'order':
        order_run(case[1], case[2], ctx)
    elif case[0] == 'ids':
        ids_run(case[1], case[2], ctx)
    elif case[0] == 'size':
        size_run(case[1], ctx)
    else:
        roles_run(case[1], ctx)
