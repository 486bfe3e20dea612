# -*- coding: utf-8 -*-
"""The user input page: its own script and templates, run in a simulated browser (node), and what it sends read by the toolkit."""
import json
import os
import subprocess
import ebu_tt_live
from ebu_tt_live.documents import EBUTT3Document
from ebu_tt_live.adapters.document_data import XMLtoEBUTT3Adapter
from mini import parse, TT

HERE = os.path.dirname(os.path.abspath(__file__))
PAGE = os.path.join(os.path.dirname(os.path.abspath(ebu_tt_live.__file__)), 'ui', 'user_input_producer')
HANG_S = 400

RULE = ('every sequence of actions of a family is carried out on the real page (its script, markup and templates) in a simulated browser '
        'with a simulated clock, connection and storage; every document sent is compared with what a reference user expects, at that moment, '
        'and read by the real toolkit; the state is what was sent, what is in the box, the stored numbers and the connection')
BOUNDS = {
    'quick': 'histories of 3 of 14 and 2 of 21 actions, connected or not; 2 or 3 of 14 actions on scheduling by the local and by the media clock in 3 time zones; '
             '3 of 13 actions on sending at intervals; 4 of 4 keys x 1 to 3 lines; texts of 3 and identifiers of 2 of 16 characters; '
             '3 of 7 kinds of received data x 3 selections; 12 times up to a day ahead x 2 clocks, 40 s without any action x 3 modes x 3 clocks x 3 time zones',
    'thorough': 'as quick with histories of 4 of 14 and 3 of 21, 3 or 4 of 14 on scheduling, 4 of 13 on intervals, 7 keys, texts of 4 and identifiers of 3 characters, 4 kinds of received data',
}
ASSUMPTIONS = ['the browser: node with a small DOM, the jQuery of the page (3.5.1 here) and timers that fire in order of their times',
               'the sequence selected is the one that was connected to, or is judged by what was sent only',
               'dates: one day without a change of the clocks']

HIST = ['now', 'enter', 'esc', 'typeX', 'selB', 'selA', 'down', 'up', 'reload', 'again', 'newC', 'token', 'begin', 'msg', 'data', 'disc', 'refused', 'dur', 'msgEnter', 'empty', 'end']
SCHED = ['in1', 'in3', 'past', 'typeY', 'selB', 't1', 't5', 'down', 'up', 'live', 'sched', 'now', 'reload', 'sync']
ASYNC = ['start05', 'start2', 'startbad', 'start0', 'stop', 'typeY', 'selB', 't1', 'down', 'up', 'live', 'async', 'reload']
CHARS = [u'a', u' ', u'&', u'<', u'>', u'"', u"'", u'\n', u'\u00e9', u'\U0001f600', u';', u'{{ 1 }}', u'%', u'\t', u'/', u'+']
RECV = ['A1', 'B1', 'none', 'full', 'msg', 'msgno', 'ten']
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata']


def cases(tier):
    quick = tier == 'quick'
    n = 3 if quick else 4
    for zone in ZONES:
        yield [zone, 'idle']
        yield [zone, 'far']
    for a in HIST[:14]:
        for on in (1, 0):
            if quick:
                yield ['UTC', 'hist', [a], 3, on, 14]
            else:
                for b in HIST[:14]:
                    yield ['UTC', 'hist', [a, b], 4, on, 14]
    for a in HIST:
        yield ['UTC', 'hist', [a], n - 1, 1, 21]
        if not quick:
            yield ['UTC', 'hist', [a], n - 1, 0, 21]
    for a in SCHED:
        for k, zone in enumerate(ZONES):
            for media in (0, 1):
                if quick:
                    yield [zone, 'sched', [a], 3 if k == media else 2, media]
                else:
                    for b in SCHED:
                        yield [zone, 'sched', [a, b], 4 if k == media else 3, media]
    for a in ASYNC:
        if quick:
            yield ['UTC', 'async', [a], 3]
        else:
            for b in ASYNC:
                yield ['UTC', 'async', [a, b], 4]
    for rows in (1, 2, 3):
        for a in ('a', 'enter', 'space', 'esc'):
            yield ['UTC', 'keys', rows, [a], 4 if quick else 7]
    for c in CHARS:
        yield ['UTC', 'ids', c, 2 if quick else 3]
        if quick:
            yield ['UTC', 'text', c, 3]
        else:
            for d in CHARS:
                yield ['UTC', 'text', c + d, 3]
    for a in RECV:
        yield ['UTC', 'recv', [a], n]


def lines(root):
    out = [u'']

    def go(node):
        for c in node.children:
            if not hasattr(c, 'tag'):
                if node.tag == 'span':
                    out[-1] += c
            elif c.tag == 'br' and c.ns == TT:
                out.append(u'')
            elif c.tag != 'metadata':
                go(c)
    body = root.find('body')
    if body is not None:
        go(body)
    return out


def run(case, ctx):
    p = subprocess.Popen(['timeout', '-k', '1', '350', 'node', os.path.join(HERE, 'js', 'uip.js'), PAGE, json.dumps(case[1:])],
                         env=dict(os.environ, TZ=case[0]), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    text, err = p.communicate()
    if p.returncode != 0:
        # (an error of the page in the middle of its script, or no end)
        ctx.fail('page', 'the page does not run (%s): %s' % (p.returncode, err.decode('utf-8', 'replace')[-800:]))
        return
    out = json.loads(text.decode('utf-8'))
    for sig in sorted(out['fails']):
        f = out['fails'][sig]
        ctx.fail(sig, u'%d times, first: %s' % (f['n'], f['msg']))
    ctx.trans(out['trans'])
    ctx.trace(out['traces'])
    for s in out['states']:
        ctx.state(s)
    for s in out['outcomes']:
        ctx.outcome(s)
    for xml in sorted(out['docs']):
        accepted(xml, out['docs'][xml], ctx)


def accepted(xml, want, ctx):
    ctx.count('documents read by the toolkit')
    try:
        doc, _ = XMLtoEBUTT3Adapter().convert_data(xml.encode('utf-8'))
    except Exception as exc:
        ctx.fail('refused', u'the toolkit refuses what is sent: %r: %s' % (exc, xml[-700:]))
        return
    if want[0] == 'msg':
        got = ['msg', doc.sequence_identifier, doc.sender, unicode(doc.payload)]
        ctx.check(got == want, 'read:message', lambda: u'the toolkit reads %r instead of %r' % (got, want))
        return
    ctx.check(isinstance(doc, EBUTT3Document), 'read:type', lambda: u'%r' % doc)
    got = [doc.sequence_identifier, lines(parse(doc.get_xml()))]
    ctx.check(got == want[1:3], 'read:document', lambda: u'the toolkit reads %r instead of %r' % (got, want[1:3]))
