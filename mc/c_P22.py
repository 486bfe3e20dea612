# -*- coding: utf-8 -*-
"""The producer of a text: the words, the lines and the documents made of them."""
import itertools
import re
from datetime import timedelta
from fractions import Fraction as F
from ebu_tt_live.documents import EBUTT3Document, EBUTT3DocumentSequence
from ebu_tt_live.clocks.local import LocalMachineClock
from ebu_tt_live.clocks.utc import UTCClock
from ebu_tt_live.errors import EndOfData
from ebu_tt_live.node import SimpleProducer
from ebu_tt_live.utils import tokenize_english_document
from harness import sink
from mini import parse, TT
from present import seconds_of

NEED_NLTK = True   # sentences and words

RULE = ('every text over the alphabets of words and separators is cut into subtitles by the real function, and every list of subtitles is '
        'made into documents by the real producer with a clock that is set; words, lines, numbers and times are compared with the text, the '
        'lines and the clock; the state is the lengths of the lines')
BOUNDS = {
    'quick': 'texts of up to 4 words of 9 lengths and up to 5 of 6; up to 3 words x 10 separators; up to 3 subtitles of 9, with and without end, at 9 times by 2 clocks',
    'thorough': 'texts of up to 6 words of 9 lengths; up to 4 words x 10 separators; up to 5 subtitles of 9, at 9 times by 2 clocks',
}
ASSUMPTIONS = ['a producer of the time by the clock of the machine does not run past hour 24', 'words are what stands between white space']

LENGTHS = [1, 2, 17, 18, 19, 36, 37, 38, 39, 80]
GAPS = [u' ', u'\n \n', u'\n', u'. ', u'? ', u'  ', u'\t', u'\n\n', u'.\n\n', u'! ']
BLOCKS = [[u'one'], [u'one', u'two'], [u'a & b < c > "d"'], [u'\xe9t\xe9', u'\u4f60'], [u' spaces  inside '], [u'x' * 38, u'y' * 38], [u'a', u'b', u'c'], [u"it's"], [u'one', u'one']]
TIMES = [F(0), F(1, 1000), F(1, 2), F(59), F(3599999, 1000), F(3600), F(12 * 3600 + 34 * 60 + 56), F(86399), F(86399999, 1000)]


def cases(tier):
    quick = tier == 'quick'
    for a in LENGTHS:
        for b in LENGTHS:
            yield ['words', a, b, 2 if quick else 4]
    for a in GAPS:
        for b in GAPS:
            yield ['gaps', a, b, 3 if quick else 4]
    for kind in ('local', 'utc'):
        for i in range(len(BLOCKS)):
            yield ['produce', kind, i, 2 if quick else 4]
        yield ['time', kind]


def word(n, i):
    return (u'%s%s' % (u'abcdefgh'[i % 8], u'nopqrstuvw' * 8))[:n]


def lengths_run(a, b, more, ctx):
    few = [1, 18, 19, 37, 38, 39]
    for n in range(more + 1):
        for rest in itertools.product(LENGTHS if n < 3 else few, repeat=n):
            for lead in ((), (a,)) if n == 0 and b == LENGTHS[0] else ((a, b),):
                cut(u' '.join(word(x, i) for i, x in enumerate(tuple(lead) + rest)), ctx)


def gaps_run(a, b, words, ctx):
    for rest in itertools.product((1, 19, 38), repeat=words):
        parts = [word(x, i) for i, x in enumerate(rest)]
        for g in GAPS if words > 3 else (u' ',):
            gap = [a, b, g]
            cut(u''.join(p + (gap[i] if i < len(parts) - 1 else u'') for i, p in enumerate(parts)), ctx)
            cut(a + u''.join(p + gap[i % 3] for i, p in enumerate(parts)), ctx)


def cut(text, ctx):
    ctx.trans()
    blocks = tokenize_english_document(text)
    ctx.trace()
    ctx.state(repr([[len(x) for x in b] for b in blocks]))
    said = [w for b in blocks for line in b for w in line.split()]
    ctx.check(said == text.split(), 'words', lambda: u'%r is cut into %r' % (text, blocks))
    place = 0
    ends = set()   # the words that end a paragraph
    for p in re.split(r'\n\s*\n', text):
        place += len(p.split())
        ends.add(place)
    place = 0
    for b in blocks:
        ctx.check(1 <= len(b) <= 2, 'lines', lambda: u'%r: %d lines in %r' % (text, len(b), b))
        for line in b:
            ctx.check(line.strip() == line and line, 'spaces', lambda: u'%r: line %r' % (text, line))
            ctx.check(len(line) <= 38 or len(line.split()) == 1, 'long', lambda: u'%r: line %r of %d characters' % (text, line, len(line)))
        n = sum(len(line.split()) for line in b)
        ctx.check(not any(place < e < place + n for e in ends), 'paragraph', lambda: u'%r: %r goes on after a blank line' % (text, b))
        # no subtitle is shorter than it needs to be
        if len(b) == 2:
            ctx.check(len(b[0]) + 1 + len(b[1].split()[0]) > 38, 'short', lambda: u'%r: %r could be on fewer lines' % (text, b))
        place += n
    ctx.outcome('%d lines' % max([0] + [len(b) for b in blocks]))


class Made(object):
    """A producer of its own."""

    def __init__(self, kind, blocks):
        self.clock = {'local': LocalMachineClock, 'utc': UTCClock}[kind]()
        self.clock.set_fixed_time_mode(True)
        self.carriage = sink(EBUTT3Document)
        self.sequence = EBUTT3DocumentSequence(sequence_identifier=u'S\xe9q', reference_clock=self.clock, lang='en-GB')
        self.producer = SimpleProducer(node_id='p', producer_carriage=self.carriage, document_sequence=self.sequence, input_blocks=blocks)

    def at(self, t):
        self.clock.set_fixed_time(timedelta(0, 0, int(t * 1000000)))
        n = len(self.carriage.got)
        self.producer.process_document()
        return self.carriage.got[n:]


def lines(root):
    out = [u'']

    def go(node):
        for c in node.children:
            if not hasattr(c, 'tag'):
                if node.tag == 'span':
                    out[-1] += c
            elif c.tag == 'br' and c.ns == TT:
                out.append(u'')
            else:
                go(c)
    go(root.find('body'))
    return out


def look(doc, number, t, kind, want, ctx, what):
    xml = doc.get_xml()
    root = parse(xml)
    ctx.trans()
    body = root.find('body')
    got = (root.get('sequenceIdentifier'), root.get('sequenceNumber'), root.get('timeBase'), root.get('clockMode'))
    exp = (u'S\xe9q', str(number), 'clock', kind)
    ctx.check(got == exp, 'head', lambda: u'%s: %r instead of %r' % (what, got, exp))
    begin, dur = seconds_of(body.get('begin')), seconds_of(body.get('dur'))
    ms = F(int(t * 1000), 1000)
    ctx.check(begin is not None and abs(begin - t - 1) < F(1, 1000) and dur == 1 and body.get('end') is None, 'time',
              lambda: u'%s at %s: begins at %s for %s' % (what, float(t), body.get('begin'), body.get('dur')))
    if want is None:
        said = lines(root)
        ctx.check(len(said) == 1 and seconds_of(said[0]) == begin, 'says:time', lambda: u'%s at %s says %r' % (what, float(ms), said))
    else:
        ctx.check(lines(root) == want, 'says', lambda: u'%s: says %r instead of %r' % (what, lines(root), want))
    # it is shown in a region and style that are there
    ids = set(n.get('xml:id') or n.get('id') for n in root.find('head').iter())
    refs = set(n.get('region') for n in body.iter()) | set(s for n in body.iter() for s in (n.get('style') or '').split())
    ctx.check(refs - {None} <= ids, 'references', lambda: u'%s: refers to %r of %r' % (what, refs, ids))
    again = EBUTT3Document.create_from_xml(xml)
    ctx.check(again.sequence_number == number, 'again', lambda: what)


def produce_run(kind, first, more, ctx):
    for n in range(more + 1):
        for rest in itertools.product(range(len(BLOCKS)), repeat=n):
            chosen = [BLOCKS[i] for i in (first,) + rest]
            made = Made(kind, iter([list(b) for b in chosen]))
            what = u'%s clock, subtitles %r' % (kind, chosen)
            for i, b in enumerate(chosen):
                t = TIMES[(i + first) % 5]
                got = made.at(t)
                if ctx.check(len(got) == 1, 'count', lambda: u'%s: %d documents' % (what, len(got))):
                    look(got[0], i + 1, t, kind, b, ctx, what)
            for _ in range(2):
                try:
                    got = made.at(F(5))
                    ctx.fail('end', u'%s: does not end but emits %d' % (what, len(got)))
                except EndOfData:
                    ctx.check(len(made.carriage.got) == len(chosen), 'end:count', lambda: what)
            ctx.trace()
            ctx.state(repr((kind, first) + rest))
            ctx.outcome('end of data')


def time_run(kind, ctx):
    """A producer without a text says the time."""
    for times in itertools.permutations(TIMES, 2):
        made = Made(kind, None)
        for i, t in enumerate(times):
            got = made.at(t)
            if ctx.check(len(got) == 1, 'count', lambda: u'%d documents' % len(got)):
                look(got[0], i + 1, t, kind, None, ctx, u'%s clock' % kind)
        ctx.trace()
        ctx.state(repr((kind, times)))
    ctx.outcome('time')


def run(case, ctx):
    {'words': lengths_run, 'gaps': gaps_run, 'produce': produce_run, 'time': time_run}[case[0]](*(case[1:] + [ctx]))
