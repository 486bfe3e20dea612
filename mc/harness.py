# -*- coding: utf-8 -*-
"""Stand-ins shared by the checks of nodes: carriages that record, clocks that are set."""
from mini import td


def sink(kind):
    """A producer carriage that keeps what it is given."""
    from ebu_tt_live.carriage.base import AbstractProducerCarriage

    class Sink(AbstractProducerCarriage):
        _expects = kind

        def __init__(self):
            self.got = []
            self.kwargs = []

        def emit_data(self, data, **kwargs):
            self.got.append(data)
            self.kwargs.append(kwargs)
    return Sink()


def source(kind):
    """A consumer carriage that hands on what it is given."""
    from ebu_tt_live.carriage.base import AbstractConsumerCarriage

    class Source(AbstractConsumerCarriage):
        _provides = kind

        def on_new_data(self, data, **kwargs):
            self.consumer_node.process_document(document=data, **kwargs)
    return Source()


class FixedClock(object):
    def __init__(self, now=0, time_base='clock', clock_mode='local'):
        self.now, self.time_base, self.clock_mode = now, time_base, clock_mode

    def get_time(self):
        return td(self.now)
