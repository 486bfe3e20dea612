# -*- coding: utf-8 -*-
"""A network and a clock inside the process, put under the real Twisted reactor object.

listenTCP, connectTCP, callLater and seconds of the reactor are replaced, so that everything
above (autobahn, the toolkit's factories, protocols and backend) runs as it is while the check
decides when bytes arrive, when connections end and when time passes. Transports behave like
Twisted's: loseConnection and abortConnection end the connection later, not at once; an exception
out of dataReceived ends the connection, as the reactor does.
"""
from collections import deque

from twisted.internet import reactor, task, error
from twisted.internet.address import IPv4Address
from twisted.python import failure
import twisted.internet.base

twisted.internet.base.DelayedCall.debug = False


class End(object):
    """One end of a connection: the transport of its protocol."""

    def __init__(self, net, name):
        self.net, self.name = net, name
        self.protocol = self.peer = None
        self.out = deque()        # what the other end has still to get: bytes or END
        self.connected = True
        self.disconnecting = False
        self.errors = []

    # what protocols call
    def write(self, data):
        if self.connected and not self.disconnecting and data:
            self.out.append(bytes(data))

    def writeSequence(self, seq):
        self.write(b''.join(seq))

    def loseConnection(self, *args, **kwargs):
        if self.connected and not self.disconnecting:
            self.disconnecting = True
            self.net.soon(lambda: self.lost(error.ConnectionDone()))

    def abortConnection(self):
        if self.connected:
            self.disconnecting = True
            self.out.clear()
            self.net.soon(lambda: self.lost(error.ConnectionAborted()))

    def getPeer(self):
        return IPv4Address('TCP', '127.0.0.1', 1)

    def getHost(self):
        return IPv4Address('TCP', '127.0.0.1', 1)

    def setTcpNoDelay(self, on):
        pass

    def setTcpKeepAlive(self, on):
        pass

    def registerProducer(self, producer, streaming):
        pass

    def unregisterProducer(self):
        pass

    def pauseProducing(self):
        pass

    def resumeProducing(self):
        pass

    # what the network does
    def lost(self, reason):
        if not self.connected:
            return
        self.connected = False
        self.out.append(END)
        try:
            self.protocol.connectionLost(failure.Failure(reason))
        except Exception as exc:
            self.net.errors.append((self.name, 'connectionLost', repr(exc)))

    def give(self, data):
        """Data arrives at this end."""
        if not self.connected:
            return
        if data is END:
            self.lost(error.ConnectionDone())
            return
        if self.disconnecting:
            return
        try:
            self.protocol.dataReceived(data)
        except Exception as exc:
            self.net.raised.append((self.name, repr(exc)))
            self.out.clear()
            self.lost(exc)


class END(object):
    pass


class Link(object):
    def __init__(self, net, client, server):
        self.client, self.server = client, server
        self.ends = {'c': client, 's': server}

    @property
    def open(self):
        return self.client.connected and self.server.connected

    def pending(self, to):
        source = self.client if to == 's' else self.server
        return len(source.out)

    def deliver(self, to, size=None):
        """Hands the next piece on its way to that end over to it."""
        source, sink = (self.client, self.server) if to == 's' else (self.server, self.client)
        if not source.out:
            return False
        piece = source.out.popleft()
        if size is not None and piece is not END:
            for i in range(0, len(piece), size):
                sink.give(piece[i:i + size])
        else:
            sink.give(piece)
        return True


class Port(object):
    def __init__(self, net, port):
        self.net, self.port = net, port

    def getHost(self):
        return IPv4Address('TCP', '127.0.0.1', self.port)

    def stopListening(self):
        self.net.servers.pop(self.port, None)


class Connector(object):
    def __init__(self, host, port, transport):
        self.host, self.port, self.transport = host, port, transport

    def disconnect(self):
        if self.transport:
            self.transport.loseConnection()

    stopConnecting = disconnect

    def getDestination(self):
        return IPv4Address('TCP', self.host, self.port)


class Net(object):
    """Takes the place of the last one."""

    def __init__(self):
        self.clock = task.Clock()
        self.servers, self.links, self.tasks = {}, [], deque()
        self.connects = []          # (host, port) of every connection asked for
        self.errors, self.raised, self.failed = [], [], []
        Net.current = self

    def soon(self, what):
        self.tasks.append(what)

    def listen(self, port, factory, backlog=50, interface=''):
        if port in self.servers:
            raise error.CannotListenError(interface, port, 'in use')
        self.servers[port] = factory
        factory.doStart()
        return Port(self, port)

    def connect(self, host, port, factory, timeout=30, bindAddress=None):
        self.connects.append((host, port))
        connector = Connector(host, port, None)
        factory.doStart()
        factory.startedConnecting(connector)
        self.soon(lambda: self.establish(connector, host, port, factory))
        return connector

    def establish(self, connector, host, port, factory):
        """As with real sockets, this happens once the reactor has control again."""
        if port not in self.servers:
            self.failed.append((host, port))
            factory.clientConnectionFailed(connector, failure.Failure(error.ConnectionRefusedError()))
            return
        server_factory = self.servers[port]
        number = len(self.links)
        client, server = End(self, 'client%d' % number), End(self, 'server%d' % number)
        client.peer, server.peer = server, client
        address = IPv4Address('TCP', '127.0.0.1', port)
        client.protocol = factory.buildProtocol(address)
        server.protocol = server_factory.buildProtocol(address)
        connector.transport = client
        link = Link(self, client, server)
        self.links.append(link)
        for end in (server, client):
            end.protocol.makeConnection(end)

    def run_tasks(self):
        done = False
        while self.tasks:
            self.tasks.popleft()()
            done = True
        return done

    def settle(self, size=None):
        """Everything under way arrives, in the order of the connections."""
        moved = True
        while moved:
            moved = self.run_tasks()
            for link in list(self.links):
                for to in 'sc':
                    while link.deliver(to, size):
                        moved = True
                        self.run_tasks()

    def advance(self, seconds):
        self.clock.advance(seconds)
        self.settle()


# classes under test may keep these functions, so they are replaced once
class Now(object):
    def __init__(self, what):
        self.what = what

    def __call__(self, *args, **kwargs):
        return self.what(Net.current)(*args, **kwargs)


reactor.callLater = Now(lambda net: net.clock.callLater)
reactor.seconds = Now(lambda net: net.clock.seconds)
reactor.listenTCP = Now(lambda net: net.listen)
reactor.connectTCP = Now(lambda net: net.connect)
reactor.run = lambda *a, **k: None
# autobahn formats its settings for a log nobody reads
import autobahn.twisted.websocket
import autobahn.websocket.protocol
autobahn.websocket.protocol.pformat = lambda *a, **k: ''
import txaio.tx
txaio.tx.config.loop = reactor
