"""C06 nothing refers to a caller whose blocking call has returned, C07 conditions are re-checked."""
from .core import *
from . import rules_dns, rules_io, rules_itc, rules_reactor, rules_sched, rules_sync, rules_time


def C06(c):
    c.ctor = set()
    c.only = {"mutex-leave-queue", "cond-timeout-unlink", "cond-success-only-if-signalled",
              "cond-signal-one", "cond-broadcast-each", "cond-broadcast-all", "sleeper-leaves",
              "join-unregisters", "channel-forgets-caller"}
    rules_sync.mutex(c)
    rules_sync.cond(c)
    rules_time.C13(c)
    rules_sched.join(c)
    rules_itc.read_side(c, {"forget"})
    rules_itc.write_side(c, {"forget"})
    for r in c.only:
        c.need(c.obl.get(r), "rule %s has instances" % r)


def C07(c):
    c.ctor = set()
    c.only = {"mutex-observed-free", "mutex-wait-registered", "cond-success-only-if-signalled",
              "cond-registered-before-unlock", "join-only-after-end", "join-registers",
              "read-registered", "read-waits", "read-consumes-one", "read-only-if-needed", "read-suspends",
              "write-registered", "write-waits", "write-adds-one", "write-room-left",
              "write-only-if-needed", "write-suspends",
              "select-returns-ready", "select-waits-only-if-none", "select-suspends", "sleep-waits",
              "select-timeout", "select-none", "cond-waits-time", "io-retry-after-suspend", "io-result",
              "poll-watch", "poll-result", "lookup-waits"}
    rules_sync.mutex(c)
    rules_sync.cond(c)
    rules_time.C13(c)
    rules_sched.join(c)
    rules_itc.read_side(c, {"xfer"})
    rules_itc.write_side(c, {"xfer"})
    rules_itc.selector(c)
    rules_io.C15(c)
    rules_reactor.io_poll(c)
    rules_dns.C27(c)
    for r in c.only:
        c.need(c.obl.get(r), "rule %s has instances" % r)
