"""Programs the static types must accept (C33).  Only type checked, never executed.

Every line ending in `# W: rule | construct` is one obligation: the checker reports nothing on it.
"""
import asyncio
from collections.abc import AsyncIterator, Callable
from datetime import timedelta
from pathlib import Path
from typing import Any

from typing_extensions import assert_type

from frequenz.channels import (
    Anycast,
    Broadcast,
    ChannelClosedError,
    ChannelError,
    Error,
    Merger,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    Selected,
    Sender,
    SenderError,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import (
    MissedTickPolicy,
    SkipMissedAndDrift,
    SkipMissedAndResync,
    Timer,
    TriggerAllMissed,
)


class Animal:
    pass


class Cat(Animal):
    pass


async def anycast() -> None:
    chan: Anycast[Cat] = Anycast(name="cats")  # W: construct | _anycast.py:Anycast.__init__
    chan2 = Anycast[Cat](name="cats", limit=3)  # W: construct | _anycast.py:Anycast.__init__
    assert_type(chan.new_sender(), Sender[Cat])  # W: sender-type | _anycast.py:Anycast.new_sender
    assert_type(chan.new_receiver(), Receiver[Cat])  # W: receiver-type | _anycast.py:Anycast.new_receiver
    assert_type(await chan.new_sender().send(Cat()), None)  # W: send-type | _sender.py:Sender.send
    assert_type(await chan2.new_receiver().receive(), Cat)  # W: receive-type | _receiver.py:Receiver.receive
    assert_type(chan.limit, int)  # W: attribute-type | _anycast.py:Anycast.limit
    assert_type(chan.name, str)  # W: attribute-type | _anycast.py:Anycast.name
    assert_type(chan.is_closed, bool)  # W: attribute-type | _anycast.py:Anycast.is_closed
    assert_type(await chan.close(), None)  # W: close-type | _anycast.py:Anycast.close


async def broadcast() -> None:
    chan: Broadcast[Cat] = Broadcast(name="cats")  # W: construct | _broadcast.py:Broadcast.__init__
    chan2 = Broadcast[Cat](name="cats", resend_latest=True)  # W: construct | _broadcast.py:Broadcast.__init__
    assert_type(chan.new_sender(), Sender[Cat])  # W: sender-type | _broadcast.py:Broadcast.new_sender
    assert_type(chan.new_receiver(), Receiver[Cat])  # W: receiver-type | _broadcast.py:Broadcast.new_receiver
    assert_type(chan2.new_receiver(name="a", limit=3), Receiver[Cat])  # W: receiver-type | _broadcast.py:Broadcast.new_receiver
    assert_type(await chan.new_sender().send(Cat()), None)  # W: send-type | _sender.py:Sender.send
    assert_type(await chan.new_receiver().receive(), Cat)  # W: receive-type | _receiver.py:Receiver.receive
    assert_type(chan.name, str)  # W: attribute-type | _broadcast.py:Broadcast.name
    assert_type(chan.is_closed, bool)  # W: attribute-type | _broadcast.py:Broadcast.is_closed


async def receiver(recv: Receiver[Cat]) -> None:
    async for msg in recv:
        assert_type(msg, Cat)  # W: iteration-type | _receiver.py:Receiver.__anext__
    assert_type(await anext(recv), Cat)  # W: iteration-type | _receiver.py:Receiver.__anext__
    assert_type(await recv.ready(), bool)  # W: ready-type | _receiver.py:Receiver.ready
    assert_type(recv.consume(), Cat)  # W: consume-type | _receiver.py:Receiver.consume
    assert_type(await recv.receive(), Cat)  # W: receive-type | _receiver.py:Receiver.receive


async def mapping(recv: Receiver[Cat], fun: Callable[[Cat], int], wide: Callable[[Animal], int]) -> None:
    assert_type(recv.map(fun), Receiver[int])  # W: map-type | _receiver.py:Receiver.map
    assert_type(recv.map(wide), Receiver[int])  # W: map-type | _receiver.py:Receiver.map
    assert_type(await recv.map(fun).receive(), int)  # W: map-type | _receiver.py:Receiver.map
    assert_type(recv.map(lambda _: "x").map(len), Receiver[int])  # W: map-type | _receiver.py:Receiver.map


def variance(recv: Receiver[Cat], send: Sender[Animal]) -> None:
    wide: Receiver[Animal] = recv  # W: receiver-covariant | _generic.py:ReceiverMessageT_co
    narrow: Sender[Cat] = send  # W: sender-contravariant | _generic.py:SenderMessageT_contra


def selected_variance(sel: Selected[Cat], merged: Merger[Cat]) -> None:
    wide: Selected[Animal] = sel  # W: selected-covariant | _select.py:Selected
    wide2: Merger[Animal] = merged  # W: merger-covariant | _merge.py:Merger
    wide3: Receiver[Animal] = merged  # W: merger-is-receiver | _merge.py:Merger


def error_variance(
    r: ReceiverStoppedError[Cat], c: ChannelClosedError[Anycast[Cat]], s: SenderError[Cat], u: UnhandledSelectedError[Cat]
) -> None:
    r2: ReceiverError[Animal] = r  # W: error-covariant | _receiver.py:ReceiverError
    c2: ChannelError[object] = c  # W: error-covariant | _exceptions.py:ChannelError
    c3: Error = c  # W: error-base | _exceptions.py:ChannelError
    r3: Error = r  # W: error-base | _receiver.py:ReceiverError
    s3: Error = s  # W: error-base | _sender.py:SenderError
    u3: SelectError = u  # W: error-base | _select.py:UnhandledSelectedError
    u4: Error = u  # W: error-base | _select.py:SelectError
    e: RuntimeError = r3  # W: error-base | _exceptions.py:Error
    assert_type(r.receiver, Receiver[Cat])  # W: error-attribute | _receiver.py:ReceiverError.__init__
    assert_type(c.channel, Anycast[Cat])  # W: error-attribute | _exceptions.py:ChannelError.__init__
    assert_type(s.sender, Sender[Cat])  # W: error-attribute | _sender.py:SenderError.__init__
    assert_type(u.selected, Selected[Cat])  # W: error-attribute | _select.py:UnhandledSelectedError.__init__


async def merging(a: Receiver[Cat], b: Receiver[Cat], c: Receiver[Animal]) -> None:
    assert_type(merge(a, b), Merger[Cat])  # W: merge-type | _merge.py:merge
    assert_type(merge(a, c), Merger[Animal])  # W: merge-type | _merge.py:merge
    assert_type(await merge(a, b).receive(), Cat)  # W: merge-type | _merge.py:merge
    assert_type(await merge(a, b).stop(), None)  # W: merge-type | _merge.py:Merger.stop
    async for msg in merge(a):
        assert_type(msg, Cat)  # W: merge-type | _merge.py:merge


async def selecting(a: Receiver[Cat], b: Receiver[int], t: Timer) -> None:
    assert_type(select(a, b), AsyncIterator[Selected[Any]])  # W: select-type | _select.py:select
    async for selected in select(a, b, t):
        if selected_from(selected, a):
            assert_type(selected, Selected[Cat])  # W: selected-narrows | _select.py:selected_from
            assert_type(selected.message, Cat)  # W: selected-message | _select.py:Selected.message
        elif selected_from(selected, b):
            assert_type(selected.message, int)  # W: selected-narrows | _select.py:selected_from
            assert_type(selected.was_stopped, bool)  # W: selected-attribute | _select.py:Selected.was_stopped
            assert_type(selected.exception, Exception | None)  # W: selected-attribute | _select.py:Selected.exception
        elif selected_from(selected, t):
            assert_type(selected.message, timedelta)  # W: selected-narrows | _select.py:selected_from


async def event() -> None:
    ev = Event()  # W: construct | event.py:Event.__init__
    ev2 = Event(name="x")  # W: construct | event.py:Event.__init__
    recv: Receiver[None] = ev  # W: event-is-receiver | event.py:Event
    assert_type(ev.is_set, bool)  # W: attribute-type | event.py:Event.is_set
    assert_type(ev2.is_stopped, bool)  # W: attribute-type | event.py:Event.is_stopped
    assert_type(ev2.name, str)  # W: attribute-type | event.py:Event.name


async def timer(pol: MissedTickPolicy, loop: asyncio.AbstractEventLoop) -> None:
    t = Timer(timedelta(seconds=1), TriggerAllMissed())  # W: construct | timer.py:Timer.__init__
    t2 = Timer(timedelta(seconds=1), SkipMissedAndResync(), auto_start=True, start_delay=timedelta(1), loop=loop)  # W: construct | timer.py:Timer.__init__
    p: MissedTickPolicy = SkipMissedAndDrift(delay_tolerance=timedelta(1))  # W: construct | timer.py:SkipMissedAndDrift.__init__
    recv: Receiver[timedelta] = t  # W: timer-is-receiver | timer.py:Timer
    assert_type(await t2.receive(), timedelta)  # W: timer-message | timer.py:Timer.consume
    assert_type(t.interval, timedelta)  # W: attribute-type | timer.py:Timer.interval
    assert_type(t.missed_tick_policy, MissedTickPolicy)  # W: attribute-type | timer.py:Timer.missed_tick_policy
    assert_type(t.loop, asyncio.AbstractEventLoop)  # W: attribute-type | timer.py:Timer.loop
    assert_type(t.is_running, bool)  # W: attribute-type | timer.py:Timer.is_running
    assert_type(pol.calculate_next_tick_time(now=1, scheduled_tick_time=1, interval=1), int)  # W: policy-type | timer.py:MissedTickPolicy.calculate_next_tick_time


async def watcher() -> None:
    paths: list[Path | str] = ["a", Path("b")]
    w = FileWatcher(paths)  # W: construct | file_watcher.py:FileWatcher.__init__
    w2 = FileWatcher(paths=["a"], event_types=[EventType.CREATE])  # W: construct | file_watcher.py:FileWatcher.__init__
    w3 = FileWatcher(paths=["a"], event_types={EventType.MODIFY, EventType.DELETE})  # W: construct | file_watcher.py:FileWatcher.__init__
    recv: Receiver[FileEvent] = w  # W: watcher-is-receiver | file_watcher.py:FileWatcher
    msg = await w.receive()
    assert_type(msg.type, EventType)  # W: watcher-message | file_watcher.py:Event
    assert_type(msg.path, Path)  # W: watcher-message | file_watcher.py:Event


class MyReceiver(Receiver[Cat]):
    """A user-defined receiver."""

    async def ready(self) -> bool:  # W: user-receiver | _receiver.py:Receiver.ready
        return True

    def consume(self) -> Cat:  # W: user-receiver | _receiver.py:Receiver.consume
        return Cat()


class MySender(Sender[Animal]):
    """A user-defined sender."""

    async def send(self, message: Animal, /) -> None:  # W: user-sender | _sender.py:Sender.send
        pass


class MyPolicy(MissedTickPolicy):
    """A user-defined policy."""

    def calculate_next_tick_time(self, *, interval: int, scheduled_tick_time: int, now: int) -> int:  # W: user-policy | timer.py:MissedTickPolicy.calculate_next_tick_time
        return now


def user_defined() -> None:
    a: Receiver[Animal] = MyReceiver()  # W: user-receiver | _receiver.py:Receiver
    b: Sender[Cat] = MySender()  # W: user-sender | _sender.py:Sender
    c = Timer(timedelta(1), MyPolicy())  # W: user-policy | timer.py:Timer.__init__


async def generic_pipe(chan: Broadcast[Animal], cats: Receiver[Cat]) -> None:
    sender = chan.new_sender()
    async for cat in cats:
        await sender.send(cat)  # W: subtype-message | _sender.py:Sender.send
