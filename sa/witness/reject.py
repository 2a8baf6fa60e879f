"""Programs the static types must reject (C33).  Only type checked, never executed.

Every line ending in `# W: rule | construct` is one obligation: the checker reports an error on it.
"""
import asyncio
from collections.abc import Callable
from datetime import timedelta

from frequenz.channels import (
    Anycast,
    Broadcast,
    ChannelClosedError,
    Merger,
    Receiver,
    ReceiverStoppedError,
    Selected,
    Sender,
    SenderError,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import MissedTickPolicy, SkipMissedAndDrift, Timer, TriggerAllMissed


class Animal:
    pass


class Cat(Animal):
    pass


class Dog(Animal):
    pass


def use_dog(_: Dog) -> int:
    return 1


async def anycast(chan: Anycast[Cat], animals: Anycast[Animal]) -> None:
    await chan.new_sender().send(Dog())  # W: wrong-message | _anycast.py:Anycast.new_sender
    await chan.new_sender().send(None)  # W: wrong-message | _anycast.py:Anycast.new_sender
    dog: Dog = await chan.new_receiver().receive()  # W: wrong-received | _anycast.py:Anycast.new_receiver
    cat: Cat = await animals.new_receiver().receive()  # W: wrong-received | _anycast.py:Anycast.new_receiver
    r: Receiver[Dog] = chan.new_receiver()  # W: wrong-receiver | _anycast.py:Anycast.new_receiver
    s: Sender[Animal] = chan.new_sender()  # W: wrong-sender | _anycast.py:Anycast.new_sender
    wide: Anycast[Animal] = chan  # W: channel-invariant | _anycast.py:Anycast
    narrow: Anycast[Cat] = animals  # W: channel-invariant | _anycast.py:Anycast
    Anycast[Cat]("x")  # W: name-keyword-only | _anycast.py:Anycast.__init__
    Anycast[Cat]()  # W: name-required | _anycast.py:Anycast.__init__
    Anycast[Cat](name="x", limit="y")  # W: wrong-argument | _anycast.py:Anycast.__init__
    chan.limit = 3  # W: read-only | _anycast.py:Anycast.limit
    chan.is_closed = True  # W: read-only | _anycast.py:Anycast.is_closed


async def broadcast(chan: Broadcast[Cat], animals: Broadcast[Animal]) -> None:
    await chan.new_sender().send(Dog())  # W: wrong-message | _broadcast.py:Broadcast.new_sender
    await chan.new_sender().send(None)  # W: wrong-message | _broadcast.py:Broadcast.new_sender
    dog: Dog = await chan.new_receiver().receive()  # W: wrong-received | _broadcast.py:Broadcast.new_receiver
    cat: Cat = await animals.new_receiver().receive()  # W: wrong-received | _broadcast.py:Broadcast.new_receiver
    r: Receiver[Dog] = chan.new_receiver()  # W: wrong-receiver | _broadcast.py:Broadcast.new_receiver
    s: Sender[Animal] = chan.new_sender()  # W: wrong-sender | _broadcast.py:Broadcast.new_sender
    wide: Broadcast[Animal] = chan  # W: channel-invariant | _broadcast.py:Broadcast
    narrow: Broadcast[Cat] = animals  # W: channel-invariant | _broadcast.py:Broadcast
    Broadcast[Cat]("x")  # W: name-keyword-only | _broadcast.py:Broadcast.__init__
    Broadcast[Cat](name="x", resend_latest="y")  # W: wrong-argument | _broadcast.py:Broadcast.__init__
    chan.new_receiver(limit="y")  # W: wrong-argument | _broadcast.py:Broadcast.new_receiver
    chan.is_closed = True  # W: read-only | _broadcast.py:Broadcast.is_closed


async def receiver(recv: Receiver[Cat]) -> None:
    a: Dog = recv.consume()  # W: wrong-received | _receiver.py:Receiver.consume
    b: Dog = await recv.receive()  # W: wrong-received | _receiver.py:Receiver.receive
    c: Dog = await anext(recv)  # W: wrong-received | _receiver.py:Receiver.__anext__
    async for msg in recv:
        d: Dog = msg  # W: wrong-received | _receiver.py:Receiver.__anext__
    e: Cat = recv.receive()  # W: must-await | _receiver.py:Receiver.receive
    for msg in recv:  # W: not-sync-iterable | _receiver.py:Receiver.__aiter__
        pass
    Receiver[Cat]()  # W: abstract | _receiver.py:Receiver


async def mapping(recv: Receiver[Cat], fun: Callable[[Cat], int]) -> None:
    recv.map(use_dog)  # W: map-argument | _receiver.py:Receiver.map
    a: Receiver[str] = recv.map(fun)  # W: map-result | _receiver.py:Receiver.map
    b: str = await recv.map(fun).receive()  # W: map-result | _receiver.py:Receiver.map
    recv.map(fun).map(use_dog)  # W: map-argument | _receiver.py:Receiver.map
    recv.map(3)  # W: map-argument | _receiver.py:Receiver.map


def variance(recv: Receiver[Animal], send: Sender[Cat]) -> None:
    narrow: Receiver[Cat] = recv  # W: receiver-covariant | _generic.py:ReceiverMessageT_co
    wide: Sender[Animal] = send  # W: sender-contravariant | _generic.py:SenderMessageT_contra


def more_variance(sel: Selected[Animal], merged: Merger[Animal], r: ReceiverStoppedError[Animal]) -> None:
    a: Selected[Cat] = sel  # W: selected-covariant | _select.py:Selected
    b: Merger[Cat] = merged  # W: merger-covariant | _merge.py:Merger
    c: Receiver[Cat] = merged  # W: merger-is-receiver | _merge.py:Merger
    d: ReceiverStoppedError[Cat] = r  # W: error-covariant | _receiver.py:ReceiverStoppedError


def errors(r: ReceiverStoppedError[Cat], c: ChannelClosedError[Anycast[Cat]], u: UnhandledSelectedError[Cat], s: SenderError[Cat]) -> None:
    a: Receiver[Dog] = r.receiver  # W: error-attribute | _receiver.py:ReceiverError.__init__
    b: Anycast[Dog] = c.channel  # W: error-attribute | _exceptions.py:ChannelError.__init__
    d: Selected[Dog] = u.selected  # W: error-attribute | _select.py:UnhandledSelectedError.__init__
    e: Sender[Dog] = s.sender  # W: error-attribute | _sender.py:SenderError.__init__


async def merging(a: Receiver[Cat], b: Receiver[Dog]) -> None:
    m: Merger[Cat] = merge(a, b)  # W: merge-type | _merge.py:merge
    c: Dog = await merge(a, a).receive()  # W: merge-type | _merge.py:merge
    d: Merger[Dog] = merge(a)  # W: merge-type | _merge.py:merge
    merge(a, 3)  # W: merge-argument | _merge.py:merge
    merge([a, a])  # W: merge-argument | _merge.py:merge


async def selecting(a: Receiver[Cat], b: Receiver[int]) -> None:
    select(3)  # W: select-argument | _select.py:select
    select([a, b])  # W: select-argument | _select.py:select
    for selected in select(a):  # W: not-sync-iterable | _select.py:select
        pass
    async for selected in select(a, b):
        selected_from(selected, 3)  # W: selected-from-argument | _select.py:selected_from
        selected_from(selected.message, 3)  # W: selected-from-argument | _select.py:selected_from
        if selected_from(selected, a):
            x: Dog = selected.message  # W: selected-narrows | _select.py:selected_from
            selected.message = Cat()  # W: read-only | _select.py:Selected.message
        elif selected_from(selected, b):
            y: str = selected.message  # W: selected-narrows | _select.py:selected_from
            w: str = selected.was_stopped  # W: selected-attribute | _select.py:Selected.was_stopped


async def event(ev: Event) -> None:
    r: Receiver[int] = ev  # W: event-is-receiver | event.py:Event
    i: int = await ev.receive()  # W: event-message | event.py:Event.consume
    Event("x")  # W: name-keyword-only | event.py:Event.__init__
    ev.is_set = True  # W: read-only | event.py:Event.is_set
    ev.is_stopped = True  # W: read-only | event.py:Event.is_stopped


async def timer(t: Timer) -> None:
    r: Receiver[int] = t  # W: timer-is-receiver | timer.py:Timer
    i: float = await t.receive()  # W: timer-message | timer.py:Timer.consume
    Timer(1, TriggerAllMissed())  # W: wrong-argument | timer.py:Timer.__init__
    Timer(timedelta(1), TriggerAllMissed)  # W: wrong-argument | timer.py:Timer.__init__
    Timer(timedelta(1))  # W: policy-required | timer.py:Timer.__init__
    Timer(timedelta(1), TriggerAllMissed(), True)  # W: keyword-only | timer.py:Timer.__init__
    Timer(timedelta(1), TriggerAllMissed(), start_delay=1)  # W: wrong-argument | timer.py:Timer.__init__
    SkipMissedAndDrift(delay_tolerance=1)  # W: wrong-argument | timer.py:SkipMissedAndDrift.__init__
    MissedTickPolicy()  # W: abstract | timer.py:MissedTickPolicy
    t.is_running = True  # W: read-only | timer.py:Timer.is_running
    t.reset(start_delay=1)  # W: wrong-argument | timer.py:Timer.reset


async def watcher(w: FileWatcher) -> None:
    r: Receiver[str] = w  # W: watcher-is-receiver | file_watcher.py:FileWatcher
    s: str = await w.receive()  # W: watcher-message | file_watcher.py:FileWatcher.consume
    FileWatcher([3])  # W: wrong-argument | file_watcher.py:FileWatcher.__init__
    FileWatcher(["a"], ["create"])  # W: wrong-argument | file_watcher.py:FileWatcher.__init__
    ev = FileEvent(type=EventType.CREATE, path=3)  # W: wrong-argument | file_watcher.py:Event
    (await w.receive()).path = None  # W: read-only | file_watcher.py:Event


class NoConsume(Receiver[Cat]):
    async def ready(self) -> bool:
        return True


class NoReady(Receiver[Cat]):
    def consume(self) -> Cat:
        return Cat()


class NoSend(Sender[Cat]):
    pass


class WrongConsume(Receiver[Cat]):
    async def ready(self) -> bool:
        return True

    def consume(self) -> Dog:  # W: user-receiver | _receiver.py:Receiver.consume
        return Dog()


class WrongSend(Sender[Animal]):
    async def send(self, message: Cat, /) -> None:  # W: user-sender | _sender.py:Sender.send
        pass


def user_defined() -> None:
    NoConsume()  # W: abstract | _receiver.py:Receiver.consume
    NoReady()  # W: abstract | _receiver.py:Receiver.ready
    NoSend()  # W: abstract | _sender.py:Sender.send
    a: Receiver[Dog] = WrongConsume()  # W: user-receiver | _receiver.py:Receiver


async def generic_pipe(chan: Broadcast[Cat], animals: Receiver[Animal], other: Anycast[Dog]) -> None:
    sender = chan.new_sender()
    async for animal in animals:
        await sender.send(animal)  # W: wrong-message | _sender.py:Sender.send
    await sender.send(await other.new_receiver().receive())  # W: wrong-message | _sender.py:Sender.send
    await other.new_sender().send(await chan.new_receiver().receive())  # W: wrong-message | _sender.py:Sender.send
